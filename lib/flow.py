"""Value-flow analysis: a forward dataflow over a MIR body (possibly with callees inlined) that maps
every memory cell to a term describing where its value comes from. Terms are interned; values that
differ at a control-flow join become phi terms, so the analysis is a plain terminating fixpoint.
Cells are locals and the memory behind references that came from outside the body; references to
known places are followed (so a write through `let s = &mut self.states[i]` is a write to
`(*self).states[i]`)."""
import mir
from mir import strip_refs, ty_head


class T:
    __slots__ = ("op", "a", "id")

    def __repr__(self):
        return show(self)


_table = {}
_n = [0]


def mk(op, *a):
    k = (op,) + tuple(("T", x.id) if isinstance(x, T) else x for x in a)
    t = _table.get(k)
    if t is None:
        t = T()
        t.op, t.a = op, a
        _n[0] += 1
        t.id = _n[0]
        _table[k] = t
    return t


TOP = mk("top")
FNREC = {}   # key of a fnref term -> callee record


def show(t, d=6):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d) for x in t) + ")"
        return str(t)
    if d == 0:
        return "…"
    o, a = t.op, t.a
    s = lambda x: show(x, d - 1)
    if o == "param":
        return "p%d" % a[0]
    if o == "const":
        return str(a[1])
    if o == "field":
        return "%s.%s" % (s(a[0]), a[1])
    if o == "vf":
        return "%s!%s.%s" % (s(a[0]), a[1], a[2])
    if o == "idx":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if o == "deref":
        return "*%s" % s(a[0])
    if o == "ref":
        return "&%s" % show_place(a[0], a[1], d - 1)
    if o == "call":
        return "%s@%s(%s)" % (a[0].split("::")[-1], a[1], ", ".join(s(x) for x in a[3]))
    if o == "agg":
        return "%s{%s}" % ((a[0] or "").split("::")[-1] + (":" + a[1] if a[1] else ""),
                           ", ".join("%s:%s" % (f, s(x)) for f, x in zip(a[2], a[3])))
    if o == "bin":
        return "(%s %s %s)" % (s(a[1]), a[0], s(a[2]))
    if o == "un":
        return "%s(%s)" % (a[0], s(a[1]))
    if o == "cast":
        return "%s as %s" % (s(a[1]), a[0])
    if o == "upd":
        return "%s with %s=%s" % (s(a[0]), show_key(a[1]), s(a[2]))
    if o == "phi":
        return "φ%s" % (a,)
    if o == "mut":
        return "mut@%s.%s(%s)" % (a[0], a[1], s(a[2]))
    return "%s%s" % (o, "(" + ", ".join(s(x) for x in a) + ")" if a else "")


def show_key(k):
    if isinstance(k, tuple):
        return "[%s]" % ",".join(show(x) if isinstance(x, T) else str(x) for x in k)
    return str(k)


def show_place(cell, path, d=6):
    if isinstance(cell, int):
        s = "_%d" % cell
    else:
        s = "*" + show(cell[1], d)
    for k in path:
        s += "." + show_key(k)
    return s


# --------------------------------------------------------------------------- reading projections
def read_key(t, k):
    """The component k of a value: k is a field name/number, ('v', Variant, field), ('i', term),
    or 'deref' (the target of an owning smart pointer)."""
    while True:
        if t.op == "upd":
            if key_eq(t.a[1], k):
                return t.a[2]
            if key_disjoint(t.a[1], k):
                t = t.a[0]
                continue
            return mk("read", t, _kt(k))
        break
    if isinstance(k, tuple) and k[0] == "v":
        return vfield(t, k[1], k[2])
    if isinstance(k, tuple) and k[0] == "i":
        if t.op == "agg" and t.a[0] == "array" and k[1].op == "const":
            try:
                return t.a[3][int(k[1].a[1])]
            except Exception:
                pass
        return mk("idx", t, k[1])
    if k == "deref":
        return mk("field", t, "deref")
    if t.op == "agg":
        for f, x in zip(t.a[2], t.a[3]):
            if f == k:
                return x
    return mk("field", t, k)


def _kt(k):
    if isinstance(k, tuple):
        return mk("key", *k)
    return k


def key_eq(a, b):
    return a == b


def key_disjoint(a, b):
    ta, tb = isinstance(a, tuple), isinstance(b, tuple)
    if not ta and not tb:
        return a != b
    if ta and tb and a[0] == "v" and b[0] == "v":
        return a[1:] != b[1:]
    if ta and tb and a[0] == "i" and b[0] == "i":
        return a[1].op == "const" and b[1].op == "const" and a[1] is not b[1]
    return True


_cur = []
VARIANTS = {"Some", "None", "Ok", "Err", "Continue", "Break"}
OKLIKE = {"ok_or", "ok_or_else", "with_context", "context", "map_err", "ok"}


def vfield(t, v, f):
    while True:
        if t.op == "upd":
            if t.a[1] == ("v", v, f):
                return t.a[2]
            if isinstance(t.a[1], tuple) and t.a[1][0] == "v":
                t = t.a[0]
                continue
        break
    if t.op == "agg" and t.a[1] == v:
        for n, x in zip(t.a[2], t.a[3]):
            if n == f:
                return x
    if t.op == "phi" and _cur and v in VARIANTS:
        return _cur[-1].vphi(t, (v,), f)
    if t.op == "call":
        name = t.a[2]
        args = t.a[3]
        d = t.a[0]
        if name == "branch" and "Try" in d and v == "Continue":
            return payload(args[0], t)
        if name in OKLIKE and v in ("Ok", "Some") and args:
            return payload(args[0], t)
        if name in ("cloned", "copied") and v == "Some" and args:
            inner = payload(args[0], t)
            return clone_of(inner)
        if name in ("as_ref", "as_mut", "as_deref", "as_deref_mut") and v in ("Some", "Ok") and args and args[0].op == "ref":
            c, p = args[0].a
            return ref(c, p + (("v", v, "0"),))
        if name in ("get", "get_mut") and v == "Some" and len(args) == 2 and args[0].op == "ref" and \
                ("slice" in d or "Vec" in d):
            c, p = args[0].a
            return ref(c, p + (("i", args[1]),))
    return mk("vf", t, v, f)


def payload(x, t=None):
    """The Some/Ok payload of an Option/Result valued term."""
    if x.op == "agg":
        return vfield(x, x.a[1], "0")
    if x.op == "phi" and _cur:
        return _cur[-1].vphi(x, ("Ok", "Some"), "0")
    if x.op in ("call",):
        ty = x.a[4] if len(x.a) > 4 else ""
        if ty.startswith("core::option::Option"):
            return vfield(x, "Some", "0")
        if ty.startswith("core::result::Result"):
            return vfield(x, "Ok", "0")
    return mk("payload", x)


def clone_of(r):
    return mk("clone", r)


def ref(cell, path):
    if not path and isinstance(cell, tuple) and cell[0] == "m":
        return cell[1]
    return mk("ref", cell, path)


VIEW = {"deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "as_slice", "as_mut_slice"}


class Flow:
    def __init__(self, prog, body, hook=None):
        """hook(flow, b, term, callee, args) may return a T to be used as a call's result."""
        self.prog, self.body = prog, body
        self.hook = hook
        self.phis = {}
        self.inst = {}
        self.writes = {}
        self.calls = {}
        self.rets = {}
        self.conds = {}
        self.reads = {}
        self._busy = set()
        idom = body.dominators()
        self.back = {(b, s) for b in body.reachable() for s in body.succ(b) if dominated(idom, s, b)}
        _cur.append(self)
        try:
            self.run()
        finally:
            _cur.pop()

    # -- state handling: dict cell -> T
    def init(self):
        st = {}
        for i in range(1, self.body.argc + 1):
            st[i] = mk("param", i)
        return st

    def get_cell(self, st, c):
        t = st.get(c)
        if t is None:
            if isinstance(c, int):
                t = mk("uninit", c)
            else:
                t = mk("deref", c[1])
        return t

    def read(self, st, cell, path):
        t = self.get_cell(st, cell)
        for k in path:
            t = read_key(t, k)
        return t

    def write(self, st, cell, path, v):
        if not path:
            st[cell] = v
            return
        st[cell] = self._upd(self.get_cell(st, cell), path, v)

    def _upd(self, t, path, v):
        if not path:
            return v
        k = path[0]
        inner = self._upd(read_key(t, k), path[1:], v) if len(path) > 1 else v
        # rebuild without stacking updates of the same key
        if t.op == "agg" and not isinstance(k, tuple) and k in t.a[2]:
            return mk("agg", t.a[0], t.a[1], t.a[2],
                      tuple(inner if f == k else x for f, x in zip(t.a[2], t.a[3])))
        base = t
        rest = []
        while base.op == "upd":
            if key_eq(base.a[1], k):
                base = base.a[0]
                for kk, vv in reversed(rest):
                    base = mk("upd", base, kk, vv)
                return mk("upd", base, k, inner)
            if not key_disjoint(base.a[1], k):
                break
            rest.append((base.a[1], base.a[2]))
            base = base.a[0]
            if len(rest) > 40:
                break
        return mk("upd", t, k, inner)

    def place(self, st, pl):
        """Resolves a MIR place to (cell, path)."""
        cell, path = pl["l"], ()
        pend = None
        for e in pl.get("p", []):
            if e == "*":
                v = self.read(st, cell, path)
                if v.op == "ref":
                    cell, path = v.a
                else:
                    cell, path = ("m", v), ()
                continue
            if e == "?":
                path = path + ("?",)
                continue
            if "d" in e:
                pend = e["d"]
                continue
            if "f" in e:
                n = e.get("n", str(e["f"]))
                if e.get("cap"):
                    n = str(e["f"])
                if pend is not None:
                    path = path + (("v", pend, n),)
                    pend = None
                else:
                    path = path + (n,)
            elif "i" in e:
                path = path + (("i", self.get_cell(st, e["i"])),)
            elif "ci" in e:
                path = path + (("i", mk("const", "usize", ("-" if e.get("fe") else "") + str(e["ci"]))),)
            elif "sub" in e:
                path = path + (("sub", e["sub"], e["to"]),)
        return cell, path

    def op(self, st, o):
        k = o["k"]
        if k in ("copy", "move"):
            c, p = self.place(st, o["pl"])
            return self.read(st, c, p)
        if k == "const":
            return const_term(o, self)
        return TOP

    def rv(self, st, r, b):
        k = r["r"]
        if k == "use":
            return self.op(st, r["op"])
        if k in ("ref", "rawptr"):
            c, p = self.place(st, r["pl"])
            return ref(c, p)
        if k == "cast":
            x = self.op(st, r["op"])
            if r["kind"].startswith(("PointerCoercion", "PtrToPtr", "Transmute", "BoxDeref", "Subtype")):
                if x.op == "fnref" or x.op == "const":
                    return x
                return x
            return mk("cast", r["ty"], x)
        if k == "bin":
            a, bb = self.op(st, r["a"]), self.op(st, r["b"])
            op = r["op"]
            if op.endswith("WithOverflow"):
                base = op[:-len("WithOverflow")]
                return mk("agg", "tuple", "", ("0", "1"), (mk("bin", base, a, bb), mk("ovf", base, a, bb)))
            return mk("bin", op, a, bb)
        if k == "un":
            return mk("un", r["op"], self.op(st, r["a"]))
        if k == "discr":
            c, p = self.place(st, r["pl"])
            return mk("discr", self.read(st, c, p))
        if k == "agg":
            ops = tuple(self.op(st, o) for o in r["ops"])
            if r["kind"] == "adt":
                return mk("agg", r["adt"], r["variant"] if r["variant"] != r["adt"].split("::")[-1] else "",
                          tuple(r["fields"]), ops)
            if r["kind"] == "closure":
                return mk("agg", "closure:" + r["def"], "", tuple(str(i) for i in range(len(ops))), ops)
            return mk("agg", r["kind"], "", tuple(str(i) for i in range(len(ops))), ops)
        if k == "repeat":
            return mk("repeat", self.op(st, r["op"]), r["n"])
        return TOP

    def is_mut_ref(self, o):
        if o["k"] in ("copy", "move") and not o["pl"].get("p"):
            t = self.body.locals[o["pl"]["l"]]
            return t.startswith("&mut ") or t.startswith("*mut ") or (t.startswith("&'") and " mut " in t[:14]) \
                or "{closure@" in t or "&mut " in t or "mut " in t[:20]
        return False

    def call(self, st, b, t):
        c = mir.callee_of(t)
        args = tuple(self.op(st, a) for a in t["args"])
        self.calls[b] = (c, args)
        res = None
        if self.hook:
            res = self.hook(self, b, t, c, args)
        dty = self.body.locals[t["dst"]["l"]] if not t["dst"].get("p") else ""
        name = c["name"] if c else ""
        d = (c.get("res") or c["def"]) if c else ""
        havoc = True
        if res is None and c is not None:
            a0 = args[0] if args else None
            if name in VIEW and a0 is not None and a0.op == "ref" and len(args) == 1 and dty.startswith("&"):
                res = ref(a0.a[0], a0.a[1] + ("deref",))
                havoc = False
            elif name in VIEW and a0 is not None and len(args) == 1 and dty.startswith("&"):
                res = ref(("m", a0), ("deref",))
                havoc = False
            elif name in ("index", "index_mut", "get_unchecked", "get_unchecked_mut") and len(args) == 2 and dty.startswith("&"):
                if a0.op == "ref":
                    res = ref(a0.a[0], a0.a[1] + (("i", args[1]),))
                else:
                    res = ref(("m", a0), (("i", args[1]),))
                havoc = False
            elif name in ("get", "get_mut") and len(args) == 2 and "Option<&" in dty:
                havoc = False
            elif name in ("unwrap", "expect", "unwrap_unchecked", "unsafe_unwrap") and a0 is not None:
                v = "Ok" if "result::Result" in (c.get("impl_self") or c.get("self") or "") else "Some"
                res = vfield(a0, v, "0")
            elif name == "clone" and "Clone" in c.get("trait", "") and a0 is not None:
                if a0.op == "ref":
                    res = clone_of(self.read(st, a0.a[0], a0.a[1]))
                else:
                    res = clone_of(self.read(st, ("m", a0), ()))
            elif name in ("into", "from") and c.get("trait", "").startswith("core::convert::") and a0 is not None:
                res = mk("conv", c["trait"].split("::")[-1], dty, a0)
            elif name in ("to_owned", "into_boxed_slice") and a0 is not None:
                res = mk("conv", name, dty, a0)
            elif name == "new" and d.startswith("alloc::boxed::Box") and a0 is not None:
                res = mk("box", a0)
            elif name == "branch" and "Try" in d and a0 is not None:
                res = mk("call", d, b, name, args, dty)
        if res is None:
            res = mk("call", d if c else "?indirect", b, name, args, dty)
        if havoc:
            for i, (o, a) in enumerate(zip(t["args"], args)):
                if self.is_mut_ref(o):
                    self.havoc(st, a, b, i)
        cell, path = self.place(st, t["dst"])
        self.write(st, cell, path, res)

    def havoc(self, st, a, b, i, depth=0):
        if a.op == "ref":
            old = self.read(st, a.a[0], a.a[1])
            if depth == 0:
                self.writes.setdefault((b, "T"), []).append((a.a[0], a.a[1], None))
            self.write(st, a.a[0], a.a[1], mk("mut", b, i, old))
            if old.op == "agg" and old.a[0].startswith("closure:") and depth < 3:
                for x in old.a[3]:
                    self.havoc(st, x, b, i, depth + 1)
        elif a.op == "agg" and depth < 3:
            for x in a.a[3]:
                self.havoc(st, x, b, i, depth + 1)
        elif a.op in ("param", "vf", "field", "call", "payload", "idx", "deref", "mut", "read"):
            cell = ("m", a)
            old = self.get_cell(st, cell)
            st[cell] = mk("mut", b, i, old)

    def merge(self, b, key, ts):
        """ts: {pred: T}. Joins values at block b."""
        vals = list(ts.values())
        k = (b, key)
        if k not in self.phis:
            if all(v is vals[0] for v in vals):
                return vals[0]
            f = vals[0]
            if f.op == "agg" and all(v.op == "agg" and v.a[:3] == f.a[:3] for v in vals):
                comps = []
                for i, n in enumerate(f.a[2]):
                    comps.append(self.merge(b, key + (n,), {p: v.a[3][i] for p, v in ts.items()}))
                return mk("agg", f.a[0], f.a[1], f.a[2], tuple(comps))
            # values that are updates of a common base: merge per updated key
            m = self.merge_upd(b, key, ts)
            if m is not None:
                return m
            self.phis[k] = {}
        self.phis[k].update(ts)
        return mk("phi", b, key)

    def impossible(self, x, vs, depth=0):
        """Can a joined value not be of one of the variants?"""
        if x.op == "agg" and x.a[1] in VARIANTS and x.a[1] not in vs:
            return True
        if x.op == "call" and x.a[2] == "from_residual" and not set(vs) & {"Err", "None", "Break"}:
            return True
        if x.op == "phi" and depth < 6:
            ins = self.phis.get((x.a[0], x.a[1]))
            return bool(ins) and all(self.impossible(y, vs, depth + 1) for y in ins.values() if y is not x)
        return False

    def vphi(self, t, vs, f):
        """Field f of variant vs of a joined value: only the joined values that can be of that
        variant count."""
        ins = self.phis.get((t.a[0], t.a[1]))
        if ins is None:
            return mk("vf", t, vs[0], f)
        outs = {}
        k = (t.a[0], t.a[1] + (("v", vs[0], f),))
        for p, x in list(ins.items()):
            if self.impossible(x, vs):
                continue
            if x is t or x.op == "phi" and (x.a[0], x.a[1]) in self._busy:
                continue
            self._busy.add((t.a[0], t.a[1]))
            if len(vs) > 1:
                outs[p] = payload(x)
            else:
                outs[p] = vfield(x, vs[0], f)
            self._busy.discard((t.a[0], t.a[1]))
        if not outs:
            return mk("vf", t, vs[0], f)
        vals = list(outs.values())
        if all(v is vals[0] for v in vals) and k not in self.phis and not any((p, t.a[0]) in self.back for p in outs):
            return vals[0]
        self.phis[k] = outs
        return mk("phi", k[0], k[1])

    def merge_upd(self, b, key, ts):
        if not any(v.op == "upd" for v in ts.values()):
            return None
        bases = {p: chain(v) for p, v in ts.items()}
        root = None
        for p, (base, ups) in bases.items():
            if root is None:
                root = base
            elif base is not root:
                return None
        keys = []
        for base, ups in bases.values():
            for k in ups:
                if k not in keys:
                    keys.append(k)
        out = root
        for k in keys:
            vals = {p: (ups[k] if k in ups else read_key(root, k)) for p, (base, ups) in bases.items()}
            out = mk("upd", out, k, self.merge(b, key + (k,), vals))
        return out

    def run(self):
        body = self.body
        order = body.rpo()
        pos = {b: i for i, b in enumerate(order)}
        preds = body.preds()
        out = {}
        self.inn = {}
        rounds = 0
        while True:
            rounds += 1
            changed = False
            for b in order:
                ps = [p for p in preds[b] if (p, b) in out or p in out]
                if b == 0:
                    st = self.init()
                else:
                    sts = {p: out[p] for p in ps if p in out}
                    if not sts:
                        continue
                    if len(sts) == 1:
                        st = dict(next(iter(sts.values())))
                    else:
                        st = {}
                        cells = set()
                        for s in sts.values():
                            cells.update(s)
                        for c in cells:
                            ts = {p: (s[c] if c in s else self.get_cell(s, c)) for p, s in sts.items()}
                            # a local not assigned on some path: keep the assigned value
                            if isinstance(c, int):
                                ts2 = {p: v for p, v in ts.items() if v.op != "uninit"}
                                if ts2:
                                    ts = ts2
                            st[c] = self.merge(b, (c,) if not isinstance(c, tuple) else (c,), ts)
                self.inn[b] = dict(st)
                self.step(st, b)
                if out.get(b) != st:
                    out[b] = st
                    changed = True
            if not changed or rounds > 60:
                break
        self.rounds = rounds
        self.out = out
        # final pass: record conditions, returns
        for b in order:
            t = body.bbs[b]["term"]
            if t["t"] == "return":
                self.rets[b] = self.get_cell(out[b], 0) if b in out else TOP
            if t["t"] == "switch" and b in out:
                self.conds[b] = self.op(out[b], t["op"])
            if t["t"] == "assert" and b in out:
                self.conds[b] = self.op(out[b], t["cond"])

    def step(self, st, b):
        bb = self.body.bbs[b]
        for i, s in enumerate(bb["st"]):
            if s["s"] == "=":
                v = self.rv(st, s["rv"], b)
                cell, path = self.place(st, s["pl"])
                if not isinstance(cell, int) or path:
                    self.writes[(b, i)] = [(cell, path, v)]
                self.write(st, cell, path, v)
            elif s["s"] == "setdiscr":
                pass
        t = bb["term"]
        if t["t"] == "call":
            self.writes.pop((b, "T"), None)
            self.call(st, b, t)

    def state_at_term(self, b):
        st = dict(self.inn[b])
        bb = self.body.bbs[b]
        for s in bb["st"]:
            if s["s"] == "=":
                v = self.rv(st, s["rv"], b)
                cell, path = self.place(st, s["pl"])
                self.write(st, cell, path, v)
        return st

    # -- control conditions
    def dom_edges(self, b):
        """Edges (p, q) that every path to b takes: list of (switch block, successor)."""
        body = self.body
        out = []
        idom = body.dominators()
        x = b
        while True:
            ps = body.preds()[x]
            if len(ps) == 1 and len(body.succ(ps[0])) > 1:
                out.append((ps[0], x))
            if x not in idom or idom[x] == x:
                break
            x = idom[x]
        return out


def chain(t):
    ups = {}
    while t.op == "upd":
        if t.a[1] not in ups:
            ups[t.a[1]] = t.a[2]
        t = t.a[0]
    return t, ups


def dominated(idom, a, b):
    """Does a dominate b?"""
    while a != b:
        if b not in idom or idom[b] == b:
            return False
        b = idom[b]
    return True


def const_term(o, flow=None):
    if "fn" in o:
        c = o["fn"]
        k = "%s|%s|%s" % (c.get("res") or c["def"], c.get("self", ""), ",".join(c.get("args", [])))
        FNREC[k] = c
        return mk("fnref", c.get("res") or c["def"], k)
    if "bits" in o:
        return mk("const", o["ty"], o["bits"])
    if "str" in o:
        return mk("const", "&str", o["str"])
    if "promoted" in o:
        return mk("promoted", o.get("named"), o["promoted"])
    if "named" in o:
        return mk("const", o["ty"], "#" + o["named"] + ("@" + o["cself"] if "cself" in o else ""))
    return mk("const", o.get("ty", ""), "?" + o.get("tyconst", ""))


def subterms(t, phis=None, seen=None):
    """All terms reachable from t; through phi joins when the phi table is given."""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        yield x
        for a in x.a:
            if isinstance(a, (T, tuple)):
                st.append(a)
        if x.op == "phi" and phis is not None:
            st.extend(phis.get((x.a[0], x.a[1]), {}).values())


def reach_terms(F, b, t, seen=None):
    """All terms a value is computed from: through joins and, for references to the body's own
    memory, through the contents of the referenced cells at block b."""
    st = F.state_at_term(b)
    seen = set() if seen is None else seen
    work = [t]
    out = []
    cells = set()
    while work:
        x = work.pop()
        if isinstance(x, tuple):
            work.extend(x)
            continue
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
        if x.op == "ref":
            c = x.a[0]
            if isinstance(c, int):
                if c not in cells:
                    cells.add(c)
                    if x.a[1]:
                        try:
                            work.append(F.read(st, c, x.a[1]))
                            # the components of a path refine the value; the whole cell would mix fields
                            if "deref" in x.a[1]:
                                work.append(F.read(st, c, x.a[1][:x.a[1].index("deref")]))
                        except Exception:
                            work.append(F.get_cell(st, c))
                    else:
                        work.append(F.get_cell(st, c))
            else:
                work.append(c[1])
                if c in st and (c, "m") not in cells:
                    cells.add((c, "m"))
                    work.append(st[c])
            for k in x.a[1]:
                if isinstance(k, tuple):
                    work.extend(y for y in k if isinstance(y, T))
            continue
        if x.op == "field" and x.a[0].op == "phi" and x.a[1] != "deref":
            # a component of a joined value: that component of each
            ins = F.phis.get((x.a[0].a[0], x.a[0].a[1]), {})
            if ins:
                work.extend(read_key(y, x.a[1]) for y in ins.values())
                continue
        for a in x.a:
            if isinstance(a, (T, tuple)):
                work.append(a)
        if x.op == "phi":
            work.extend(F.phis.get((x.a[0], x.a[1]), {}).values())
    return out


def dep_params(F, b, t):
    return {x.a[0] for x in reach_terms(F, b, t) if x.op == "param"}
