"""Where the symbol tables of an FST come from: a summary-based abstract interpretation of the value flow.
A source is ("p", k, path, X): the table stored at `path` of parameter k (X = "T"), or the input/output
table (X = "I"/"O") of the FST at `path` of parameter k; "none": no table; "?": unknown."""
import flow
import mir

FIELD = {"I": "isymt", "O": "osymt"}
SETTERS = {"set_input_symbols": "I", "set_output_symbols": "O"}
TAKERS = {"take_input_symbols": "I", "take_output_symbols": "O"}
GETTERS = {"input_symbols": "I", "output_symbols": "O"}
PASS = {"clone", "cloned", "as_ref", "as_mut", "borrow", "borrow_mut", "deref", "deref_mut", "unwrap", "expect", "new", "branch",
        "map_err", "with_context", "context", "to_owned", "copied", "into_inner", "some", "ok_or_else", "ok_or"}
NONE = ("none", frozenset())
FST_TRAITS = ("MutableFst", "Fst", "CoreFst", "ExpandedFst", "AllocableFst", "StateIterator", "FstIterator", "FstIntoIterator",
              "FstIteratorMut", "SerializableFst")


def short_trait(c):
    return (c.get("trait") or "").split("<")[0].split("::")[-1]


def wrapped(ty):
    """Option/Result/Arc/Rc/& peeled off."""
    while True:
        t = mir.strip_refs(ty)
        h = mir.ty_head(t)[0]
        if h.split("::")[-1] in ("Option", "Result", "Arc", "Rc", "Box", "RefCell") and "<" in t:
            ty = mir.split_args(t[t.index("<") + 1:-1])[0]
            continue
        return t


def reduce(r):
    """Where the only table is E, absence together with E is E."""
    ps = [x for x in r if x[0] == "p"]
    if len(ps) == 1:
        return frozenset(x for x in r if x[0] != "none" or ps[0] not in x[1])
    return frozenset(r)


class Symt:
    def __init__(self, prog):
        self.prog = prog
        self.sums = {}
        self.busy = set()
        self.nfn = 0

    # ------------------------------------------------------------------ summaries
    def flow(self, f):
        body = mir.inline(self.prog, f, lambda g, c, s: False)
        return flow.Flow(self.prog, body)

    def sum(self, f):
        if f.path in self.sums:
            return self.sums[f.path]
        if f.path in self.busy or not f.bbs:
            return None
        self.busy.add(f.path)
        try:
            s = Summary(self, f, self.flow(f))
        finally:
            self.busy.discard(f.path)
        self.nfn += 1
        self.sums[f.path] = s
        return s


class Summary:
    def __init__(self, S, f, F):
        self.S, self.f, self.F = S, f, F
        self.memo = {}
        self.bad = set()
        for b, r in F.rets.items():
            self.errs(r)
        self.lazy = {}

    def errs(self, r, d=0):
        if r.op == "phi" and d < 8:
            for p, v in self.F.phis.get(r.a, {}).items():
                if self.F.impossible(v, ("Ok", "Some")) and "Result" in self.f.ret:
                    self.bad.add((r.a[0], p))
                elif v is not r:
                    self.errs(v, d + 1)

    def ret(self, X):
        k = ("ret", X)
        if k not in self.lazy:
            self.lazy[k] = frozenset()
            out = set()
            for b, r in self.F.rets.items():
                if "Result" in self.f.ret and self.F.impossible(r, ("Ok",)):
                    continue
                out |= self.tab(b, r) if X == "T" else self.obj(b, r, X)
            self.lazy[k] = reduce(out)
        return self.lazy[k]

    def retpart(self, path, X):
        """The FST in a component of the result."""
        k = ("part", path, X)
        if k not in self.lazy:
            self.lazy[k] = frozenset()
            out = set()
            for b, r in self.F.rets.items():
                out |= self.down(b, r, path, X)
            self.lazy[k] = reduce(out)
        return self.lazy[k]

    def down(self, b, x, path, X):
        for i, n in enumerate(path):
            x = self.peel(b, x)
            if x.op == "phi":
                out = set()
                for p, v in self.F.phis.get(x.a, {}).items():
                    if (x.a[0], p) not in self.bad and v is not x:
                        out |= self.down(p, v, path[i:], X)
                return out
            if n == "[0]":
                x = self.first(b, x)
                if x is None:
                    return {"?"}
                continue
            if isinstance(n, tuple) and n[1] in ("Ok", "Some") and (self.F.impossible(x, ("Ok", "Some"))):
                return set()
            x = self.loc(b, flow.vfield(x, n[1], n[2]) if isinstance(n, tuple) else flow.read_key(x, n))
        return self.tab(b, x) if X == "T" else self.obj(b, x, X)

    def out(self, k, X):
        """The FST behind a mutable reference parameter, at successful returns."""
        key = ("out", k, X)
        if key not in self.lazy:
            self.lazy[key] = frozenset()
            out = set()
            for b, r in self.F.rets.items():
                if "Result" in self.f.ret and self.F.impossible(r, ("Ok",)):
                    continue
                st = self.F.state_at_term(b)
                c = ("m", flow.mk("param", k))
                out |= self.obj(b, st[c], X) if c in st else {("p", k, (), X)}
            self.lazy[key] = reduce(out)
        return self.lazy[key]

    # ------------------------------------------------------------------ terms
    def path(self, t, b=None):
        """(k, path) if t is a part of a parameter."""
        p = []
        while True:
            if t.op == "param":
                return t.a[0], tuple(reversed(p))
            if t.op in ("deref", "clone", "box"):
                t = t.a[0]
            elif t.op == "cast":
                t = t.a[1]
            elif t.op == "field":
                if t.a[1] != "deref":
                    p.append(t.a[1])
                t = t.a[0]
            elif t.op == "vf" and t.a[0].op == "call" and t.a[0].a[2] == "first" and t.a[1] == "Some":
                t = t.a[0]
            elif t.op == "call" and t.a[2] == "first" and t.a[0].startswith("core::slice"):
                p.append("[0]")
                b, t = t.a[1], t.a[3][0]
            elif t.op == "ref" and not isinstance(t.a[0], int):
                p.extend(reversed([k for k in t.a[1] if k != "deref"]))
                if any(not isinstance(k, str) for k in p):
                    return None
                t = t.a[0][1]
            elif t.op == "ref" and b is not None:
                x = self.loc(b, t)
                if x is t:
                    return None
                t = x
            else:
                return None

    def loc(self, b, t):
        """The value a reference refers to."""
        if t.op == "ref":
            st = self.F.state_at_term(b)
            try:
                return self.F.read(st, t.a[0], tuple(k for k in t.a[1]))
            except Exception:
                return flow.TOP
        if t.op in ("param", "vf", "field", "call", "payload", "idx", "deref", "read"):
            st = self.F.state_at_term(b)
            return st.get(("m", t), t)
        return t

    def eval(self, b, t, X, kind):
        k = (b, t.id, X, kind)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = frozenset()
        n = 0
        while True:
            r = reduce(self._obj(b, t, X) if kind == "o" else self._tab(b, t))
            n += 1
            if r == self.memo[k] or n > 4:
                break
            self.memo[k] = r
            if not self.loopy(t):
                break
        return self.memo[k]

    def loopy(self, t):
        return t.op == "phi"

    def obj(self, b, t, X):
        return self.eval(b, t, X, "o")

    def tab(self, b, t):
        return self.eval(b, t, "T", "t")

    def phi(self, t, ev):
        out = set()
        for p, v in self.F.phis.get(t.a, {}).items():
            if (t.a[0], p) in self.bad or v is t:
                continue
            r = set(ev(p, v))
            if any(x[0] == "none" for x in r if isinstance(x, tuple)):
                gone = frozenset(self.absent(p, t.a[0]))
                r = {("none", x[1] | gone) if x[0] == "none" else x for x in r}
            out |= r
        return out

    def absent(self, p, b):
        """Tables known to be absent when control goes from p to b."""
        F = self.F
        edges = [(p, b)] + F.dom_edges(p)
        for q, s in edges:
            t = F.body.bbs[q]["term"]
            if t["t"] != "switch" or q not in F.conds:
                continue
            c = F.conds[q]
            vals = {v for v, to in t["targets"] if to == s}
            if t["otherwise"] == s:
                vals.add("else")
            x, want = None, None
            neg = False
            while c.op == "un" and c.a[0] == "Not":
                c, neg = c.a[1], not neg
            if c.op == "discr" and self.option(q, c):
                x, want = c.a[0], {"0"}
                if vals == {"else"} and {str(v) for v, to in t["targets"]} == {"1"}:
                    vals = {"0"}
            elif c.op == "call" and c.a[2] in ("is_some", "is_none") and c.a[3]:
                x = self.loc(q, c.a[3][0])
                none = (c.a[2] == "is_none") != neg
                if vals == {"else"}:
                    tv = {str(v) for v, to in t["targets"]}
                    vals = {"1"} if tv == {"0"} else {"0"} if tv == {"1"} else vals
                want = {"1"} if none else {"0"}
            if x is not None and {str(v) for v in vals} == want:
                r = reduce(self.tab(q, x))
                if len(r) == 1 and next(iter(r))[0] == "p":
                    yield next(iter(r))

    def option(self, q, c):
        """Is the discriminant tested that of an Option?"""
        x = c.a[0]
        if x.op == "call":
            return "option::Option<" in x.a[4][:60]
        for s in self.F.body.bbs[q]["st"]:
            if s["s"] == "=" and s["rv"]["r"] == "discr":
                pl = s["rv"]["pl"]
                t = mir.strip_refs(self.F.body.locals[pl["l"]])
                if not [k for k in pl.get("p", []) if k != "*"]:
                    return t.startswith("core::option::Option<")
        if x.op == "agg":
            return x.a[1] in ("Some", "None")
        return not (x.op == "phi" or x.op == "vf")

    def call(self, b, c, args, X, what):
        """Sources of the result (what='ret') or of the FST behind argument `what` after the call."""
        S = self.S
        name = c["name"] if c else ""
        tr = short_trait(c) if c else ""
        if what != "ret":
            if tr in FST_TRAITS:
                if name in SETTERS or name in TAKERS:
                    side = SETTERS.get(name) or TAKERS.get(name)
                    if side == X and what == 0:
                        return self.tab(b, args[1]) if name in SETTERS else {NONE}
                    return self.obj(b, self.loc(b, args[what]), X)
                if name not in ("set_symts_from_fst", "relabel_tables", "from_parsed_fst_text"):
                    return self.obj(b, self.loc(b, args[what]), X)
        else:
            if X == "T" and name in GETTERS and tr in ("Fst",):
                r = S.prog.resolve(c)
                if r is None:
                    return self.obj(b, self.loc(b, args[0]), GETTERS[name])
            if X == "T" and name in TAKERS:
                return self.obj(b, self.loc(b, args[0]), TAKERS[name])
            if tr == "MutableFst" and name == "new" or name == "default":
                r = S.prog.resolve(c)
                if r is None:
                    return {NONE}
        r = S.prog.resolve(c) if c else None
        if r is None and c is not None and c.get("trait") in S.prog.traits:
            # a provided method of a workspace trait, called on a type parameter: its default body
            for n, has, p in S.prog.traits[c["trait"]]["items"]:
                if n == name and has and p in S.prog.fns and not self.overridden(c["trait"], name):
                    r = (S.prog.fns[p], {})
        if r is not None:
            s = S.sum(r[0])
            if s is None:
                return set()
            src = s.ret(X) if what == "ret" else s.out(what + 1, X)
            return self.subst(b, args, src)
        if c is not None and c.get("trait") in S.prog.traits:
            out = set()
            cs = S.prog.candidates(c)
            if cs:
                for f in cs:
                    s = S.sum(f)
                    if s is not None:
                        out |= self.subst(b, args, s.ret(X) if what == "ret" else s.out(what + 1, X))
                return out
        if what != "ret":
            # std functions do not change symbol tables of an FST
            d = (c.get("res") or c["def"]) if c else ""
            if d.startswith(("core::", "alloc::", "std::")) and name not in ("take", "replace", "swap"):
                return self.obj(b, self.loc(b, args[what]), X)
            if name == "swap" and len(args) == 2:
                return self.obj(b, self.loc(b, args[1 - what]), X)
            if name == "replace":
                return self.obj(b, args[1], X)
            if name == "take":
                return {NONE}
        elif name in PASS and args:
            return self.tab(b, self.loc(b, args[0])) if X == "T" else self.obj(b, self.loc(b, args[0]), X)
        elif name in ("take", "replace") and args:
            return self.tab(b, self.loc(b, args[0])) if X == "T" else self.obj(b, self.loc(b, args[0]), X)
        return {"?"}

    def overridden(self, trait, name):
        return any(n == name for im in self.S.prog.by_trait.get(trait, []) for n, p in im["items"])

    def subst(self, b, args, src):
        out = set()
        for s in src:
            if isinstance(s, str):
                out.add(s)
            elif s[0] == "none":
                if any(x[2][-1:] == ("[0]",) and x[1] <= len(args) and self.exists(b, args[x[1] - 1], x[2]) for x in s[1]):
                    continue
                gone = [reduce(self.subst(b, args, {x})) for x in s[1]]
                out.add(("none", frozenset(next(iter(g)) for g in gone if len(g) == 1)))
            elif s[1] > len(args):
                out.add("?")
            else:
                out |= self.down(b, self.loc(b, args[s[1] - 1]), s[2], s[3])
        return out

    def exists(self, b, x, path):
        if len(path) != 1:
            return False
        x = self.peel(b, self.loc(b, x))
        return self.path(x, b) is None and self.first(b, x) is not None

    def first(self, b, x):
        """The first element of a vector built in this body, or of a parameter."""
        if self.path(x, b) is not None:
            return flow.mk("field", x, "[0]")
        last = None
        while x.op == "mut":
            c, args = self.F.calls[x.a[0]]
            if not c or c["name"] != "push" or x.a[1] != 0:
                return None
            last, x = args[1], x.a[2]
        if last is not None:
            return last if x.op == "call" and x.a[2] in ("new", "with_capacity") else None
        if x.op == "call" and "into_vec" in x.a[2] and x.a[3]:
            for ws in self.F.writes.values():
                for cell, path, v in ws:
                    if not isinstance(cell, int) and v is not None and v.op == "agg" and v.a[0] == "array" and v.a[3] and \
                            any(y is x.a[3][0] for y in flow.subterms(cell[1])):
                        return v.a[3][0]
        return None

    def peel(self, b, x):
        while True:
            if x.op == "ref":
                y = self.loc(b, x)
                if y is x:
                    return x
                x = y
            elif x.op in ("clone", "box"):
                x = x.a[0]
            elif x.op == "call" and x.a[2] == "new" and x.a[0].startswith("alloc::") and x.a[3]:
                x = x.a[3][0]
            else:
                return x

    def _obj(self, b, t, X):
        op = t.op
        p = self.path(t, b)
        if p is not None:
            return {("p", p[0], p[1], X)}
        if op == "ref":
            x = self.loc(b, t)
            return self.obj(b, x, X) if x is not t else {"?"}
        if op in ("deref", "clone", "box", "payload"):
            return self.obj(b, t.a[0], X)
        if op == "cast":
            return self.obj(b, t.a[1], X)
        if op == "vf":
            return self.obj(b, t.a[0], X)
        if op == "phi":
            return self.phi(t, lambda p_, v: self.obj(p_, v, X))
        if op == "mut":
            c, args = self.F.calls[t.a[0]]
            i = t.a[1]
            if i < len(args):
                # what the argument refers to (an argument may be a closure or a tuple of references)
                args = args[:i] + (t.a[2],) + args[i + 1:]
            return self.call(t.a[0], c, args, X, i) if c is not None else {"?"}
        if op == "upd":
            if t.a[1] == FIELD[X]:
                return self.tab(b, t.a[2])
            if t.a[1] == "deref":
                return self.obj(b, t.a[2], X)
            return self.obj(b, t.a[0], X)
        if op == "agg":
            d = dict(zip(t.a[2], t.a[3]))
            if FIELD[X] in d:
                return self.tab(b, d[FIELD[X]])
            if t.a[1] in ("Err", "None", "Break"):
                return set()
            if t.a[1] in ("Ok", "Some", "Continue"):
                return self.obj(b, t.a[3][0], X)
            f = self.accessor(t.a[0], X)
            if f is not None:
                s = self.S.sum(f)
                return self.subst(b, (t,), s.ret("T")) if s else set()
            return {"?"}
        if op == "field":
            if t.a[1] == "deref":
                return self.obj(b, t.a[0], X)
            x = self.peel(b, t.a[0])
            r = self.parts(b, t, X)
            if r is not None:
                return r
            if x.op == "mut":
                # a component of something mutated through a reference
                y = flow.read_key(self.peel(b, x.a[2]), t.a[1])
                c, args = self.F.calls[x.a[0]]
                r = self.S.prog.resolve(c) if c else None
                if r is not None:
                    s = self.S.sum(r[0])
                    if s is None:
                        return set()
                    st = self.S.sum(r[0])
                    out = set()
                    for src in self.part(st, x.a[1] + 1, t.a[1], X):
                        if isinstance(src, tuple) and src[1] == x.a[1] + 1 and src[2] == (t.a[1],) and src[3] == X:
                            out |= self.obj(b, y, X)
                        else:
                            out |= self.subst(x.a[0], args, {src})
                    return out
                return self.obj(b, y, X)
            if x is not t.a[0]:
                y = flow.read_key(x, t.a[1])
                if y is not t:
                    return self.obj(b, y, X)
            return {"?"}
        if op == "conv":
            fs = [f for f in self.S.prog.fns.values() if f.name == "from" and f.impl_self and
                  mir.ty_head(f.impl_self)[0] == mir.ty_head(t.a[1])[0] and f.argc == 1]
            src = self.vtype(b, t.a[2])
            if len(fs) > 1 and src:
                fs = [f for f in fs if mir.ty_head(mir.strip_refs(f.locals[1]))[0] == src] or fs
            out = set()
            for f in fs:
                s = self.S.sum(f)
                if s is not None:
                    out |= self.subst(b, (t.a[2],), s.ret(X))
            return out or {"?"}
        if op == "call":
            c, args = self.F.calls.get(t.a[1], (None, ()))
            return self.call(t.a[1], c, args, X, "ret")
        return {"?"}

    def parts(self, b, t, X):
        """A component of the result of a call."""
        path, x = [], t
        while True:
            if x.op == "field":
                if x.a[1] != "deref":
                    path.append(x.a[1])
                x = x.a[0]
            elif x.op == "vf":
                path.append(("v", x.a[1], x.a[2]))
                x = x.a[0]
            elif x.op in ("ref", "clone", "box", "deref"):
                y = self.peel(b, x) if x.op != "deref" else x.a[0]
                if y is x:
                    return None
                x = y
            else:
                break
        if x.op != "call":
            return None
        c, args = self.F.calls.get(x.a[1], (None, ()))
        r = self.S.prog.resolve(c) if c else None
        if r is None:
            return None
        s = self.S.sum(r[0])
        if s is None:
            return set()
        return self.subst(x.a[1], args, s.retpart(tuple(reversed(path)), X))

    def part(self, s, k, n, X):
        out = set()
        for b, r in s.F.rets.items():
            st = s.F.state_at_term(b)
            c = ("m", flow.mk("param", k))
            if c not in st:
                out.add(("p", k, (n,), X))
            else:
                out |= s.obj(b, flow.read_key(st[c], n), X)
        return out

    def vtype(self, b, t):
        x = self.peel(b, t)
        if x.op == "param":
            return mir.ty_head(mir.strip_refs(self.F.body.locals[x.a[0]]))[0]
        if x.op == "call":
            return mir.ty_head(wrapped(x.a[4]))[0]
        return None

    def accessor(self, adt, X):
        for f in self.S.prog.fns.values():
            if f.name == ("input_symbols" if X == "I" else "output_symbols") and f.impl_self and \
                    mir.ty_head(f.impl_self)[0].split("::")[-1] == adt.split("::")[-1] and f.argc == 1 and not f.in_trait:
                return f
        return None

    def _tab(self, b, t):
        op = t.op
        p = self.path(t, b)
        if p is not None:
            return {("p", p[0], p[1], "T")}
        if op == "ref":
            x = self.loc(b, t)
            return self.tab(b, x) if x is not t else {"?"}
        if op in ("deref", "clone", "box", "payload"):
            return self.tab(b, t.a[0])
        if op in ("vf",):
            return self.tab(b, t.a[0])
        if op == "phi":
            return self.phi(t, self.tab)
        if op == "agg":
            if t.a[1] == "None":
                return {NONE}
            if t.a[1] in ("Some", "Ok", "Continue"):
                return self.tab(b, t.a[3][0])
            return {"?"}
        if op == "field" and t.a[1] == "deref":
            return self.tab(b, t.a[0])
        if op == "field":
            for X, n in FIELD.items():
                if n == t.a[1]:
                    return self.obj(b, self.peel(b, t.a[0]), X)
            return {"?"}
        if op == "mut":
            c, args = self.F.calls[t.a[0]]
            if c and c["name"] == "take":
                return {NONE}
            if c and c["name"] in ("replace", "insert"):
                return self.tab(t.a[0], args[1])
            return {"?"}
        if op == "call":
            c, args = self.F.calls.get(t.a[1], (None, ()))
            return self.call(t.a[1], c, args, "T", "ret")
        return {"?"}
