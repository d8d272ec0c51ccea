"""Does the iteration order of a hash container reach a result? A taint analysis over the value flow of a body
(lib/flow.py): iterators over HashMap/HashSet and sequences filled from them are order-dependent; sorting, and collecting
into a keyed or counted result, removes the dependence; a loop driven by such an iterator makes order-dependent whatever
it appends to, and whatever it numbers with a loop-carried value."""
import re
import flow
import mir

HASH = re.compile(r"(collections::hash::(map|set)::(HashMap|HashSet)|hashbrown::\w+::\w+|hash_map::HashMap|hash_set::HashSet|bimap::hash::BiHashMap)")
HITER = re.compile(r"collections::hash::(map|set)::(Iter|IterMut|IntoIter|Keys|Values|ValuesMut|Drain|IntoKeys|IntoValues|Union|Difference|Intersection|SymmetricDifference)\b")
ITERS = {"iter", "iter_mut", "keys", "values", "values_mut", "into_iter", "drain", "into_keys", "into_values", "union", "difference",
         "intersection", "symmetric_difference", "left_values", "right_values", "extract_if"}
CLEAN = {"len", "is_empty", "contains", "count", "all", "any", "max", "min", "contains_key", "size_hint", "capacity", "drop", "eq", "ne",
         "clear", "is_some", "is_none"}
SORT = {"sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "sort_by_cached_key", "sorted",
        "sorted_by", "sorted_by_key", "sorted_unstable", "par_sort", "clear", "fill"}
SEQ = {"push", "push_back", "push_front", "push_str", "extend", "extend_from_slice", "append", "insert_str", "swap_remove", "remove",
       "write", "write_all", "write_fmt", "write_str", "write_char", "plus_assign", "times_assign", "add_tr", "add_tr_unchecked", "emplace_tr",
       "emplace_tr_unchecked", "add_state", "add_states", "push_tr", "set_final_and_push", "pop"}
KEYED = ("collections::hash", "collections::btree", "hashbrown", "BTreeMap", "BTreeSet", "HashMap", "HashSet", "BinaryHeap", "binary_heap")
WRITER = {"write_binary": 1, "write": 1}
COMM = {"Add", "Mul", "BitOr", "BitAnd", "BitXor", "AddWithOverflow", "MulWithOverflow", "AddUnchecked"}
COMMCALL = {"max", "min", "wrapping_add", "saturating_add", "add_assign", "bitor_assign", "bitor", "bitand", "add", "checked_add"}
PICK = {"next", "first", "last", "nth", "find", "find_map", "position", "reduce", "fold", "max_by", "min_by", "max_by_key", "min_by_key",
        "take", "skip", "take_while", "skip_while", "step_by", "enumerate", "zip", "try_fold", "chunks", "windows", "pop", "get"}


def is_hash_iter(c):
    if not c or c["name"] not in ITERS:
        return False
    d = c.get("res") or c["def"]
    st = c.get("impl_self") or c.get("self") or (c.get("args") or [""])[0] if "IntoIterator" in c["def"] else ""
    if HASH.search(d.split("<")[0] if d.startswith("<") is False else d):
        if "IntoIterator" not in c["def"]:
            return True
    s = mir.strip_refs(c.get("self") or (c.get("args") or [""])[0] or "")
    return "IntoIterator" in c["def"] and bool(HASH.search(mir.ty_head(s)[0]) or HASH.match(s))


def short(c):
    return (c.get("trait") or "").split("<")[0].split("::")[-1]


def loops(body):
    """Innermost natural loop of each block: header -> blocks."""
    idom = body.dominators()
    ps = body.preds()
    out = {}
    for u in body.reachable():
        for v in body.succ(u):
            if flow.dominated(idom, v, u):
                L = out.setdefault(v, {v})
                st = [u]
                while st:
                    x = st.pop()
                    if x not in L:
                        L.add(x)
                        st += [p for p in ps[x] if p in idom]
    return out


class Order:
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.busy = set()
        self.nfn = 0
        self.undecided = []

    def flow(self, f):
        body = mir.inline(self.prog, f, lambda g, c, s: False)
        return flow.Flow(self.prog, body)

    def sum(self, f, params=frozenset()):
        k = (f.path, params)
        if k in self.memo:
            return self.memo[k]
        if k in self.busy or not f.bbs:
            return None
        self.busy.add(k)
        try:
            s = Fun(self, f, params)
            s.solve()
        finally:
            self.busy.discard(k)
        self.memo[k] = s
        self.nfn += 1
        return s


class Fun:
    def __init__(self, O, f, params):
        self.O, self.f, self.params = O, f, params
        self.F = O.flow(f)
        self.body = self.F.body
        self.loops = loops(self.body)
        self.hloops = {}      # header -> (blocks, next block)
        self.nhash = 0
        self.ret = None
        self.outs = {}
        self.why = {}

    # ------------------------------------------------------------------ fixpoint: which loops are driven by hash order
    def solve(self):
        F = self.F
        self.nhash = sum(is_hash_iter(c) for c, a in F.calls.values())
        for _ in range(6):
            n = len(self.hloops)
            self.m = {}
            for b, (c, args) in F.calls.items():
                if c and c["name"] in ("next", "next_back") and args and b not in [x[1] for x in self.hloops.values()]:
                    if self.t(b, self.loc(b, args[0])):
                        ls = [h for h, L in self.loops.items() if b in L]
                        if ls:
                            h = min(ls, key=lambda h: len(self.loops[h]))
                            self.hloops.setdefault(h, (self.loops[h], b))
            if len(self.hloops) == n:
                break
        self.m = {}
        for b, r in F.rets.items():
            w = self.t(b, r)
            if w:
                self.ret = w
            st = F.state_at_term(b)
            for cell, v in st.items():
                if isinstance(cell, int):
                    continue
                k = self.root(cell[1])
                if k is None:
                    continue
                w = self.t(b, v) or self.t(b, cell[1])
                if w:
                    self.outs[k] = w

        self.direct()

    def direct(self):
        """Edits of a parameter through a pointer the value flow does not follow (joined pointers)."""
        for q, (c, args) in self.F.calls.items():
            if not c or not args or args[0].op not in ("phi", "mut"):
                continue
            k = self.root(args[0])
            if k is None or not self.f.locals[k].startswith("&mut "):
                continue
            name = c["name"]
            for h, (L, nb) in self.hloops.items():
                if q not in L:
                    continue
                keyed = self.keyed(nb, name, args)
                if 0 in self.seq(c, args) and not keyed:
                    self.outs[k] = "%s in a loop over %s" % (name, self.src(h))
                elif (keyed or name in ("set_final", "set_start", "set_final_unchecked", "set_start_unchecked")) and any(
                        self.stale(h, self.loc(q, a)) for a in args[1:]):
                    self.outs[k] = "a number given inside a loop over %s" % self.src(h)
            if short(c) == "MutableFst" and k not in self.outs:
                for a in args[1:]:
                    w = self.t(q, self.loc(q, a))
                    if w:
                        self.outs[k] = w

    def keyed(self, nb, name, args):
        return name in ("add_tr", "add_tr_unchecked", "emplace_tr", "emplace_tr_unchecked") and len(args) > 2 and any(
            y.op == "call" and y.a[1] == nb for y in flow.subterms(args[1]))

    def root(self, t, d=0):
        if d > 12:
            return None
        if t.op == "param":
            return t.a[0]
        if t.op in ("field", "vf", "idx", "deref", "mut", "clone", "read", "payload", "box"):
            return self.root([x for x in t.a if isinstance(x, flow.T)][0], d + 1)
        if t.op == "ref" and not isinstance(t.a[0], int):
            return self.root(t.a[0][1], d + 1)
        if t.op == "call" and t.a[3]:
            return self.root(t.a[3][0], d + 1)
        if t.op == "phi" and t.a in self.F.phis:
            for v in self.F.phis[t.a].values():
                r = self.root(v, d + 3) if v is not t else None
                if r is not None:
                    return r
        return None

    def loc(self, b, t):
        if t.op == "ref":
            try:
                return self.F.read(self.F.state_at_term(b), t.a[0], t.a[1])
            except Exception:
                return flow.TOP
        if t.op in ("param", "vf", "field", "call", "payload", "idx", "deref", "read"):
            return self.F.state_at_term(b).get(("m", t), t)
        return t

    def t(self, b, t, d=0):
        """None, or why the value t (as seen in block b) depends on hash order."""
        k = (b if t.op in ("ref", "param", "field", "vf", "idx") else 0, t.id)
        if k in self.m:
            return self.m[k]
        if d > 60:
            return None
        self.m[k] = None
        r = self._t(b, t, d + 1)
        self.m[k] = r
        return r

    def _t(self, b, t, d):
        op = t.op
        if op == "param":
            return "parameter %d" % t.a[0] if t.a[0] in self.params else None
        if op in ("const", "top", "discr", "fnref"):
            return None
        if op == "ref":
            x = self.loc(b, t)
            return self.t(b, x, d) if x is not t else None
        if op in ("deref", "clone", "box"):
            return self.t(b, t.a[0], d)
        if op == "conv":
            if any(x in t.a[1] for x in KEYED):
                return None
            return self.t(b, t.a[2], d)
        if op == "cast":
            return self.t(b, t.a[1], d)
        if op in ("field", "vf", "read"):
            if op == "vf" and t.a[0].op == "call" and t.a[0].a[2] in ("next", "next_back"):
                return None if self.in_hloop(t.a[0].a[1]) else self.t(b, t.a[0], d)
            return self.t(b, t.a[0], d)
        if op == "payload":
            return self.t(b, t.a[0], d) if isinstance(t.a[0], flow.T) else None
        if op == "idx":
            return self.t(b, t.a[0], d)
        if op == "agg":
            if t.a[0].startswith("closure:"):
                return None
            for x in t.a[3]:
                w = self.t(b, x, d)
                if w:
                    return w
            return None
        if op == "upd":
            k = t.a[1]
            for x in (t.a[2], t.a[0]) if k != "deref" else (t.a[2],):
                w = self.t(b, x, d)
                if w:
                    return w
            return None
        if op == "phi":
            h = t.a[0]
            for p, v in self.F.phis.get(t.a, {}).items():
                if v is t:
                    continue
                if h in self.hloops and p in self.hloops[h][0]:
                    w = self.carried(h, t, p, v)
                    if w:
                        return w
                    continue
                w = self.t(p, v, d)
                if w:
                    return w
            return None
        if op == "call":
            return self.call(t, d)
        if op == "mut":
            return self.mut(b, t, d)
        return None

    def in_hloop(self, b):
        return any(b in L for L, n in self.hloops.values())

    def call(self, t, d):
        b, name, args, dty = t.a[1], t.a[2], t.a[3], t.a[4]
        c = self.F.calls[b][0] if b in self.F.calls else None
        if is_hash_iter(c):
            return "%s of a hash container (%s)" % (name, self.where(b))
        if name in CLEAN or name in SORT:
            return None
        if name in ("next", "next_back") and b in [n for L, n in self.hloops.values()]:
            return None
        if name in ("sum", "product") and dty in ("usize", "u64", "u32", "i64", "i32", "u8", "u16", "i128", "u128", "isize"):
            return None
        if name in ("collect", "from_iter", "extend", "try_collect") and any(x in dty.split(",")[0] for x in KEYED):
            return None
        tainted = [i for i, a in enumerate(args) if self.t(b, self.loc(b, a), d)]
        r = self.O.prog.resolve(c) if c else None
        if r is not None:
            s = self.O.sum(r[0], frozenset(i + 1 for i in tainted))
            return s.ret if s is not None and s.ret and "parameter" not in s.ret else (
                self.t(b, self.loc(b, args[int(s.ret.split()[1]) - 1]), d) if s is not None and s.ret and s.ret.split()[1].isdigit() and int(s.ret.split()[1]) <= len(args) else None)
        if not tainted:
            return None
        if c is not None and not c["def"].startswith(("core::", "alloc::", "std::", "<core", "<alloc", "<std", "itertools")):
            self.O.undecided.append("%s: %s gets an order-dependent argument" % (self.f.path, name))
            return None
        if dty in ("bool", "()", "usize") and name not in PICK:
            return None
        w = self.t(b, self.loc(b, args[tainted[0]]), d)
        return w

    def mut(self, b, t, d):
        q, i, old = t.a[0], t.a[1], t.a[2]
        c, args = self.F.calls.get(q, (None, ()))
        name = c["name"] if c else ""
        if name in SORT and i == 0:
            return None
        if name in ("take", "replace") and i == 0 and len(args) == 2:
            return self.t(q, args[1], d)
        w = self.t(q, old, d)
        if w and name not in ("next", "next_back"):
            return w
        if w:
            return w
        return self.effect(q, i, d)

    def effect(self, q, i, d):
        """Does the call in block q make argument i order-dependent by passing it something that is?"""
        c, args = self.F.calls.get(q, (None, ()))
        if not c:
            return None
        name = c["name"]
        if name in ("for_each", "try_for_each", "fold", "try_fold") and args and self.t(q, self.loc(q, args[0]), d):
            w = self.closure_seq(args[-1])
            return w and "%s over %s" % (w, self.t(q, self.loc(q, args[0]), d))
        if i >= len(args):
            return None
        keyed = any(x in (c.get("impl_self") or c.get("self") or c["def"]) for x in KEYED)
        r = self.O.prog.resolve(c)
        ts = {j for j, a in enumerate(args) if j != i and self.t(q, self.loc(q, a), d)}
        if r is not None:
            s = self.O.sum(r[0], frozenset(j + 1 for j in ts))
            return s.outs.get(i + 1) if s is not None else None
        if ts and i == 0 and not keyed:
            return self.t(q, self.loc(q, args[min(ts)]), d)
        return None

    def closure_seq(self, cl):
        """Does the closure append to something it captured?"""
        if cl.op != "agg" or not cl.a[0].startswith("closure:"):
            return None
        f = self.O.prog.fns.get(cl.a[0][8:])
        if f is None:
            return None
        G = self.O.flow(f)
        for b, (c, args) in G.calls.items():
            for i in self.seq(c, args):
                if self.root(args[i]) == 1:
                    return "%s at %s" % (c["name"], f.where(self.line(G, b)))
        return None

    def line(self, G, b):
        return G.body.bbs[b]["term"].get("ln")

    def where(self, b):
        return self.f.where(self.line(self.F, b))

    # ------------------------------------------------------------------ loops in hash order
    def seq(self, c, args):
        """Arguments whose content depends on the order of such calls."""
        if not c or not args:
            return []
        name = c["name"]
        st = c.get("impl_self") or c.get("self") or ""
        d = c.get("res") or c["def"]
        if name in WRITER and len(args) > WRITER[name] and not d.startswith(("core::", "std::", "alloc::")):
            return [WRITER[name]]
        if name in SEQ:
            if name in ("extend", "append", "push", "pop", "remove") and any(x in mir.ty_head(mir.strip_refs(st))[0] + d for x in KEYED):
                return []
            if name == "remove" and "Vec" not in st + d:
                return []
            return [0]
        r = self.O.prog.resolve(c)
        if r is not None:
            return [k - 1 for k in self.seqsum(r[0]) if k <= len(args)]
        return []

    def seqsum(self, f, depth=0):
        key = ("seq", f.path)
        if key in self.O.memo:
            return self.O.memo[key]
        self.O.memo[key] = set()
        out = set()
        if f.bbs:
            try:
                G = self.O.flow(f)
            except Exception:
                return out
            for b, (c, args) in G.calls.items():
                for i in self.seq(c, args):
                    k = self.root(args[i])
                    if k is not None:
                        out.add(k)
        self.O.memo[key] = out
        return out

    def carried(self, h, ph, p, v):
        """Why the value carried around the hash-ordered loop depends on the order: ph is the header's value, v the one coming
        back from block p."""
        L, nb = self.hloops[h]
        seen = set()
        st = [(p, v)]
        while st:
            b, x = st.pop()
            if x is ph or (b, x.id) in seen:
                continue
            seen.add((b, x.id))
            if x.op == "phi":
                if x.a[0] in L:
                    st += [(q, y) for q, y in self.F.phis.get(x.a, {}).items()]
                continue
            if x.op in ("field", "vf", "clone", "cast", "deref", "box"):
                st.append((b, [y for y in x.a if isinstance(y, flow.T)][0]))
                continue
            if x.op == "bin" and x.a[0] in COMM:
                sides = [y for y in x.a[1:] if isinstance(y, flow.T)]
                if any(self.stale(h, y) for y in sides) and not all(self.stale(h, y) for y in sides):
                    continue
                continue
            if x.op == "upd":
                val = x.a[2]
                key = x.a[1]
                if isinstance(key, tuple) and len(key) > 1 and isinstance(key[1], flow.T) and self.stale(h, key[1]):
                    return "a position numbered inside a loop over %s" % self.src(h)
                if val.op == "mut" or val.op == "upd":
                    st.append((b, val))
                elif self.stale(h, val) and not self.commut(h, val):
                    return "a number given inside a loop over %s" % self.src(h)
                st.append((b, x.a[0]))
                continue
            if x.op == "mut":
                q, i = x.a[0], x.a[1]
                if q in L:
                    c, args = self.F.calls.get(q, (None, ()))
                    name = c["name"] if c else ""
                    if name in SORT and i == 0:
                        continue
                    if c and name not in ("next", "next_back"):
                        keyed = self.keyed(nb, name, args)
                        if keyed and any(self.stale(h, self.loc(q, a)) for a in args[1:]):
                            return "a number given inside a loop over %s" % self.src(h)
                        if i in self.seq(c, args) and not keyed and not self.fresh(L, x.a[2]):
                            return "%s in a loop over %s" % (name, self.src(h))
                        if i == 0 and any(self.stale(h, self.loc(q, a)) for a in args[1:]) and name in (
                                "insert", "or_insert", "entry", "set_final", "set_start", "set"):
                            return "a number given inside a loop over %s" % self.src(h)
                        if name in ("for_each", "try_for_each"):
                            w = self.closure_seq(args[-1])
                            if w:
                                return "%s in a loop over %s" % (w, self.src(h))
                    w = self.effect(q, i, 0)
                    if w:
                        return w
                    st.append((q, x.a[2]))
                continue
            if x.op == "call":
                c, args = self.F.calls.get(x.a[1], (None, ()))
                tr = (c.get("trait") or "") if c else ""
                if x.a[2] in ("plus", "times") and "Semiring" in tr and x.a[1] in L and any(self.stale(h, self.loc(x.a[1], a)) for a in args):
                    return "weights accumulated in a loop over %s" % self.src(h)
                continue
        return None

    def fresh(self, L, x):
        """Was the container made in this iteration (or is it reached through a key)?"""
        n = 0
        while n < 50:
            n += 1
            if x.op in ("mut",):
                x = x.a[2]
            elif x.op == "upd":
                x = x.a[0]
            elif x.op == "call" and x.a[2] in ("new", "with_capacity", "default", "clone") and x.a[1] in L:
                return True
            elif x.op == "idx" or x.op == "read":
                return True
            elif x.op == "call" and x.a[1] in L:
                return True
            elif x.op == "vf":
                x = x.a[0]
            else:
                return False
        return False

    def stale(self, h, t):
        """Does t use a value carried around the loop (other than the iterator)?"""
        L, nb = self.hloops[h]
        it = self.F.calls[nb][1][0]
        for x in flow.subterms(t):
            if x.op == "phi" and x.a[0] == h:
                cell = x.a[1]
                if it.op == "ref" and cell and cell[0] == it.a[0]:
                    continue
                vs = [v for p, v in self.F.phis.get(x.a, {}).items() if p in L]
                if any(v is not x for v in vs):
                    return True
        return False

    def commut(self, h, t):
        t = t.a[0] if t.op == "field" else t
        if t.op == "bin" and t.a[0] in COMM:
            return sum(self.stale(h, y) for y in t.a[1:] if isinstance(y, flow.T)) <= 1
        return t.op == "call" and t.a[2] in COMMCALL

    def src(self, h):
        L, nb = self.hloops[h]
        return self.t(nb, self.loc(nb, self.F.calls[nb][1][0])) or "a hash container (%s)" % self.where(nb)
