import flow
import mir
import sccp
from checks import p23

EXPLANATION = """
Every cache of the core library (each implementation of FstCache), the status type it answers with, the lazy FSTs that use a cache (LazyFst, LazyFst2),
their state iterators, and their conversion to a static FST.
"""
RULE = """
Value flow with conditional constant propagation. Caches: insert stores the given value under the given state on every way, get answers from exactly the
place insert stores in, at its own argument: computed if it is there, not computed otherwise (absent, or the last state remembered being another one);
clear forgets everything; the number of known states covers the start state and every next state. Lazy FSTs: an answer that is cached is returned as it
is, nothing is computed or stored; otherwise it is computed for the same state, stored under the same state on every way that succeeds, and returned;
counts of a state that is not cached are obtained by expanding it. Conversion: every state taken from the queue gets exactly the transitions and final
weight the lazy FST answers for it, every next state not seen before is queued, and the start state is the same.
"""
SEE = ("deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "lock", "unwrap", "expect", "as_slice", "as_mut_slice", "clone", "to_owned", "into", "from",
       "cloned", "copied", "map_err", "branch", "shallow_clone", "as_deref", "into_inner", "by_ref", "unsafe_unwrap", "unwrap_unchecked", "trs", "to_vec", "into_option", "to_option", "map",
       "unwrap_or_else", "take", "ok_or_else")
KEYED = ("get", "get_mut", "index", "index_mut", "get_unchecked", "get_unchecked_mut")
ASK = ("get_start", "get_trs", "get_final_weight", "compute_start", "compute_trs", "compute_final_weight", "compute_trs_and_final_weight", "start", "final_weight",
       "num_trs", "num_input_epsilons", "num_output_epsilons", "pop_front", "next", "pop_back", "pop")
VAR = ("Some", "Ok", "Computed", "Continue")


def head(t):
    return (t or "").split("<")[0].split("::")[-1]


def is_test(f):
    return "::tests::" in f.path or "::test::" in f.path or "tests_openfst" in f.path


class O:
    """Where values come from in one body, in one world: sets of (root, path), root = parameter number, ('call', name, block), ('const', v) or '?'."""

    def __init__(self, F, S=None):
        self.F, self.S = F, S
        self.memo = {}

    def of(self, b, t, busy=frozenset()):
        F = self.F
        k = (b if t.op == "ref" else None, t.id)
        if k in busy:
            return frozenset()
        if k in self.memo:
            return self.memo[k]
        r = frozenset(self._of(b, t, busy | {k}))
        if not busy:
            self.memo[k] = r
        return r

    def key(self, b, t, busy):
        """A key: the one origin it has, without conversions."""
        r = self.of(b, t, busy)
        return ("[]",) + tuple(sorted(r, key=str)) if r else ("[]", "?")

    def ext(self, rs, *p):
        return {(r, q + tuple(p)) for r, q in rs}

    def _of(self, b, t, busy):
        F = self.F
        if t.op == "param":
            return {(t.a[0], ())}
        if t.op in ("deref", "clone", "box"):
            return self.of(b, t.a[0], busy)
        if t.op == "conv":
            return self.of(b, t.a[-1], busy)
        if t.op == "cast":
            if t.a[0] in ("u8", "u16", "i8", "i16"):
                return {("?", ())}
            return self.of(b, t.a[1], busy)
        if t.op == "const":
            return {(("const", str(t.a[1])), ())}
        if t.op == "field":
            x = self.of(b, t.a[0], busy)
            return x if t.a[1] == "deref" else self.ext(x, str(t.a[1]))
        if t.op == "vf":
            if t.a[1] in VAR and str(t.a[2]) == "0":
                return self.of(b, t.a[0], busy)
            return self.ext(self.of(b, t.a[0], busy), "%s.%s" % (t.a[1], t.a[2]))
        if t.op == "payload":
            return self.of(b, t.a[0], busy)
        if t.op == "idx":
            return self.ext(self.of(b, t.a[0], busy), self.key(b, t.a[1], busy))
        if t.op == "mut":
            return self.of(b, t.a[2], busy)
        if t.op == "upd":
            return self.of(b, t.a[0], busy)
        if t.op == "agg":
            if t.a[1] in VAR and len(t.a[3]) == 1:
                return self.of(b, t.a[3][0], busy)
            if not t.a[3]:
                return {(("const", t.a[1] or t.a[0].split("::")[-1]), ())}
            return {("?", ())}
        if t.op == "phi":
            out = set()
            for p, v in F.phis.get(t.a, {}).items():
                if self.S is None or (p, t.a[0]) in self.S.edges:
                    out |= self.of(p, v, busy)
            return out
        if t.op == "ref":
            c, q = t.a
            if isinstance(c, int):
                if b not in F.inn:
                    return {("?", ())}
                st = F.state_at_term(b)
                # the longest known prefix
                return self.of(b, F.read(st, c, q), busy)
            x = self.of(b, c[1], busy)
            for k in q:
                if isinstance(k, str):
                    x = x if k == "deref" else self.ext(x, k)
                elif k[0] == "v":
                    x = x if k[1] in VAR and str(k[2]) == "0" else self.ext(x, "%s.%s" % (k[1], k[2]))
                elif k[0] == "i":
                    x = self.ext(x, self.key(b, k[1], busy))
                else:
                    return {("?", ())}
            return x
        if t.op == "call":
            n, a, cb = t.a[2], t.a[3], t.a[1]
            if n == "from_residual":
                return set()
            if n in KEYED and len(a) == 2:
                return self.ext(self.of(cb, a[0], busy), self.key(cb, a[1], busy))
            if n in ASK:
                return {(("call", n, cb), ())}
            if n == "map" and len(a) == 2:
                g = self.closure(cb, a[1], self.of(cb, a[0], busy))
                if g is not None:
                    return g
            if n in SEE and a:
                return self.of(cb, a[0], busy)
            if n in ("len", "num_states") and a:
                return self.ext(self.of(cb, a[0], busy), "#len")
        return {("?", ())}

    def closure(self, b, cl, rs):
        """The value of a closure applied to something from rs."""
        cl = sccp.strip(self.F, b, cl)
        if cl.op != "agg" or not cl.a[0].startswith("closure:"):
            return None
        g = self.F.prog.fns.get(cl.a[0][8:])
        if g is None:
            return None
        G = flow.Flow(self.F.prog, mir.inline(self.F.prog, g, lambda *x: False))
        og = O(G)
        out = set()
        for x, t in G.rets.items():
            for r, p in og.of(x, t):
                if r == 2:
                    out |= self.ext(rs, *p)
                else:
                    return None
        return out


def inl(prog, f):
    return flow.Flow(prog, mir.inline(prog, f, lambda g, c, s: g.crate == f.crate and "algorithms/lazy/" in g.file))


def parts(v, p=()):
    """The scalar parts of a value put together from parts."""
    while v.op == "agg" and v.a[1] in VAR and len(v.a[3]) == 1:
        v = v.a[3][0]
    if v.op == "agg" and v.a[3] and not v.a[0].startswith("closure:"):
        for n, x in zip(v.a[2], v.a[3]):
            yield from parts(x, p + (str(n),))
    else:
        yield p, v


def stores(F, S, o):
    """[(block, place paths, value path, value origins, line)] of everything stored through parameter 1."""
    out = []
    for (b, i), ws in F.writes.items():
        if b not in S.blocks or i == "T":
            continue
        for cell, path, v in ws:
            if v is None:
                continue
            ps = o.of(b, flow.mk("ref", cell, path)) if not isinstance(cell, int) else place_of(F, o, b, cell, path)
            ps = {p for r, p in ps if r == 1}
            if not ps:
                continue
            for q, x in parts(v):
                out.append((b, {p + q for p in ps}, o.of(b, x), F.body.bbs[b]["st"][i].get("ln")))
    for b, (c, a) in F.calls.items():
        if b not in S.blocks or not c:
            continue
        n = c["name"]
        if n == "insert" and "HashMap" in c["def"] and len(a) == 3:
            ps = {p for r, p in o.of(b, a[0]) if r == 1}
            k = o.key(b, a[1], frozenset())
            for q, x in parts(a[2]):
                if ps:
                    out.append((b, {p + (k,) + q for p in ps}, o.of(b, x), F.body.bbs[b]["term"].get("ln")))
        if n in ("replace", "insert") and ("core::mem" in c["def"] or "option::Option" in c["def"]) and len(a) == 2:
            ps = {p for r, p in o.of(b, a[0]) if r == 1}
            for q, x in parts(a[1]):
                if ps:
                    out.append((b, {p + q for p in ps}, o.of(b, x), F.body.bbs[b]["term"].get("ln")))
    return out


def place_of(F, o, b, cell, path):
    st = dict(F.inn[b])
    x = o.of(b, F.get_cell(st, cell))
    for k in path:
        if isinstance(k, str):
            x = x if k == "deref" else o.ext(x, k)
        elif k[0] == "v":
            x = x if k[1] in VAR and str(k[2]) == "0" else o.ext(x, "%s.%s" % (k[1], k[2]))
        elif k[0] == "i":
            x = o.ext(x, o.key(b, k[1], frozenset()))
        else:
            return set()
    return x


def show(p):
    return ".".join(x if isinstance(x, str) else "[%s]" % ",".join("argument" if y == (2, ()) else str(y) for y in x[1:]) for x in p)


K2 = ("[]", (2, ()))
ID = {"trs": 3, "final_weight": 3, "start": 2}


def caches(ctx, prog):
    impls = {}
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate == "rustfst" and f.bbs and f.impl_trait and head(f.impl_trait) == "FstCache" and f.kind != "Closure" and "{closure" not in f.path and not is_test(f):
            if "::" in (f.impl_self or ""):
                impls.setdefault(head(f.impl_self), {})[f.name] = f
    for h, ms in sorted(impls.items()):
        ctx.count("caches")
        for what, vi in sorted(ID.items()):
            ins, get = ms.get("insert_" + what), ms.get("get_" + what)
            if ins is None or get is None:
                continue
            slots, keyed = insertion(ctx, prog, h, what, ins, vi)
            if slots is not None:
                lookup(ctx, prog, h, what, get, slots, keyed)
                for n in ("num_trs", "num_input_epsilons", "num_output_epsilons"):
                    if what == "trs" and n in ms:
                        count(ctx, prog, h, ms[n], slots, keyed, FIELD.get(n))
                room(ctx, prog, h, ins)
        known(ctx, prog, h, ms)


def insertion(ctx, prog, h, what, f, vi):
    key = "%s::%s" % (h, f.name)
    F = inl(prog, f)
    S = sccp.Spec(prog, F, lambda t: None)
    o = O(F, S)
    ctx.count("insertions")
    st = stores(F, S, o)
    mine = [x for x in st if (vi, ()) in x[2]]
    slots, blocks = {}, {}
    for b, ps, vs, ln in mine:
        if vs != frozenset({(vi, ())}):
            ctx.violation(key + ".value", "%s may store something else than the value it is given" % key, f.where(ln))
        for p in ps:
            slots.setdefault(p, []).append(b)
    # what is handed on to another cache
    dele = []
    for b, (c, a) in F.calls.items():
        if c and c["name"] == f.name and b in S.blocks and len(a) == vi:
            dele.append(b)
            bad = [i for i in range(2, vi + 1) if o.of(b, a[i - 1]) != frozenset({(i, ())})]
            if bad:
                ctx.violation(key + ".value", "%s hands on another %s than it is given" % (key, "state" if bad[0] == 2 and vi == 3 else "value"), f.where(F.body.bbs[b]["term"].get("ln")))
    if not slots and not dele:
        ctx.violation(key + ".lost", "%s does not store the value it is given" % key, f.where())
        return None, None
    keyed = {}
    for p, bs in slots.items():
        ks = [x for x in p if isinstance(x, tuple)]
        if S.ok_returns(avoid=set(bs)):
            ctx.violation(key + ".lost", "%s can return without having stored the value it is given in %s" % (key, show(p)), f.where())
        if vi == 3 and ks and ks != [K2]:
            ctx.violation(key + ".state", "%s stores the value under another state than it is given (%s)" % (key, show(p)), f.where())
        if vi == 3 and not ks:
            # one slot for the last state: the state is stored beside the value
            kp = [x for x in st if (2, ()) in x[2] and any(y[:-1] == p[:-1] and y != p for y in x[1])]
            if not kp:
                ctx.violation(key + ".state", "%s remembers a value in %s without the state it belongs to" % (key, show(p)), f.where())
            else:
                keyed[p] = [y for y in kp[0][1] if y != p][0]
                if kp[0][2] != frozenset({(2, ())}) or S.ok_returns(avoid={x[0] for x in kp}):
                    ctx.violation(key + ".state", "%s remembers a value with another state than it is given" % key, f.where())
    if dele and S.ok_returns(avoid=set(dele)):
        ctx.violation(key + ".lost", "%s can return without having handed the value on" % key, f.where())
    # an entry of the same store under another state is not touched
    for b, ps, vs, ln in st:
        for p in ps:
            for q in slots:
                if p != q and len(p) >= 1 and any(isinstance(x, tuple) for x in p) and p[:len(q) - 1] == q[:len(p) - 1] and [x for x in p if isinstance(x, tuple)] != [x for x in q if isinstance(x, tuple)]:
                    ctx.violation(key + ".other", "%s changes the entry of another state (%s)" % (key, show(p)), f.where(ln))
    ctx.sample(key, "stores in %s%s" % (", ".join(sorted(show(p) for p in slots)), " and hands on" if dele else ""))
    return (slots, dele), keyed


def worlds(F, o, slots, keyed, present, vi, variant=0):
    """A leaf function: is the entry there?"""
    sl = set(slots[0])
    pre = set()
    for p in sl:
        for i in range(1, len(p) + 1):
            pre.add(p[:i])

    def leaf(t):
        if t.op == "bin" and t.a[0] in ("Eq", "Ne"):
            x, y = o.of(0, t.a[1]), o.of(0, t.a[2])
            for a, b in ((x, y), (y, x)):
                if b == frozenset({(2, ())}) and any(a == frozenset({(1, k)}) for k in keyed.values()):
                    return int((t.a[0] == "Eq") == present)
        if t.op == "call" and t.a[2] in ("eq", "ne") and len(t.a[3]) == 2:
            x, y = [o.of(t.a[1], z) for z in t.a[3]]
            for a, b in ((x, y), (y, x)):
                if b == frozenset({(2, ())}) and any(a == frozenset({(1, k)}) for k in keyed.values()):
                    return int((t.a[2] == "eq") == present)
        if t.op == "bin" and t.a[0] in ("Lt", "Le", "Gt", "Ge"):
            x, y = o.of(0, t.a[1]), o.of(0, t.a[2])
            op = t.a[0]
            if y == frozenset({(2, ())}):
                x, y = y, x
                op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}[op]
            if x == frozenset({(2, ())}) and len(y) == 1 and list(y)[0][1][-1:] == ("#len",):
                if present or variant == 1:
                    return int(op in ("Lt", "Le"))
                return {"Lt": 0, "Ge": 1}.get(op)
        if t.op == "call" and t.a[2] == "contains_key" and len(t.a[3]) == 2 and o.of(t.a[1], t.a[3][1]) == frozenset({(2, ())}):
            return int(present)
        if t.op in ("call", "field", "vf", "idx", "deref", "ref", "phi"):
            r = o.of(t.a[1] if t.op == "call" else 0, t) if t.op != "ref" or not isinstance(t.a[0], int) else None
            if r is not None and len(r) == 1:
                root, p = list(r)[0]
                if root == 1 and p in pre:
                    if t.op == "call" and t.a[2] in KEYED:
                        if present or variant == 1:
                            return ("v", "Some")
                        return ("v", "None")
                    if p in sl or any(isinstance(x, tuple) for x in p) or p in {s[:-1] for s in keyed}:
                        ty = None
                        if p in {s[:-1] for s in keyed}:
                            return ("v", "Some") if present or variant == 1 else ("v", "None")
                        if t.op in ("idx", "deref", "field", "vf"):
                            return ("v", "Computed") if present else ("v", "NotComputed")
        return None
    return leaf


def hashed(F):
    return any(c and "HashMap" in c["def"] for c, a in F.calls.values())


def lookup(ctx, prog, h, what, f, slots, keyed):
    key = "%s::%s" % (h, f.name)
    F = inl(prog, f)
    o = O(F)
    ctx.count("lookups")
    vi = ID[what]
    dele = {b for b, (c, a) in F.calls.items() if c and c["name"] == f.name}
    for b in dele:
        a = F.calls[b][1]
        if len(a) > 1 and o.of(b, a[1]) != frozenset({(2, ())}):
            ctx.violation(key + ".state", "%s asks for another state than it is given" % key, f.where(F.body.bbs[b]["term"].get("ln")))
    if not slots[0]:
        # everything is handed on
        S = sccp.Spec(prog, F, lambda t: None)
        for b, t in F.rets.items():
            r = O(F, S).of(b, t)
            if any(x[0] != ("call", f.name, y) for x in r for y in dele) or not r or not dele:
                ctx.violation(key + ".answer", "%s does not answer what the cache it wraps answers" % key, f.where())
        return
    for present in (True, False):
        for variant in ((0,) if present else ((0, 1) if not hashed(F) else (0,))):
            S = sccp.Spec(prog, F, worlds(F, o, slots, keyed, present, vi, variant))
            oS = O(F, S)
            for b, t in F.rets.items():
                if b not in S.blocks:
                    continue
                rs = oS.of(b, t)
                want = {(1, p) for p in slots[0]}
                if present:
                    v = S.variant(b, t)
                    wrong = [r for r in rs if r not in want]
                    if wrong:
                        ctx.violation(key + ".answer", "%s answers for a state it has stored from %s instead of %s" % (key, origin(wrong[0]), ", ".join(show(p) for p in slots[0])), f.where())
                    elif not rs or v is not None and v != "Computed":
                        ctx.violation(key + ".answer", "%s says that what it has stored is not computed" % key, f.where())
                else:
                    for r in rs:
                        if r == (("const", "NotComputed"), ()) or isinstance(r[0], tuple) and r[0][0] == "call" and r[0][1] == f.name:
                            if slots[1] and r == (("const", "NotComputed"), ()):
                                ctx.violation(key + ".absent", "%s does not ask the cache it wraps" % key, f.where())
                            continue
                        if r in want and not slots[1] and S.variant(b, t) == "NotComputed":
                            continue
                        ctx.violation(key + ".absent", "%s answers for a state it has not stored (from %s)" % (key, origin(r)), f.where())
    ctx.sample(key, "answers from %s" % ", ".join(show(p) for p in slots[0]))


def origin(r):
    if r[0] == 1:
        return show(r[1])
    if isinstance(r[0], tuple):
        return " ".join(str(x) for x in r[0][:2])
    return "something else"


FIELD = {"num_input_epsilons": "niepsilons", "num_output_epsilons": "noepsilons"}


def room(ctx, prog, h, f):
    """A table that is a list is made long enough for the state, and never shorter."""
    key = "%s::%s" % (h, f.name)
    F = inl(prog, f)
    o = O(F)
    rs = [b for b, (c, a) in F.calls.items() if c and c["name"] in ("resize", "resize_with") and "Vec" in c["def"] + (c.get("self") or "") and len(a) == 3]
    for b in rs:
        vec = o.of(b, F.calls[b][1][0])
        ctx.count("lists made longer")
        puts = [x for x, (c, a) in F.calls.items() if c and c["name"] in ("index_mut", "get_mut", "get_unchecked_mut") and a and o.of(x, a[0]) == vec]
        for n, l in ((7, 3), (5, 5), (3, 7)):
            def table(oo, t):
                if t.op == "call":
                    return l if t.a[2] == "len" and len(t.a[3]) == 1 and oo.of(t.a[1], t.a[3][0]) == vec else None
                r = oo.of(0, t)
                if r == frozenset({(2, ())}):
                    return n
                if r and r == frozenset((x, p + ("#len",)) for x, p in vec):
                    return l
                return None
            S = Num(prog, F, table, True).S
            if b in S.blocks:
                v = S.value(b, F.calls[b][1][1])
                if isinstance(v, int) and v < max(n + 1, l):
                    ctx.violation(key + ".room", "%s %s" % (key, "forgets the entries of other states: it makes the table shorter" if v < l else "does not make the table long enough for the state"), f.where(F.body.bbs[b]["term"].get("ln")))
                    break
            elif len(rs) == 1 and n >= l and any(x in S.blocks for x in puts):
                ctx.violation(key + ".room", "%s does not make the table long enough for the state" % key, f.where(F.body.bbs[b]["term"].get("ln")))
                break


def count(ctx, prog, h, f, slots, keyed, field=None):
    key = "%s::%s" % (h, f.name)
    F = inl(prog, f)
    o = O(F)
    if not slots[0] or slots[1]:
        return
    ctx.count("counts")
    for present in (True, False):
        S = sccp.Spec(prog, F, worlds(F, o, slots, keyed, present, 3))
        oS = O(F, S)
        for b, t in F.rets.items():
            if b not in S.blocks:
                continue
            v = S.variant(b, t)
            if v is not None and v != ("Some" if present else "None"):
                ctx.violation(key + ".found", "%s answers %s for a state that is %sstored" % (key, v, "" if present else "not "), f.where())
            if present:
                for r in oS.of(b, t):
                    if field and r[0] == 1 and any(r[1] == p[:-1] + (field,) for p in slots[0]):
                        continue
                    if field or r not in {(1, p + ("#len",)) for p in slots[0]}:
                        ctx.violation(key + ".answer", "%s does not answer the number of %s stored for the state (%s)" % (key, "epsilons" if field else "transitions", origin(r)), f.where())


# ---------------------------------------------------------------- the number of known states
class Num:
    """Constant evaluation with max: known states K, the state at hand E."""

    def __init__(self, prog, F, table, calls=False):
        self.F, self.o, self.table = F, O(F), table

        def leaf(t):
            if t.op == "call" and t.a[2] == "max" and len(t.a[3]) == 2:
                x, y = [self.S.value(t.a[1], z) for z in t.a[3]] if self.S else (None, None)
                return max(x, y) if isinstance(x, int) and isinstance(y, int) else None
            if t.op == "ovf":
                return 0
            if t.op in ("param", "field", "vf", "deref", "phi", "idx") or calls and t.op in ("call", "len"):
                return self.table(self.o, t)
            return None
        self.S = None
        self.S = sccp.Spec(prog, F, leaf)
        self.S = sccp.Spec(prog, F, leaf)


def known(ctx, prog, h, ms):
    f = ms.get("num_known_states")
    if f is None:
        return
    F = inl(prog, f)
    o = O(F)
    fields = set()
    for b, t in F.rets.items():
        for x in flow.reach_terms(F, b, t):
            if x.op == "field":
                for r, p in o.of(b, x):
                    if r == 1 and p and p[-1] == "num_known_states":
                        fields.add(p)
    for name in ("insert_start", "insert_final_weight", "insert_trs"):
        if name in ms:
            G = inl(prog, ms[name])
            og = O(G)
            for (b, i), ws in G.writes.items():
                for c, path, v in ws if i != "T" else ():
                    fields |= {p for r, p in (place_of(G, og, b, c, path) if isinstance(c, int) else og.of(b, flow.mk("ref", c, path))) if r == 1 and p and p[-1] == "num_known_states"}
    if not fields:
        return               # hands on (P22)
    ctx.count("known-state counters", len(fields))
    for top in sorted(fields):
        def table(oo, t):
            r = oo.of(0, t)
            if len(r) == 1:
                root, p = list(r)[0]
                if root == 1 and p in fields:
                    return 7 if p == top else 3
            return None
        N = Num(prog, F, table)
        for b, t in F.rets.items():
            if N.S.value(b, t) != 7:
                ctx.violation("%s::num_known_states.max" % h, "%s::num_known_states is not the largest of its counters (%s)" % (h, show(top)), f.where())
    for name, elem in (("insert_start", (2, ())), ("insert_final_weight", (2, ())), ("insert_trs", None)):
        g = ms.get(name)
        if g is None:
            continue
        G = inl(prog, g)
        og = O(G)
        cell = None
        for (b, i), ws in G.writes.items():
            if i == "T":
                continue
            for c, path, v in ws:
                ps = {p for r, p in (place_of(G, og, b, c, path) if isinstance(c, int) else og.of(b, flow.mk("ref", c, path))) if r == 1}
                if ps & fields:
                    cell = (c, path, list(ps & fields)[0])
        if cell is None:
            if name == "insert_final_weight":
                continue
            ctx.violation("%s::%s.known" % (h, name), "%s::%s does not keep the number of known states" % (h, name), g.where())
            continue
        ls = p23.loops(G)
        for old, want in ((5, 10), (20, 20)):
            def table(oo, t):
                if t.op == "phi" and t.a[1] and t.a[1][-1] == cell[1][-1] and len(t.a[1]) >= len(cell[1]) and t.a[0] in ls:
                    return old
                r = oo.of(0, t)
                if len(r) == 1:
                    root, p = list(r)[0]
                    if root == 1 and p == cell[2]:
                        return old
                    if elem is not None and (root, p) == elem and (t.op != "param" or name != "insert_start"):
                        return 9
                    if elem is not None and name == "insert_start" and t.op == "param" and t.a[0] == 2:
                        return ("v", "Some")
                    if elem is None and isinstance(root, tuple) and root[1] == "next" and p and p[-1] == "nextstate":
                        return 9
                return None
            N = Num(prog, G, table)
            ends = []
            if elem is None:
                for hd, (some, none, inside) in ls.items():
                    ends += [(p, q) for p, q in N.S.edges if q == hd and p in inside | {some}]
            else:
                ends = [(b, None) for b in G.rets if b in N.S.blocks]
            ctx.count("counter worlds")
            for p, q in ends:
                v = N.S.value(p, G.read(G.out[p], cell[0], cell[1]))
                if v != want and elem is None and summed(prog, G, og, ls, cell, table, old, want):
                    continue
                if v != want:
                    ctx.violation("%s::%s.known" % (h, name), "%s::%s does not raise the number of known states to one more than %s" % (
                        h, name, "the start state" if name == "insert_start" else "a next state" if elem is None else "the state"), g.where())
                    break
            if not ends and elem is None:
                ctx.violation("%s::%s.known" % (h, name), "%s::%s does not go over the transitions" % (h, name), g.where())


def summed(prog, G, og, ls, cell, table, old, want):
    """Is the counter kept in a variable while going over the transitions, and stored afterwards?"""
    for (b, i), ws in G.writes.items():
        for c, path, v in ws if i != "T" else ():
            if (c, path) != cell[:2] or v.op != "phi" or v.a[0] not in ls:
                continue
            hd = v.a[0]
            inside = ls[hd][2] | {ls[hd][0]}
            S = Num(prog, G, lambda oo, t: old if t is v else table(oo, t)).S
            ins = {S.value(p, x) for p, x in G.phis[v.a].items() if p in inside and (p, hd) in S.edges}
            outs = {S.value(p, x) for p, x in G.phis[v.a].items() if p not in inside}
            if ins == {want} and outs == {old} and b not in inside and not S.ok_returns(avoid={b}):
                return True
    return False


def clears(ctx, prog):
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate != "rustfst" or f.name != "clear" or not f.bbs or "algorithms/lazy/cache" not in f.file or head(f.impl_self) not in ("SimpleVecCache", "SimpleHashMapCache"):
            continue
        F = inl(prog, f)
        S = sccp.Spec(prog, F, lambda t: None)
        o = O(F, S)
        done = {}
        for b, ps, vs, ln in stores(F, S, o):
            for p in ps:
                if vs <= {(("const", "NotComputed"), ()), (("const", "0"), ())}:
                    done.setdefault(p, set()).add(b)
        for b, (c, a) in F.calls.items():
            if c and c["name"] == "clear" and a:
                for r, p in o.of(b, a[0]):
                    if r == 1:
                        done.setdefault(p, set()).add(b)
        adt = prog.adts.get(mir.ty_head(f.impl_self)[0])
        ctx.count("clears")
        for x in adt["variants"][0]["fields"] if adt else ():
            for part in ("data", "num_known_states"):
                p = (x["name"], part)
                if p not in done or S.ok_returns(avoid=done[p]):
                    ctx.violation("%s::clear.%s" % (head(f.impl_self), x["name"]), "%s::clear does not forget %s" % (head(f.impl_self), show(p)), f.where())


# ---------------------------------------------------------------- the status type
def status(ctx, prog):
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate != "rustfst" or not f.bbs or head(f.impl_self) != "CacheStatus" or f.impl_trait and head(f.impl_trait) not in ("From",) or "{closure" in f.path:
            continue
        F = flow.Flow(prog, mir.inline(prog, f, lambda g, c, s: g.crate == f.crate and g.file == f.file))
        src = "Option" if f.impl_trait else "CacheStatus"
        ctx.count("status methods")
        for comp in (True, False):
            def leaf(t):
                if t.op == "param" and t.a[0] == 1 or t.op == "deref" and t.a[0].op == "param" and t.a[0].a[0] == 1:
                    return ("v", ("Some" if comp else "None") if src == "Option" else ("Computed" if comp else "NotComputed"))
                return None
            S = sccp.Spec(prog, F, leaf)
            o = O(F, S)
            for b, t in F.rets.items():
                if b not in S.blocks:
                    continue
                key = "CacheStatus::%s" % f.name
                n = f.name
                rs = o.of(b, t)
                if n in ("is_computed", "is_not_computed"):
                    v = S.value(b, t)
                    if v != int((n == "is_computed") == comp):
                        ctx.violation(key, "%s is wrong for a %s value" % (key, "computed" if comp else "not computed"), f.where())
                    continue
                if n in ("into_option", "to_option", "from"):
                    w = ("Some", "None") if n != "from" else ("Computed", "NotComputed")
                    if S.variant(b, t) != w[0 if comp else 1] or comp and rs != frozenset({(1, ())}):
                        ctx.violation(key, "%s does not keep a %s value" % (key, "computed" if comp else "not computed"), f.where())
                elif n in ("map", "and", "and_then") and not comp:
                    if S.variant(b, t) != "NotComputed":
                        ctx.violation(key, "%s makes a computed value of one that is not" % key, f.where())
                elif n == "map":
                    if S.variant(b, t) != "Computed":
                        ctx.violation(key, "%s loses a computed value" % key, f.where())
                elif n in ("or", "or_else") and comp:
                    if S.variant(b, t) != "Computed" or rs != frozenset({(1, ())}):
                        ctx.violation(key, "%s does not keep a computed value" % key, f.where())
                elif n in ("or", "and") and (comp if n == "and" else not comp):
                    if rs != frozenset({(2, ())}):
                        ctx.violation(key, "%s does not answer its argument" % key, f.where())


# ---------------------------------------------------------------- lazy FSTs
GET = {"start": "get_start", "final_weight": "get_final_weight", "get_trs": "get_trs"}
PUT = {"start": "insert_start", "final_weight": "insert_final_weight", "get_trs": "insert_trs"}
PART = {"insert_trs": "0", "insert_final_weight": "1", "final_weight": "1", "get_trs": "0"}


def same_state(o, b, a, start):
    return start or len(a) > 1 and o.of(b, a[1]) == frozenset({(2, ())})


def lazies(ctx, prog):
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate != "rustfst" or not f.bbs or "algorithms/lazy/" not in f.file or not f.impl_trait or head(f.impl_trait) != "CoreFst" or "{closure" in f.path:
            continue
        h = head(f.impl_self)
        key = "%s::%s" % (h, f.name)
        F = inl(prog, f)
        if f.name in GET or f.name.replace("_unchecked", "") in GET:
            n = f.name.replace("_unchecked", "")
            memo(ctx, prog, f, F, key, n)
        elif f.name.startswith("num_"):
            counted(ctx, prog, f, F, key)


def memo(ctx, prog, f, F, key, n):
    start = n == "start"
    ctx.count("lazy answers")
    o0 = O(F)
    for b, (c, a) in F.calls.items():
        if c and (c["name"].startswith("compute_") or c["name"].startswith(("get_", "insert_")) and "FstCache" in c["def"]):
            if not (start or c["name"] in ("get_start", "insert_start", "compute_start") or same_state(o0, b, a, start)):
                ctx.violation(key + ".state", "%s calls %s for another state than it is asked about" % (key, c["name"]), f.where(F.body.bbs[b]["term"].get("ln")))
    for comp in (True, False):
        def leaf(t):
            if t.op == "call" and t.a[2] == GET[n] and "FstCache" in t.a[0]:
                return ("v", "Computed" if comp else "NotComputed")
            return None
        S = sccp.Spec(prog, F, leaf)
        o = O(F, S)
        gets = S.calls(lambda c: c["name"] == GET[n] and "FstCache" in c["def"])
        comps = S.calls(lambda c: c["name"].startswith("compute_"))
        puts = S.calls(lambda c: c["name"] == PUT[n])
        if S.ok_returns(avoid=set(gets)):
            ctx.violation(key + ".cache", "%s can answer without having looked in the cache" % key, f.where())
        if comp:
            for b in S.calls(lambda c: c["name"].startswith(("compute_", "insert_")) and ("FstCache" in c["def"] or "FstOp" in c["def"])):
                ctx.violation(key + ".again", "%s calls %s although the answer is in the cache" % (key, F.calls[b][0]["name"]), f.where(F.body.bbs[b]["term"].get("ln")))
            for b, t in F.rets.items():
                if b in S.blocks:
                    rs = o.of(b, t)
                    if not rs or any(not (isinstance(r, tuple) and r[0] == "call" and r[1] == GET[n]) or p for r, p in rs):
                        ctx.violation(key + ".cached", "%s does not answer what is in the cache" % key, f.where())
                    if S.variant(b, t) == "Err":
                        ctx.violation(key + ".cached", "%s reports an error although the answer is in the cache" % key, f.where())
            continue
        if not comps:
            ctx.violation(key + ".compute", "%s does not compute what is not in the cache" % key, f.where())
            continue
        if S.ok_returns(avoid=set(puts)):
            ctx.violation(key + ".store", "%s can answer without having stored what it computed" % key, f.where())
        for b in S.calls(lambda c: c["name"].startswith("insert_") and "FstCache" in c["def"]):
            nm = F.calls[b][0]["name"]
            rs = o.of(b, F.calls[b][1][-1])
            if not good(rs, nm):
                ctx.violation(key + ".store", "%s stores something else than it computed (%s)" % (key, nm), f.where(F.body.bbs[b]["term"].get("ln")))
        for b, t in F.rets.items():
            if b in S.blocks:
                rs = o.of(b, t)
                if not good(rs, PUT[n]):
                    ctx.violation(key + ".computed", "%s does not answer what it computed" % key, f.where())


def good(rs, put):
    """Is it the part of a computation that belongs in this place?"""
    if not rs:
        return False
    for r, p in rs:
        if not (isinstance(r, tuple) and r[0] == "call" and r[1].startswith("compute_")):
            return False
        if r[1] == "compute_trs_and_final_weight":
            if p != (PART[put],):
                return False
        elif p or r[1] != put.replace("insert_", "compute_"):
            return False
    return True


def counted(ctx, prog, f, F, key):
    """Counts: from the cache, and of a state that is not there by expanding it."""
    n = f.name.replace("_unchecked", "")
    ctx.count("lazy counts")
    o0 = O(F)
    for b, (c, a) in F.calls.items():
        if c and (c["name"].startswith("compute_") or "FstCache" in c["def"] and c["name"] not in ("num_known_states",)) and len(a) > 1:
            if not same_state(o0, b, a, False):
                ctx.violation(key + ".state", "%s calls %s for another state than it is asked about" % (key, c["name"]), f.where(F.body.bbs[b]["term"].get("ln")))

    first = [None]

    def leaf(t):
        # nothing is cached for a state that is known, until it has been computed
        if t.op == "call" and "FstCache" in t.a[0]:
            if t.a[2] == "get_trs":
                return ("v", "NotComputed")
            if t.a[2] == n:
                return ("v", "Some" if t.a[1] in first[0] else "None") if first[0] is not None else None
        if t.op == "bin" and t.a[0] in ("Lt", "Le", "Gt", "Ge"):
            x, y = o0.of(0, t.a[1]), o0.of(0, t.a[2])
            if x == frozenset({(2, ())}) and kn(y):
                return int(t.a[0] in ("Lt", "Le"))
            if y == frozenset({(2, ())}) and kn(x):
                return int(t.a[0] in ("Gt", "Ge"))
        if t.op == "call" and t.a[2] == "branch" and t.a[3] and any(z.op == "call" and z.a[2].startswith("compute_") for z in flow.subterms(t.a[3][0])):
            return ("v", "Continue")
        if t.op == "call" and t.a[2].startswith("compute_"):
            return ("v", "Ok")
        return None

    def kn(r):
        return len(r) == 1 and any(z.op == "call" and z.a[2] == "num_known_states" for z in known_terms) and list(r)[0][0] == "?"
    known_terms = [z for b in F.conds for z in flow.subterms(F.conds[b], F.phis)]
    comps = {b for b, (c, a) in F.calls.items() if c and c["name"] in ("compute_trs", "compute_trs_and_final_weight")}
    # lookups of the count that only run after the state has been computed and stored
    asks = {b for b, (c, a) in F.calls.items() if c and c["name"] == n and "FstCache" in c["def"]}
    S0 = sccp.Spec(prog, F, leaf)
    puts = {b for b, (c, a) in F.calls.items() if c and c["name"] == "insert_trs"}
    first[0] = {b for b in asks if puts and not runs(S0, b, puts)}
    S = sccp.Spec(prog, F, leaf)
    errs = sccp.err_blocks(F)
    if "Result<" in f.ret.split("(")[0]:
        if not comps & S.blocks or [b for b in F.rets if b in S.blocks and not S.ok_returns()]:
            ctx.violation(key + ".expand", "%s fails for a state that has not been expanded yet" % key, f.where())
            return
    elif not comps & S.blocks:
        ctx.violation(key + ".expand", "%s has no answer for a state that has not been expanded yet" % key, f.where())
        return
    o = O(F, S)
    for b, t in F.rets.items():
        if b not in S.blocks:
            continue
        for r, p in o.of(b, t):
            if isinstance(r, tuple) and r[0] == "call" and r[1] == n and not p:
                continue
            if n == "num_trs" and p[-1:] == ("#len",) and isinstance(r, tuple) and r[1] in ("compute_trs", "compute_trs_and_final_weight", "get_trs"):
                continue
            ctx.violation(key + ".answer", "%s does not answer the count of the state (%s)" % (key, origin((r, p))), f.where())


def runs(S, goal, avoid):
    seen, work = set(), [0]
    while work:
        x = work.pop()
        if x == goal:
            return True
        if x in seen or x in avoid:
            continue
        seen.add(x)
        work += [y for z, y in S.edges if z == x]
    return False


# ---------------------------------------------------------------- iterating and converting
def iterators(ctx, prog):
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate != "rustfst" or not f.bbs or f.name not in ("next", "states_iter") or "algorithms/lazy/lazy_fst" not in f.file or not f.impl_trait or "{closure" in f.path:
            continue
        h = "%s::%s" % (head(f.impl_self), f.name)
        ctx.count("state iterators")
        F = flow.Flow(prog, mir.inline(prog, f, lambda g, c, s: False))
        o = O(F)
        if f.name == "states_iter":
            starts = {b for b, (c, a) in F.calls.items() if c and c["name"] == "start"}
            S = sccp.Spec(prog, F, lambda t: None)
            if S.ok_returns(avoid=starts):
                ctx.violation(h + ".start", "%s does not compute the start state first" % h, f.where())
            for b, t in F.rets.items():
                if t.op == "agg":
                    d = dict(zip(t.a[2], t.a[3]))
                    if "s" in d and S.value(b, d["s"]) != 0:
                        ctx.violation(h + ".first", "%s does not begin with state 0" % h, f.where())
            continue
        for s, k in ((3, 5), (3, 4), (3, 3), (0, 0)):
            def table(oo, t):
                r = oo.of(0, t)
                return s if r == frozenset({(1, ("s",))}) else None
            N = NumIter(prog, F, table, k)
            S = N.S
            ctx.count("iterator worlds")
            for b, t in F.rets.items():
                if b not in S.blocks:
                    continue
                v = S.variant(b, t)
                if v != ("Some" if s < k else "None"):
                    ctx.violation(h + ".all", "%s answers %s at state %d of %d known ones" % (h, v, s, k), f.where())
                    continue
                if s < k:
                    x = [S.value(b, z) for z in payloads(F, S, b, t)]
                    if x != [s]:
                        ctx.violation(h + ".item", "%s does not give the state it is at" % h, f.where())
                    c = after_s(F, S, b)
                    if c != s + 1:
                        ctx.violation(h + ".step", "%s does not go on to the next state" % h, f.where())
            if s < k:
                ex = {b for b, (c, a) in F.calls.items() if c and c["name"] in ("get_trs", "get_trs_unchecked") and b in S.blocks and S.value(b, a[1]) == s}
                if S.ok_returns(avoid=ex):
                    ctx.violation(h + ".expand", "%s does not expand the state it gives, so that the next ones are known" % h, f.where())


def payloads(F, S, b, t):
    if t.op == "phi":
        out = []
        for p, v in F.phis.get(t.a, {}).items():
            if (p, t.a[0]) in S.edges:
                out += payloads(F, S, p, v)
        return out
    if t.op == "agg" and t.a[3]:
        return [t.a[3][0]]
    return []


def after_s(F, S, b):
    for c, t in F.out[b].items():
        if isinstance(c, tuple) and c[1].op == "param" and c[1].a[0] == 1:
            return S.value(b, F.read(F.out[b], c, ("s",)))
    return None


class NumIter(Num):
    def __init__(self, prog, F, table, k):
        self.F, self.o = F, O(F)

        def leaf(t):
            if t.op == "call" and t.a[2] == "num_known_states":
                return k
            if t.op == "ovf":
                return 0
            if t.op in ("field", "deref"):
                return table(self.o, t)
            return None
        self.S = sccp.Spec(prog, F, leaf)


def conversions(ctx, prog):
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate != "rustfst" or not f.bbs or f.name != "compute" or "algorithms/lazy/" not in f.file or "{closure" in f.path or is_test(f):
            continue
        h = "%s::compute" % head(f.impl_self)
        F = flow.Flow(prog, mir.inline(prog, f, lambda g, c, s: g.crate == f.crate and g.file == f.file and g.name not in ("get_trs", "final_weight", "start", "properties")))
        o = O(F)
        ctx.count("conversions")

        def is_(n):
            return [b for b, (c, a) in F.calls.items() if c and c["name"] == n and b in F.inn]
        pops = is_("pop_front") + is_("pop_back") + is_("pop")
        if len(pops) != 1:
            ctx.violation(h + ".queue", "%s does not work through a queue of states" % h, f.where())
            continue
        pop = pops[0]
        S_ = frozenset({(("call", F.calls[pop][0]["name"], pop), ())})
        # the start state
        starts = is_("start")
        st = {(("call", "start", b), ()) for b in starts}
        for n, i in (("set_start", 1), ("set_start_unchecked", 1)):
            for b in is_(n):
                if not set(o.of(b, F.calls[b][1][i])) <= st:
                    ctx.violation(h + ".start", "%s sets another start state" % h, f.where(F.body.bbs[b]["term"].get("ln")))

        def leaf0(t):
            return ("v", "Some") if t.op == "call" and t.a[2] == "start" else None
        S = sccp.Spec(prog, F, leaf0)
        if S.ok_returns(avoid=set(is_("set_start") + is_("set_start_unchecked"))):
            ctx.violation(h + ".start", "%s can leave the start state out" % h, f.where())
        pushes = is_("push_back") + is_("push_front") + is_("push")
        first = [b for b in pushes if set(o.of(b, F.calls[b][1][-1])) <= st and o.of(b, F.calls[b][1][-1])]
        if S.ok_returns(avoid=set(first)):
            ctx.violation(h + ".start", "%s does not begin with the start state" % h, f.where())
        # the loop over states
        sw = switch_after(F, pop)
        if sw is None:
            ctx.violation(h + ".queue", "%s does not work through a queue of states" % h, f.where())
            continue
        some = sw

        def leaf1(fw):
            def leaf(t):
                if t.op == "call" and t.a[2] in ("start", F.calls[pop][0]["name"]):
                    return ("v", "Some")
                if t.op == "vf" and t.a[0].op == "call" and t.a[0].a[2] == "final_weight" and t.a[1] == "Ok":
                    return ("v", "Some" if fw else "None")
                if t.op == "vf" and t.a[1] == "Continue" and any(z.op == "call" and z.a[2] == "final_weight" for z in flow.subterms(t)):
                    return ("v", "Some" if fw else "None")
                return None
            return leaf
        W = sccp.Spec(prog, F, leaf1(True))
        sets = [b for b in is_("set_trs_unchecked") + is_("set_trs") if state_and(o, F, b, S_, "get_trs", pop)]
        adds = [b for b in is_("add_tr") + is_("add_tr_unchecked") + is_("push_tr") + is_("push_tr_unchecked") if o.of(b, F.calls[b][1][1]) == S_]
        for b in is_("set_trs_unchecked") + is_("set_trs"):
            if b not in sets:
                ctx.violation(h + ".trs", "%s gives a state the transitions of another" % h, f.where(F.body.bbs[b]["term"].get("ln")))
        loops = {hd: x for hd, x in p23.loops(F).items() if over_trs(F, o, hd, S_)}
        if not sets and not adds:
            ctx.violation(h + ".trs", "%s does not copy the transitions" % h, f.where())
        elif sets and way(F, W, some, {pop}, set(sets)):
            ctx.violation(h + ".trs", "%s can leave out the transitions of a state" % h, f.where())
        elif adds and not sets:
            for hd, (s1, n1, inside) in loops.items():
                mine = {b for b in adds if b in inside}
                if mine and way(F, W, s1, {hd}, mine):
                    ctx.violation(h + ".trs", "%s can leave out a transition" % h, f.where())
                for b in mine:
                    rs = o.of(b, F.calls[b][1][2])
                    if not rs or any(r != ("call", "next", hd) or p for r, p in rs):
                        ctx.violation(h + ".trs", "%s adds another transition than the lazy FST has" % h, f.where(F.body.bbs[b]["term"].get("ln")))
            if not any(b in x[2] for b in adds for x in loops.values()) or way(F, W, some, {pop}, set(loops)):
                ctx.violation(h + ".trs", "%s can leave out the transitions of a state" % h, f.where())
        fin = [b for b in is_("set_final") + is_("set_final_unchecked") if state_and(o, F, b, S_, "final_weight", pop)]
        for b in is_("set_final") + is_("set_final_unchecked"):
            if b not in fin:
                ctx.violation(h + ".final", "%s gives a state the final weight of another" % h, f.where(F.body.bbs[b]["term"].get("ln")))
        if way(F, W, some, {pop}, set(fin)):
            ctx.violation(h + ".final", "%s can leave out the final weight of a state" % h, f.where())
        # every next state is queued
        if not loops:
            ctx.violation(h + ".next", "%s does not go over the transitions of a state" % h, f.where())
        for hd, (s1, n1, inside) in loops.items():
            nx = frozenset({(("call", "next", hd), ("nextstate",))})
            q = {b for b in pushes if b in inside and o.of(b, F.calls[b][1][-1]) == nx}
            marks = {b for b, (c, a) in F.calls.items() if c and b in inside and c["name"] == "insert" and len(a) == 2 and o.of(b, a[1]) == nx}

            def leaf2(t):
                if t.op == "call" and t.a[2] == "contains" and len(t.a[3]) == 2 and o.of(t.a[1], t.a[3][1]) == nx:
                    return 0
                if t.op == "call" and t.a[2] == "insert" and len(t.a[3]) == 2 and o.of(t.a[1], t.a[3][1]) == nx:
                    return 1
                if t.op in ("idx", "field", "deref", "phi", "read", "vf"):
                    r = o.of(0, t)
                    if r and all(p and isinstance(p[-1], tuple) and p[-1] == ("[]",) + tuple(nx) for _, p in r):
                        return 0
                    if t.op == "idx" and o.of(0, t.a[1]) == nx:
                        return 0
                    if t.op == "read" and isinstance(t.a[1], flow.T) and t.a[1].op == "key" and t.a[1].a[0] == "i" and o.of(0, t.a[1].a[1]) == nx:
                        return 0
                return None
            U = sccp.Spec(prog, F, leaf2)
            ctx.count("next-state loops")
            if pushes and way(F, U, s1, {hd}, q):
                if adds and not q:
                    pass
                ctx.violation(h + ".next", "%s can leave out a state it has not seen before" % h, f.where(F.body.bbs[hd]["term"].get("ln")))
            if leaves(F, U, s1, hd):
                ctx.violation(h + ".next", "%s can stop before the last transition of a state" % h, f.where(F.body.bbs[hd]["term"].get("ln")))


def leaves(F, S, some, hd):
    """Can the loop body reach a successful return without its iterator ending?"""
    errs = sccp.err_blocks(F)
    seen, work = set(), [some]
    while work:
        x = work.pop()
        if x in seen or x == hd or x in errs:
            continue
        seen.add(x)
        if F.body.bbs[x]["term"]["t"] == "return":
            return True
        work += [y for z, y in S.edges if z == x]
    return False


def switch_after(F, b):
    s = F.body.bbs[b]["term"].get("to")
    seen = set()
    while s is not None and s not in seen and F.body.bbs[s]["term"]["t"] in ("goto", "drop"):
        seen.add(s)
        s = F.body.bbs[s]["term"].get("to")
    if s is None or F.body.bbs[s]["term"]["t"] != "switch":
        return None
    sw = F.body.bbs[s]["term"]
    tg = {int(k): to for k, to in sw["targets"]}
    return tg.get(1, sw["otherwise"])


def way(F, S, start, goal, avoid):
    """In this world, is there a way from start to goal that avoids the blocks (and errors)?"""
    errs = sccp.err_blocks(F)
    seen, work = set(), [start]
    while work:
        x = work.pop()
        if x in avoid or x in seen or x in errs:
            continue
        if x in goal:
            return True
        seen.add(x)
        work += [y for z, y in S.edges if z == x]
    return False


def state_and(o, F, b, S_, name, pop):
    a = F.calls[b][1]
    if o.of(b, a[1]) != S_:
        return False
    rs = o.of(b, a[2])
    if not rs or any(not (isinstance(r, tuple) and r[0] == "call" and r[1] == name) or p for r, p in rs):
        return False
    return all(o.of(r[2], F.calls[r[2]][1][1]) == S_ for r, p in rs)


def over_trs(F, o, hd, S_):
    """Is this a loop over all transitions the lazy FST answers for the state?"""
    c = F.calls[hd][0]
    if "Range" in (c.get("self") or "") + c["def"]:
        return False
    t = F.calls[hd][1][0]
    for x in flow.reach_terms(F, hd, t):
        if x.op == "call" and x.a[2] == "get_trs" and len(x.a[3]) == 2 and o.of(x.a[1], x.a[3][1]) == S_:
            return not any(y.op == "call" and y.a[2] in ("skip", "take", "filter", "step_by", "take_while", "skip_while", "rev_") for y in flow.reach_terms(F, hd, t))
    return False


def run(ctx):
    prog = ctx.prog if hasattr(ctx, "prog") else mir.load()
    caches(ctx, prog)
    clears(ctx, prog)
    status(ctx, prog)
    lazies(ctx, prog)
    iterators(ctx, prog)
    conversions(ctx, prog)
    ctx.floor("caches", 3)
    ctx.floor("insertions", 9)
    ctx.floor("lookups", 9)
    ctx.floor("lazy answers", 6)
    ctx.floor("conversions", 2)
