"""Binary formats as automata. A writer's (reader's) inlined MIR becomes a nondeterministic automaton
whose letters are the primitive fields put on (taken from) the wire: how many bytes, which value or
constant, which named component it came from (goes to). Error exits are left out. Two automata agree
when each accepts what the other does, letter by letter."""
import flow
import mir

INT = {"i8": 1, "u8": 1, "i16": 2, "u16": 2, "i32": 4, "u32": 4, "f32": 4, "i64": 8, "u64": 8, "f64": 8,
       "usize": 8, "isize": 8, "i128": 16, "u128": 16, "bool": 1}
WRAP = ("verify", "map", "map_res", "map_opt", "cut", "complete", "into", "all_consuming")


class Unknown(Exception):
    pass


class Letter:
    def __init__(self, w, where, **k):
        self.w, self.where = w, where
        self.const = k.get("const")
        self.pred = k.get("pred")
        self.tags = k.get("tags") or frozenset()
        self.delta = k.get("delta", 0)
        self.sent = k.get("sent", frozenset())
        self.consts = k.get("consts", frozenset())
        self.role = k.get("role")

    def __repr__(self):
        return "%s%s%s" % (self.w, "=%s" % self.const if self.const is not None else "",
                           "(%s)" % "/".join(sorted("/".join(sorted(x)) for x in self.tags)) if self.tags else "")


class Nfa:
    def __init__(self):
        self.eps, self.tok = {}, {}
        self.n = 0

    def new(self):
        self.n += 1
        return self.n

    def e(self, a, b):
        self.eps.setdefault(a, []).append(b)

    def t(self, a, l, b):
        self.tok.setdefault(a, []).append((l, b))

    def close(self, s):
        seen, st = set(s), list(s)
        while st:
            x = st.pop()
            for y in self.eps.get(x, []):
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return frozenset(seen)


def strip(t):
    """A value without casts and conversions: (term, cast types from the inside out)."""
    cs = []
    while True:
        if t.op == "cast":
            cs.append(t.a[0])
            t = t.a[1]
        elif t.op == "conv":
            t = t.a[2]
        elif t.op in ("clone", "deref"):
            t = t.a[0]
        elif t.op == "call" and t.a[2] in ("to_bits", "from_bits", "clone", "try_into", "try_from") and t.a[3]:
            t = t.a[3][0]
        else:
            return t, cs[::-1]


def arith(t):
    """Value with a constant offset: (term, offset)."""
    t, cs = strip(t)
    k = 0
    while t.op == "bin" and t.a[0] in ("Add", "Sub", "AddUnchecked", "SubUnchecked") and t.a[2].op == "const":
        try:
            k += (1 if t.a[0].startswith("Add") else -1) * int(t.a[2].a[1])
        except ValueError:
            break
        t, c2 = strip(t.a[1])
        cs = c2 + cs
    return t, k, cs


def leaves(F, t):
    out, seen, st = [], set(), [t]
    while st:
        x, _ = strip(st.pop())
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "phi" and F.phis.get(x.a):
            st += list(F.phis[x.a].values())
        else:
            out.append(x)
    return out


def is_result(ty):
    return ty.startswith("core::result::Result")


class Machine:
    """Builds automata for functions of one program."""

    def __init__(self, prog, ctx=None):
        self.prog = prog
        self.N = Nfa()
        self.notes = []
        self.altered = []
        self.bodies = {}

    def note(self, f, msg):
        self.notes.append((f, msg))

    # ---- common: explore the control flow
    def body(self, f, sub, reader):
        k = (f.path, tuple(sorted((sub or {}).items())), reader)
        if k not in self.bodies:
            def want(g, c, s):
                return g.crate == f.crate and g.name not in ("fmt", "drop") and not (
                    reader and g.path.split("::")[-1] in ("add_symbol",))
            b = mir.inline(self.prog, f, want, sub0=sub, closures=not reader, max_blocks=4000)
            self.bodies[k] = (b, flow.Flow(self.prog, b))
        return self.bodies[k]

    def discr_ty(self, body, F, b):
        c = F.conds.get(b)
        if c is None or c.op != "discr":
            return ""
        for s in body.bbs[b]["st"]:
            if s["s"] == "=" and s["rv"]["r"] == "discr":
                pl = s["rv"]["pl"]
                if not pl.get("p"):
                    return body.locals[pl["l"]]
        x = c.a[0]
        return x.a[4] if x.op == "call" else ""

    def succ(self, body, F, b):
        """Successors, error exits left out: [(block, (condition term, value) or None)]."""
        bb = body.bbs[b]
        for s in bb["st"]:
            if s["s"] == "=" and s["rv"]["r"] == "agg" and s["rv"].get("kind") == "adt" and s["rv"]["variant"] == "Err":
                return []
        t = bb["term"]
        if t["t"] == "call":
            c = mir.callee_of(t)
            if c and c["name"] == "from_residual":
                return []
        if t["t"] != "switch":
            return [(x, None) for x in body.succ(b)]
        ty = self.discr_ty(body, F, b)
        cut = "1" if is_result(ty) or ty.startswith("core::ops::control_flow::ControlFlow") else None
        out = []
        vals = []
        for v, to in t["targets"]:
            vals.append(v)
            if v != cut:
                out.append((to, (F.conds.get(b), (v,), True)))
        if not (cut and set(vals) == {"0"}):
            out.append((t["otherwise"], (F.conds.get(b), tuple(vals), False)))
        return out

    def where(self, f, body, b):
        st = body.bbs[b].get("stack") or (f.path,)
        return st[-1]

    # ---- writers
    def writer(self, f, sub=None):
        body, F = self.body(f, sub, False)
        N = self.N
        node = {}

        def nd(b):
            if b not in node:
                node[b] = N.new()
            return node[b]
        acc = N.new()
        todo, seen = [0], {0}
        tokens = set()
        nd(0)
        while todo:
            b = todo.pop()
            ls = self.wletters(f, body, F, b)
            src = nd(b)
            if ls:
                tokens.add(b)
                for l in ls[:-1]:
                    m = N.new()
                    N.t(src, l, m)
                    src = m
            if body.bbs[b]["term"]["t"] == "return":
                N.e(src, acc)
            for s, g in self.succ(body, F, b):
                if ls:
                    N.t(src, ls[-1], nd(s))
                else:
                    N.e(src, nd(s))
                if s not in seen:
                    seen.add(s)
                    todo.append(s)
        self.loops(f, body, F, seen, tokens)
        return nd(0), acc

    def wletters(self, f, body, F, b):
        if b not in F.calls:
            return []
        c, a = F.calls[b]
        if c is None:
            return []
        w = self.where(f, body, b)
        if c["name"] == "write_binary" and len(a) == 2:
            v = self.load(F, b, a[0])
            return [self.wletter(f, F, b, ("sub", self.subty(c)), v, w)]
        if c["name"] == "parse_binary":
            raise Unknown("reads while writing")
        if c["name"] == "write_all" and len(a) == 2:
            v = self.load(F, b, a[1])
            x, _ = strip(v)
            if x.op == "call" and x.a[2] in ("to_le_bytes", "to_be_bytes", "to_ne_bytes"):
                ty = x.a[0].split("impl ")[-1].split(">")[0] if "impl " in x.a[0] else ""
                n = INT.get(ty) or self.array_len(x.a[4])
                if n is None:
                    raise Unknown("width of %s" % x.a[0])
                kind = "" if x.a[2] == "to_le_bytes" or n == 1 else x.a[2][3:5]
                return [self.wletter(f, F, b, "%s%d" % (kind, n), x.a[3][0], w, n)]
            if x.op == "agg" and x.a[0] == "array":
                return [self.wletter(f, F, b, "1", y, w, 1) for y in x.a[3]]
            return [Letter("B", w, tags=frozenset([names(F, b, v)]))]
        if c["name"] in ("write", "write_fmt", "write_vectored") and "io::" in str(c.get("trait", "")) + str(c.get("def", "")):
            raise Unknown("writes through %s" % c["name"])
        return []

    def array_len(self, ty):
        try:
            return int(ty.rsplit(";", 1)[1].strip(" ]").split("_")[0])
        except Exception:
            return None

    def subty(self, c):
        s = c.get("self") or (c.get("args") or ["?"])[0]
        return mir.strip_refs(s).split("::")[-1]

    def load(self, F, b, t):
        st = F.state_at_term(b)
        n = 0
        while t.op == "ref" and n < 6:
            try:
                t = F.read(st, t.a[0], t.a[1])
            except Exception:
                break
            n += 1
        return t

    def wletter(self, f, F, b, w, v, where, n=None):
        x, k, cs = arith(v)
        if n:
            inner = cs[:-1]
            for i, c in enumerate(inner):
                bits = INT.get(c)
                if bits and bits < n and (bits < 4 or wide(x)):
                    self.note(where, "squeezes a value through %s before writing %d bytes of it" % (c, n))
        lv = leaves(F, x) if x.op == "phi" else [x]
        st, sn = list(lv), set()
        while st:
            y = st.pop()
            while y.op == "cast":
                y = y.a[1]
            if y.id in sn:
                continue
            sn.add(y.id)
            if y.op == "bin" and y.a[0] == "BitOr":
                st += [z for z in y.a[1:]]
            elif y.op == "bin" and y.a[0] in LOSSY and names(F, b, y):
                self.altered.append((where, "writes a value altered by %s" % y.a[0]))
        const = x.a[1] if x.op == "const" and "?" not in x.a[1] else None
        return Letter(w, where, const=const, tags=frozenset([names(F, b, v)]), delta=k,
                      consts=frozenset(y.a[1] for y in lv if y.op == "const") if len(lv) > 1 else frozenset(),
                      sent=self.sentinels(F, b, v) if isinstance(w, tuple) else frozenset())

    def sentinels(self, F, b, v):
        return frozenset(y.a[2] for y in flow.reach_terms(F, b, v) if y.op == "call" and y.a[2] in ("zero", "one")
                         and "Semiring" in y.a[0])

    def loops(self, f, body, F, seen, tokens):
        """Every iteration of a loop that writes writes something, and the loop starts at the beginning."""
        idom = body.dominators()
        heads = {}
        for b in seen:
            for s, g in self.succ(body, F, b):
                if s in seen and flow.dominated(idom, s, b):
                    heads.setdefault(s, set()).add(b)
        preds = body.preds()
        for h, backs in heads.items():
            loop, st = {h}, list(backs)
            while st:
                x = st.pop()
                if x in loop or x not in seen:
                    continue
                loop.add(x)
                st += preds[x]
            if not loop & tokens:
                continue
            where = self.where(f, body, min(loop & tokens))
            # a way round without writing
            todo, vis = [h], set()
            bad = False
            while todo:
                x = todo.pop()
                if x in vis or x in tokens:
                    continue
                vis.add(x)
                for s, g in self.succ(body, F, x):
                    if s == h and x in loop:
                        bad = True
                    elif s in loop:
                        todo.append(s)
            if bad:
                self.note(where, "can leave an item of a counted sequence out")
            for b in loop:
                c, a = F.calls.get(b, (None, ()))
                if c and c["name"] == "next" and a and innermost(heads, preds, seen, b, h, loop):
                    it = self.load(F, b, a[0])
                    for y in flow.reach_terms(F, b, it):
                        if y.op == "call" and y.a[2] in ("skip", "take", "filter", "step_by", "skip_while", "take_while", "filter_map",
                                                         "rev", "map_while"):
                            if "iter" in y.a[0].lower():
                                self.note(where, "does not go through a counted sequence from end to end (%s)" % y.a[2])
                        if y.op == "agg" and str(y.a[0]).endswith("::Range") and y.a[3][0].op == "const" and y.a[3][0].a[1] != "0":
                            self.note(where, "starts a counted sequence at %s" % y.a[3][0].a[1])
                        if y.op == "agg" and str(y.a[0]).endswith("::Range") and arith(y.a[3][1])[1] != 0:
                            self.note(where, "ends a counted sequence off by %d" % arith(y.a[3][1])[1])

    # ---- readers
    def reader(self, f, sub=None, stack=()):
        if f.path in stack:
            raise Unknown("recursive format")
        body, F = self.body(f, sub, True)
        N = self.N
        kinds = {}
        for b in F.calls:
            k = self.rkind(F, b)
            if k:
                kinds[b] = k
        tested = self.tested(F, kinds)
        tags, cmp_, roles = self.dests(f, body, F, kinds)
        self.threading(f, body, F, kinds)
        node = {}
        acc = N.new()

        def nd(s):
            if s not in node:
                node[s] = N.new()
                todo.append(s)
            return node[s]
        todo = []
        nd((0, frozenset()))
        n = 0
        while todo:
            n += 1
            if n > 20000:
                raise Unknown("too many cases in the reader")
            s = todo.pop()
            b, env = s
            src = node[s]
            if body.bbs[b]["term"]["t"] == "return":
                N.e(src, acc)
            nxt = self.succ(body, F, b)
            if b in kinds:
                outs = self.rtoken(f, body, F, b, kinds[b], src, tested.get(b, set()), tags.get(b), cmp_.get(b), roles.get(b), stack)
                for end, choice in outs:
                    e2 = frozenset(x for x in env if x[0] != b)
                    if choice is not None:
                        e2 |= {(b, choice)}
                    for x, g in nxt:
                        N.e(end, nd((x, e2)))
                continue
            for x, g in nxt:
                if g and not self.possible(F, kinds, env, g):
                    continue
                N.e(src, nd((x, env)))
        return node[(0, frozenset())], acc

    def rkind(self, F, b):
        """The parser a call runs: ('prim', width) | ('sub', type) | ('comb', term) | None; with its input."""
        c, a = F.calls[b]
        if c is None:
            return None
        d = c.get("res") or c["def"]
        if d.startswith("nom::number::") and len(a) == 1:
            return prim(c["name"])
        if c["name"] == "parse_binary" and len(a) == 1:
            return ("sub", self.subty(c))
        if c["name"] in ("call_mut", "call", "call_once", "parse") and len(a) == 2:
            p = self.load(F, b, a[0])
            if p.op in ("call", "fnref", "agg"):
                return ("comb", p)
            x = p
            while x.op == "mut":
                x = x.a[2]
            if x.op in ("call", "fnref", "agg"):
                return ("comb", x)
        return None

    def res(self, F, b):
        """Term of the parse result of block b."""
        c, a = F.calls[b]
        d = c.get("res") or c["def"]
        st = F.out.get(b)
        return [t for t in flow_terms(F) if t.op == "call" and t.a[1] == b]

    def inputs(self, F, b):
        c, a = F.calls[b]
        x = a[-1]
        if x.op == "agg" and x.a[0] == "tuple" and len(x.a[3]) == 1:
            x = x.a[3][0]
        return x

    def threading(self, f, body, F, kinds):
        """Each parser starts where the one before it stopped."""
        preds = body.preds()
        ok = set()
        st = [0]
        while st:
            b = st.pop()
            if b in ok:
                continue
            ok.add(b)
            st += [x for x, g in self.succ(body, F, b)]
        for b in kinds:
            if b not in ok:
                continue
            prev, seen, entry = set(), set(), b == 0
            st = [p for p in preds[b] if p in ok]
            while st:
                p = st.pop()
                if p in seen:
                    continue
                seen.add(p)
                if p in kinds:
                    prev.add(p)
                    continue
                if p == 0:
                    entry = True
                st += [q for q in preds[p] if q in ok]
            src = set()
            for x in leaves(F, self.inputs(F, b)):
                o = rest_of(x)
                src.add(o)
            if None in src:
                continue
            want = set(prev) | ({0} if entry else set())
            if src - want - {"p"} or ("p" in src and not entry):
                self.note(self.where(f, body, b), "parses from a position other than where the previous field ended")

    def tested(self, F, kinds):
        out = {}
        for b, c in F.conds.items():
            for tb, v in self.tests(F, kinds, c):
                if v is not None:
                    out.setdefault(tb, set()).add(v)
            t = F.body.bbs[b]["term"]
            tb = self.direct(kinds, c)
            if tb is not None:
                out.setdefault(tb, set()).update(v for v, to in t["targets"])
        return out

    def direct(self, kinds, c):
        x, _ = strip(c)
        b = value_of(x)
        return b if b in kinds and kinds[b][0] == "prim" else None

    def tests(self, F, kinds, c):
        if c is not None and c.op == "bin" and c.a[0] in ("Eq", "Ne"):
            for x, y in ((c.a[1], c.a[2]), (c.a[2], c.a[1])):
                b = value_of(strip(x)[0])
                if b in kinds and kinds[b][0] == "prim" and y.op == "const":
                    return [(b, y.a[1])]
        if c is not None and c.op == "un" and c.a[0] == "Not":
            return self.tests(F, kinds, c.a[1])
        return []

    def possible(self, F, kinds, env, g):
        c, vals, eq = g
        if c is None:
            return True
        neg = False
        while c.op == "un" and c.a[0] == "Not":
            c, neg = c.a[1], not neg
        ts = self.tests(F, kinds, c)
        if ts:
            tb, v = ts[0]
            ch = dict(env).get(tb)
            if ch is None:
                return True
            truth = (ch == v) == (c.a[0] == "Eq")
            truth = truth != neg
            val = "1" if truth else "0"
            return (val in vals) == eq
        tb = self.direct(kinds, c)
        if tb is not None:
            ch = dict(env).get(tb)
            if ch is None:
                return True
            if ch == "*":
                return not eq
            return (ch in vals) == eq
        return True

    def rtoken(self, f, body, F, b, kind, src, consts, tags, cmp_, role, stack):
        N = self.N
        w = self.where(f, body, b)
        k = {"tags": frozenset(tags or ()), "sent": frozenset(cmp_ or ()), "role": role and role[0], "delta": role[1] if role else 0}
        if kind[0] in ("prim", "sub"):
            wd = kind[1] if kind[0] == "prim" else kind
            if not consts:
                m = N.new()
                N.t(src, Letter(wd, w, **k), m)
                return [(m, None)]
            outs = []
            k["consts"] = frozenset(consts)
            for v in sorted(consts):
                m = N.new()
                N.t(src, Letter(wd, w, pred=("=", v), **k), m)
                outs.append((m, v))
            m = N.new()
            N.t(src, Letter(wd, w, pred=("!", frozenset(consts)), **k), m)
            outs.append((m, "*"))
            return outs
        return [(self.comb(F, b, kind[1], src, w, k, stack), None)]

    def comb(self, F, b, p, src, w, k, stack):
        N = self.N
        p = self.load(F, b, p)
        while p.op == "mut":
            p = p.a[2]
        if p.op == "fnref":
            path = p.a[0]
            name = path.split("::")[-1].split("<")[0]
            if path.startswith("nom::number::") or "nom::number::" in path:
                m = N.new()
                pr = prim(name)
                if not pr:
                    raise Unknown("parser " + path)
                N.t(src, Letter(pr[1], w, **k), m)
                return m
            rec = flow.FNREC.get(p.a[1])
            r = self.prog.resolve(rec) if rec else None
            if r is not None and r[0].bbs:
                s, a = self.reader(r[0], r[1], stack + (F.body.fn.path,))
                N.e(src, s)
                return a
            if name == "parse_binary" and rec:
                m = N.new()
                N.t(src, Letter(("sub", self.subty(rec)), w, **k), m)
                return m
            raise Unknown("parser " + path)
        if p.op == "agg" and str(p.a[0]).startswith("closure:"):
            g = self.prog.fns.get(p.a[0][8:])
            if g:
                s, a = self.reader(g, None, stack + (F.body.fn.path,))
                N.e(src, s)
                return a
        if p.op == "call":
            n, a = p.a[2], p.a[3]
            if n in WRAP and a:
                return self.comb(F, b, a[0], src, w, k, stack)
            if n in ("count", "many0", "many1"):
                return self.star(F, b, a[0], src, w, stack)
            if n in ("fold_many_m_n", "many_m_n"):
                if strip(a[0])[0] is not strip(a[1])[0]:
                    self.note(w, "reads between %s and %s items" % (flow.show(a[0], 3), flow.show(a[1], 3)))
                return self.star(F, b, a[2], src, w, stack)
            if n == "take":
                if not self.used(F, b):
                    return src
                m = N.new()
                N.t(src, Letter("B", w, **k), m)
                return m
            if n in ("tuple", "pair") and a:
                ps = a[0].a[3] if n == "tuple" and a[0].op == "agg" else a
                for x in ps:
                    src = self.comb(F, b, x, src, w, {}, stack)
                return src
        raise Unknown("parser %s" % flow.show(p, 3))

    def used(self, F, b):
        for t in flow_terms(F):
            if value_of(t) == b:
                return True
        return False

    def star(self, F, b, p, src, w, stack):
        N = self.N
        h = N.new()
        N.e(src, h)
        e = self.comb(F, b, p, h, w, {}, stack)
        N.e(e, h)
        return h

    def dests(self, f, body, F, kinds):
        """Where each parsed value goes: component paths of the result; and what it is compared with."""
        tags, cmp_, roles = {}, {}, {}
        for rb, rt in F.rets.items():
            for x in leaves(F, rt):
                if x.op == "agg" and x.a[1] == "Ok":
                    y = x.a[3][0]
                    if y.op == "agg" and y.a[0] == "tuple" and len(y.a[3]) == 2:
                        y = y.a[3][1]
                    self.walk(F, rb, y, (), tags, kinds, set())
        for b, (c, a) in F.calls.items():
            if c and c["name"] in ("eq", "ne") and len(a) == 2:
                vs = [self.load(F, b, x) for x in a]
                for x, y in (vs, vs[::-1]):
                    tb = value_of(strip(x)[0])
                    if tb in kinds:
                        for z in leaves(F, y):
                            if z.op == "call" and z.a[2] in ("zero", "one"):
                                cmp_.setdefault(tb, set()).add(z.a[2])
            if c and c["name"] in ("count", "fold_many_m_n", "take", "many_m_n") and a:
                for x in a:
                    y, k, cs = arith(x)
                    tb = value_of(y)
                    if tb in kinds:
                        roles[tb] = ("count", k)
        return tags, cmp_, roles

    def walk(self, F, rb, t, path, tags, kinds, seen):
        if (t.id, path) in seen or len(seen) > 4000:
            return
        seen.add((t.id, path))
        x, cs = strip(t)
        b = value_of(x)
        if b is not None and b in kinds:
            named = alias(y for y in path if not y.isdigit())
            if named:
                tags.setdefault(b, set()).add(named)
            w = kinds[b][1] if kinds[b][0] == "prim" else None
            for c in cs[:-1]:
                bits = INT.get(c)
                if w and bits and bits < min(int(w), 4):
                    self.note(F.body.fn.path, "squeezes a field of %s bytes through %s" % (w, c))
            return
        if x.op == "agg":
            for fn, y in zip(x.a[2], x.a[3]):
                self.walk(F, rb, y, path + (fn,), tags, kinds, seen)
        elif x.op == "phi":
            for y in F.phis.get(x.a, {}).values():
                self.walk(F, rb, y, path, tags, kinds, seen)
        elif x.op == "call":
            if x.a[2] in ("new", "from_bits_truncate", "map", "from_bits", "parse_final_weight", "collect", "into_iter", "unwrap_or",
                          "from_bits_retain", "some"):
                for y in x.a[3]:
                    self.walk(F, rb, y, path, tags, kinds, seen)
        elif x.op in ("vf", "field"):
            ys = project(F, x)
            if ys is not None:
                for y in ys:
                    self.walk(F, rb, y, path, tags, kinds, seen)
            else:
                self.walk(F, rb, x.a[0], path, tags, kinds, seen)
        elif x.op == "bin" and x.a[0] == "BitAnd" and any(flag_mask(F, rb, y) for y in x.a[1:]):
            for y in x.a[1:]:
                if not flag_mask(F, rb, y):
                    self.walk(F, rb, y, path, tags, kinds, seen)
        elif x.op == "bin" and x.a[0] in LOSSY:
            sub = {}
            for y in x.a[1:]:
                self.walk(F, rb, y, path, sub, kinds, seen)
            if sub:
                self.altered.append((F.body.fn.path, "alters a value it read (%s)" % x.a[0]))
        elif x.op in ("box", "mut", "upd"):
            for y in x.a:
                if isinstance(y, flow.T):
                    self.walk(F, rb, y, path, tags, kinds, seen)


def flag_mask(F, rb, t):
    """The mask of every flag a bitflags type declares (what `from_bits_truncate` keeps)."""
    return any("Flags::FLAGS" in flow.show(y) for y in flow.reach_terms(F, rb, t) if y.op == "const")


LOSSY = ("BitAnd", "BitXor", "Shl", "Shr", "Rem", "Div", "Mul", "ShlUnchecked", "ShrUnchecked")


def project(F, x, depth=0):
    """The values a component of a joined value can have, or None if there is no join under it."""
    if depth > 12:
        return None
    if x.op == "phi":
        return list(F.phis.get(x.a, {}).values()) or None
    if x.op == "field" and isinstance(x.a[0], flow.T):
        ys = project(F, x.a[0], depth + 1)
        return ys and [z for y in ys if y is not x for z in [flow.read_key(y, x.a[1])]]
    if x.op == "vf" and isinstance(x.a[0], flow.T):
        ys = project(F, x.a[0], depth + 1)
        return ys and [flow.vfield(y, x.a[1], x.a[2]) for y in ys if not (y.op == "agg" and y.a[1] and y.a[1] != x.a[1])]
    return None


def wide(x):
    return x.op == "call" and x.a[2] in ("len", "sum", "count", "num_states", "num_trs")


def innermost(heads, preds, seen, b, h, loop):
    return b == h or True


def prim(name):
    for e in ("le_", "be_", "ne_"):
        if name.startswith(e) and name[3:] in INT:
            n = INT[name[3:]]
            return ("prim", "%s%d" % ("" if e == "le_" or n == 1 else e[:2], n))
    if name in ("u8", "i8"):
        return ("prim", "1")
    return None


def value_of(t):
    """b if t is the parsed value of the parse at block b (or part of it)."""
    n = 0
    while n < 12:
        n += 1
        if t.op == "field" and t.a[0].op == "vf" and t.a[0].a[1] == "Ok" and t.a[1] == "1" and t.a[0].a[0].op == "call":
            return t.a[0].a[0].a[1]
        if t.op in ("field", "vf", "deref", "clone", "ref") and isinstance(t.a[0], flow.T):
            t = t.a[0]
            continue
        return None
    return None


def rest_of(t):
    if t.op == "param":
        return "p"
    if t.op == "field" and t.a[1] == "0" and t.a[0].op == "vf" and t.a[0].a[1] == "Ok" and t.a[0].a[0].op == "call":
        return t.a[0].a[0].a[1]
    if t.op in ("ref", "deref", "field"):
        return "p" if any(x.op == "param" for x in flow.subterms(t)) and not any(x.op == "call" for x in flow.subterms(t)) else None
    return None


_ft = {}


def flow_terms(F):
    if id(F) not in _ft:
        s = {}
        for b, (c, a) in F.calls.items():
            for x in a:
                for y in flow.subterms(x, F.phis):
                    s[y.id] = y
        for r in F.rets.values():
            for y in flow.subterms(r, F.phis):
                s[y.id] = y
        for c in F.conds.values():
            for y in flow.subterms(c, F.phis):
                s[y.id] = y
        _ft[id(F)] = (F, list(s.values()))
    return _ft[id(F)][1]


ALIAS = {"start": "start_state"}


def alias(ns):
    return frozenset(ALIAS.get(x, x) for x in ns)


def names(F, b, v):
    """Named components a written value is taken from."""
    out = set()
    seen = set()
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, flow.T) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "field" and isinstance(x.a[1], str) and not x.a[1].isdigit() and x.a[1] != "deref":
            out.add(x.a[1])
        if x.op == "ref":
            if isinstance(x.a[0], int):
                try:
                    y = F.read(F.state_at_term(b), x.a[0], x.a[1])
                    st.append(y)
                except Exception:
                    pass
            else:
                st.append(x.a[0][1])
            out.update(k for k in x.a[1] if isinstance(k, str) and not k.isdigit() and k != "deref")
            continue
        if x.op == "phi":
            st.extend(F.phis.get(x.a, {}).values())
        if x.op == "call" and x.a[2] == "next":
            continue
        for a in x.a:
            if isinstance(a, (flow.T, tuple)):
                st.append(a)
    return alias(out)


# ---- comparing
def compat(w, r, tags=True):
    if w.w != r.w:
        return False
    if w.const is not None and r.pred:
        if r.pred[0] == "=" and r.pred[1] != w.const:
            return False
        if r.pred[0] == "!" and w.const in r.pred[1]:
            return False
    if not tags:
        return True
    if w.delta + r.delta != 0:
        return False
    if w.consts and r.consts and not w.consts & r.consts:
        return False
    if isinstance(w.w, tuple) and w.sent != r.sent:
        return False
    wt = [x for x in w.tags if x]
    if wt and r.tags and not all(any(a <= b or b <= a for a in wt) for b in r.tags):
        return False
    return True


def included(N, a, b, tags=True, flip=False):
    """None if every sequence of a = (start, accept) is one of b, else (path of letters, the letter that fails or None)."""
    sa = N.close([a[0]])
    start = (sa, N.close([b[0]]))
    seen = {start}
    todo = [(start, ())]
    while todo:
        (A, B), path = todo.pop(0)
        if a[1] in A and b[1] not in B:
            return path, None
        groups = {}
        for x in A:
            for l, y in N.tok.get(x, []):
                groups.setdefault(id(l), (l, set()))[1].add(y)
        for l, ys in groups.values():
            nb = set()
            for x in B:
                for m, y in N.tok.get(x, []):
                    if compat(m, l, tags) if flip else compat(l, m, tags):
                        nb.add(y)
            if not nb:
                return path, l
            s = (N.close(ys), N.close(nb))
            if s not in seen:
                seen.add(s)
                if len(seen) > 20000:
                    raise Unknown("too many cases")
                todo.append((s, path + (l,)))
    return None


def spec(N, s):
    """A format written as nested lists: '4', 'B', ('W',), ['*', ...], ['?', ...]."""
    def seq(items, src):
        for it in items:
            if isinstance(it, list) and it[0] == "*":
                h = N.new()
                N.e(src, h)
                N.e(seq(it[1:], h), h)
                src = h
            elif isinstance(it, list) and it[0] == "?":
                e = N.new()
                N.e(src, e)
                N.e(seq(it[1:], src), e)
                src = e
            elif isinstance(it, list):
                src = seq(it, src)
            else:
                m = N.new()
                N.t(src, Letter(("sub", it[0]) if isinstance(it, tuple) else it, "OpenFst"), m)
                src = m
        return src
    a = N.new()
    return a, seq(s, a)
