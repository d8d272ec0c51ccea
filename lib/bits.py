"""Guarded gen/kill analysis of property words: every bit of an FstProperties value is described by a
boolean function (a reduced ordered decision diagram) of the bits of the incoming words and of the
branch conditions that guard its being set or cleared. Joins are gated by the branch conditions, loop
headers introduce unknowns, so the analysis is one pass over the value-flow graph; nothing is executed
and no solver is asked. Two descriptions are compared by comparing the diagrams."""
import flow
import mir
from flow import mk

NAMES = ["ACCEPTOR", "NOT_ACCEPTOR", "I_DETERMINISTIC", "NOT_I_DETERMINISTIC", "O_DETERMINISTIC", "NOT_O_DETERMINISTIC",
         "EPSILONS", "NO_EPSILONS", "I_EPSILONS", "NO_I_EPSILONS", "O_EPSILONS", "NO_O_EPSILONS",
         "I_LABEL_SORTED", "NOT_I_LABEL_SORTED", "O_LABEL_SORTED", "NOT_O_LABEL_SORTED", "WEIGHTED", "UNWEIGHTED",
         "CYCLIC", "ACYCLIC", "INITIAL_CYCLIC", "INITIAL_ACYCLIC", "TOP_SORTED", "NOT_TOP_SORTED",
         "ACCESSIBLE", "NOT_ACCESSIBLE", "COACCESSIBLE", "NOT_COACCESSIBLE", "STRING", "NOT_STRING",
         "WEIGHTED_CYCLES", "UNWEIGHTED_CYCLES"]
POS = {n: 16 + i for i, n in enumerate(NAMES)}
PTY = "rustfst::fst_properties::properties::FstProperties"


class Bdd:
    """Reduced ordered decision diagrams; 0 and 1 are the constants."""

    def __init__(self):
        self.nodes = [None, None]
        self.tab = {}
        self.order = {}
        self.names = {}
        self.memo = {}

    def node(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.tab.get(k)
        if n is None:
            n = len(self.nodes)
            self.nodes.append(k)
            self.tab[k] = n
        return n

    def var(self, name):
        if name not in self.order:
            # corresponding bits of different words lie next to each other in the order
            tail = name.rsplit("#", 1)[-1] if "#" in name else name.rsplit(":", 1)[-1]
            k = (POS.get(tail, -1) // 2 * 2, len(self.names))
            self.order[name] = k
            self.names[k] = name
        return self.node(self.order[name], 0, 1)

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None:
            return r
        v = min(self.nodes[x][0] for x in k if x > 1)

        def co(x, b):
            if x > 1 and self.nodes[x][0] == v:
                return self.nodes[x][2 if b else 1]
            return x
        lo = self.ite(co(f, 0), co(g, 0), co(h, 0))
        hi = self.ite(co(f, 1), co(g, 1), co(h, 1))
        r = self.node(v, lo, hi)
        self.memo[k] = r
        return r

    def AND(self, *xs):
        r = 1
        for x in xs:
            r = self.ite(r, x, 0)
        return r

    def OR(self, *xs):
        r = 0
        for x in xs:
            r = self.ite(r, 1, x)
        return r

    def NOT(self, x):
        return self.ite(x, 0, 1)

    def IMP(self, a, b):
        return self.ite(a, b, 1)

    def EQV(self, a, b):
        return self.ite(a, b, self.NOT(b))

    def restrict(self, f, name, val):
        """f with the variable fixed."""
        if name not in self.order:
            return f
        v = self.order[name]
        memo = {}

        def go(x):
            if x < 2:
                return x
            w, lo, hi = self.nodes[x]
            if w == v:
                return hi if val else lo
            if w > v:
                return x
            if x not in memo:
                memo[x] = self.node(w, go(lo), go(hi))
            return memo[x]
        return go(f)

    def support(self, f):
        out, seen, st = set(), set(), [f]
        while st:
            x = st.pop()
            if x < 2 or x in seen:
                continue
            seen.add(x)
            v, lo, hi = self.nodes[x]
            out.add(self.names[v])
            st += [lo, hi]
        return out

    def example(self, f):
        """One assignment making f true, for reports."""
        out = []
        while f > 1:
            v, lo, hi = self.nodes[f]
            if hi != 0:
                out.append(self.names[v])
                f = hi
            else:
                out.append("!" + self.names[v])
                f = lo
        return out


ZERO = (0,) * 64


class Bits:
    def __init__(self, prog, body, rename=None, bdd=None, F=None, span=(16, 48)):
        """rename(term) -> name or None gives roles to terms that appear in conditions."""
        self.prog, self.body = prog, body
        self.F = F or flow.Flow(prog, body)
        self.d = bdd or Bdd()
        self.span = span
        self.rename = rename or (lambda t: None)
        self._vec = {}
        self._bool = {}
        self._st = {}
        self.headers = set()
        self.back = set()
        idom = body.dominators()
        for b in body.reachable():
            for s in body.succ(b):
                if dominates(idom, s, b):
                    self.headers.add(s)
                    self.back.add((b, s))
        self.rc = {}
        self.ec = {}
        self._reach()

    # -- reach conditions
    def _reach(self):
        d = self.d
        preds = self.body.preds()
        for b in self.body.rpo():
            if b == 0:
                self.rc[b] = 1
            else:
                r = 0
                for p in preds[b]:
                    if (p, b) in self.back or p not in self.rc:
                        continue
                    r = d.OR(r, d.AND(self.rc[p], self.edge(p, b)))
                self.rc[b] = r

    def edge(self, p, b):
        k = (p, b)
        if k not in self.ec:
            self.ec[k] = self._edge(p, b)
        return self.ec[k]

    def _edge(self, p, b):
        t = self.body.bbs[p]["term"]
        d = self.d
        if t["t"] != "switch" or p not in self.F.conds:
            return 1
        c = self.F.conds[p]
        r, rest = 0, 1
        for val, to in t["targets"]:
            x = self.is_val(c, t, val)
            if to == b:
                r = d.OR(r, d.AND(rest, x))
            rest = d.AND(rest, d.NOT(x))
        if t["otherwise"] == b:
            r = d.OR(r, rest)
        return r

    def is_val(self, c, t, val):
        d = self.d
        if t.get("opty") == "bool" or self.ty_bool(t):
            x = self.boolean(c)
            return d.NOT(x) if val == "0" else x
        if c.op == "discr":
            return self.variant(c.a[0], val)
        return d.var("%s==%s" % (self.name(c), val))

    def ty_bool(self, t):
        o = t["op"]
        return o["k"] in ("copy", "move") and not o["pl"].get("p") and self.body.locals[o["pl"]["l"]] == "bool"

    def variant(self, x, val):
        """Is the enum-valued term the variant with this discriminant?"""
        d = self.d
        if x.op == "agg" and x.a[1]:
            v = x.a[1]
            idx = {"None": "0", "Some": "1", "Ok": "0", "Err": "1", "Continue": "0", "Break": "1"}.get(v)
            if idx is None:
                a = self.prog.adts.get(x.a[0])
                idx = next((str(y.get("discr", i)) for i, y in enumerate(a["variants"]) if y["name"] == v), None) if a else None
            if idx is not None:
                return 1 if idx == val else 0
        if x.op == "upd" and isinstance(x.a[1], tuple) and x.a[1][0] == "v":
            return self.variant(x.a[0], val)
        if x.op == "phi":
            r = self.gated(x, lambda y: self.variant(y, val))
            if r is not None:
                return r
        if x.op == "call" and x.a[2] == "from_residual":
            opt = len(x.a) > 4 and x.a[4].startswith("core::option::Option")
            return 1 if val == ("0" if opt else "1") else 0
        if x.op == "call" and x.a[2] == "branch" and "Try" in x.a[0]:
            y = x.a[3][0]
            ty = y.a[4] if y.op == "call" and len(y.a) > 4 else ""
            if "Option" in ty:
                return d.NOT(self.variant(y, val))
            return self.variant(y, val)
        if x.op == "call" and x.a[2] in ("as_ref", "as_mut", "as_deref", "copied", "cloned") and x.a[3]:
            return self.variant(self.at(x.a[1], x.a[3][0]), val)
        if x.op == "call" and x.a[2] in ("ok_or", "ok_or_else") and x.a[3]:
            return d.NOT(self.variant(x.a[3][0], val))
        n = self.name(x)
        # two-valued enums share one atom
        if val in ("0", "1") and self.two(x):
            v = d.var("is1(%s)" % n)
            return v if val == "1" else d.NOT(v)
        return d.var("is%s(%s)" % (val, n))

    def two(self, x):
        return True

    # -- reading memory
    def state(self, b):
        if b not in self._st:
            self._st[b] = self.F.state_at_term(b)
        return self._st[b]

    def at(self, b, t):
        """The value a reference points to when block b's terminator runs."""
        if t.op == "ref":
            return self.F.read(self.state(b), t.a[0], t.a[1])
        if t.op == "promoted":
            return t
        return self.F.get_cell(self.state(b), ("m", t))

    def gated(self, x, f):
        b, key = x.a
        if b in self.headers or b not in self.rc:
            return None
        ins = self.F.phis.get((b, key))
        if not ins:
            return None
        d = self.d
        r = 0
        for p, v in ins.items():
            if (p, b) in self.back:
                return None
            if p not in self.rc:
                continue
            r = d.OR(r, d.AND(self.rc[p], self.edge(p, b), f(v)))
        return r

    # -- booleans
    def boolean(self, t):
        k = t.id
        if k not in self._bool:
            self._bool[k] = None
            self._bool[k] = self._boolean(t)
        r = self._bool[k]
        return self.d.var("cyc:%d" % k) if r is None else r

    def _boolean(self, t):
        d = self.d
        if t.op == "const":
            return 1 if t.a[1] in ("1", "true") else 0 if t.a[1] in ("0", "false") else d.var(self.name(t))
        if t.op == "un" and t.a[0] == "Not":
            return d.NOT(self.boolean(t.a[1]))
        if t.op == "phi":
            r = self.gated(t, self.boolean)
            if r is not None:
                return r
        if t.op == "bin":
            op, a, b = t.a
            if op == "BitAnd":
                return d.AND(self.boolean(a), self.boolean(b))
            if op == "BitOr":
                return d.OR(self.boolean(a), self.boolean(b))
            if op in ("BitXor",):
                return d.NOT(d.EQV(self.boolean(a), self.boolean(b)))
            if self.is_vec(a) or self.is_vec(b):
                if op in ("Eq", "Ne"):
                    x = self.eqv(self.vec(a), self.vec(b))
                    return x if op == "Eq" else d.NOT(x)
            if a.op == "discr" and b.op == "const" and op in ("Eq", "Ne"):
                x = self.variant(a.a[0], b.a[1])
                return x if op == "Eq" else d.NOT(x)
            return self.compare(op, self.name(a), self.name(b))
        if t.op == "mut":
            c, args = self.F.calls.get(t.a[0], (None, ()))
            n = c["name"] if c else ""
            if n in ("bitand_assign", "bitor_assign") and t.a[1] == 0:
                a, b = self.boolean(t.a[2]), self.boolean(args[1])
                return d.AND(a, b) if n == "bitand_assign" else d.OR(a, b)
        if t.op == "call":
            full, b, n, args = t.a[:4]
            if PTY in full or (args and self.is_vec(self.at(b, args[0]) if args[0].op in ("ref", "promoted") else args[0])):
                v = [self.vec(self.at(b, x) if x.op == "ref" or x.op == "promoted" else x) for x in args]
                if n == "contains":
                    return d.AND(*[d.IMP(y, x) for x, y in zip(*v)])
                if n == "intersects":
                    return d.OR(*[d.AND(x, y) for x, y in zip(*v)])
                if n == "is_empty":
                    return d.NOT(d.OR(*v[0]))
                if n == "is_all":
                    return d.AND(*[v[0][i] for i in POS.values()])
                if n in ("eq", "ne") and len(v) == 2:
                    x = self.eqv(v[0], v[1])
                    return x if n == "eq" else d.NOT(x)
            if n in ("is_some", "is_ok", "is_none", "is_err") and args:
                y = self.at(b, args[0]) if args[0].op == "ref" else mk("deref", args[0])
                one = {"is_some": "1", "is_none": "0", "is_ok": "0", "is_err": "1"}[n]
                return self.variant(y, one)
            if n in ("eq", "ne", "lt", "gt", "le", "ge") and len(args) == 2:
                a, c = (self.name(self.at(b, x) if x.op == "ref" else x) for x in args)
                return self.compare({"eq": "Eq", "ne": "Ne", "lt": "Lt", "gt": "Gt", "le": "Le", "ge": "Ge"}[n], a, c)
            if args:
                return d.var("%s(%s)" % (n, ",".join(self.name(self.at(b, x) if x.op == "ref" else x) for x in args)))
        return d.var(self.name(t))

    def compare(self, op, a, b):
        d = self.d
        if op == "Gt":
            op, a, b = "Lt", b, a
        elif op == "Ge":
            op, a, b = "Le", b, a
        if op in ("Eq", "Ne"):
            a, b = sorted((a, b))
            x = d.var("%s==%s" % (a, b))
            return x if op == "Eq" else d.NOT(x)
        if op == "Lt":
            if a.isdigit():
                return d.NOT(d.var("%s<%d" % (b, int(a) + 1)))
            return d.var("%s<%s" % (a, b))
        if op == "Le":
            if b.isdigit():
                return d.var("%s<%d" % (a, int(b) + 1))
            return d.NOT(d.var("%s<%s" % (b, a)))
        return d.var("%s %s %s" % (op, a, b))

    def eqv(self, x, y):
        return self.d.AND(*[self.d.EQV(a, b) for a, b in zip(x, y)])

    # -- property words
    def is_vec(self, t, seen=()):
        if t.id in seen or len(seen) > 40:
            return False
        seen = seen + (t.id,)
        if t.op == "const":
            return t.a[0] == PTY or (t.a[0] == "u64" and t.id in self._vec)
        if t.op == "call" and len(t.a) > 4 and t.a[4] == PTY:
            return True
        if t.op == "call" and t.a[2] in ("bits",) and "properties" in t.a[0]:
            return True
        if t.op in ("field", "clone", "deref") and isinstance(t.a[0], flow.T) and t.a[0].op != "param":
            return t.op != "deref" and self.is_vec(t.a[0], seen)
        if t.op == "param":
            return mir.strip_refs(self.body.locals[t.a[0]]) == PTY
        if t.op == "mut":
            return self.is_vec(t.a[2], seen)
        if t.op == "phi":
            return any(self.is_vec(x, seen) for x in self.F.phis.get((t.a[0], t.a[1]), {}).values() if x.op != "phi")
        return False

    def vec(self, t):
        k = t.id
        if k not in self._vec:
            self._vec[k] = None
            self._vec[k] = self._word(t)
        r = self._vec[k]
        return r if r is not None else self.unknown(t)

    def unknown(self, t):
        n = self.name(t)
        lo, hi = self.span
        return tuple(self.d.var("%s#%s" % (n, NAMES[i - 16] if 16 <= i < 48 else i)) if lo <= i < hi else 0 for i in range(64))

    def const(self, bits):
        v = int(bits)
        return tuple((v >> i) & 1 for i in range(64))

    def _word(self, t):
        d = self.d
        if t.op == "const":
            try:
                return self.const(t.a[1])
            except ValueError:
                return self.unknown(t)
        if t.op == "promoted":
            v = self.promoted(t)
            if v is not None:
                return v
        if t.op == "clone":
            return self.vec(t.a[0])
        if t.op == "agg" and t.a[0] in (PTY,) or (t.op == "agg" and len(t.a[3]) == 1 and "InternalBitFlags" in t.a[0]):
            return self.vec(t.a[3][0])
        if t.op == "field" and t.a[1] == "0":
            return self.vec(t.a[0])
        if t.op == "phi":
            b, key = t.a
            ins = self.F.phis.get((b, key))
            if b in self.headers or not ins or b not in self.rc:
                return self.unknown(t)
            out = list(ZERO)
            for p, v in ins.items():
                if (p, b) in self.back:
                    return self.unknown(t)
                if p not in self.rc:
                    continue
                g = d.AND(self.rc[p], self.edge(p, b))
                w = self.vec(v)
                out = [d.OR(o, d.AND(g, x)) for o, x in zip(out, w)]
            return tuple(out)
        if t.op == "bin":
            op, a, b = t.a
            return self.binop(op, a, b, t)
        if t.op == "un" and t.a[0] == "Not":
            return self.complement(self.vec(t.a[1]))
        if t.op == "mut":
            c, args = self.F.calls.get(t.a[0], (None, ()))
            n = c["name"] if c else ""
            if t.a[1] == 0 and len(args) >= 2 and n in ("bitor_assign", "insert", "bitand_assign", "remove", "toggle", "set",
                                                        "sub_assign", "bitxor_assign"):
                a, b = self.vec(t.a[2]), self.vec(args[1])
                if n in ("bitor_assign", "insert"):
                    return tuple(d.OR(x, y) for x, y in zip(a, b))
                if n == "bitand_assign":
                    return tuple(d.AND(x, y) for x, y in zip(a, b))
                if n in ("remove", "sub_assign"):
                    return tuple(d.AND(x, d.NOT(y)) for x, y in zip(a, b))
                if n in ("toggle", "bitxor_assign"):
                    return tuple(d.NOT(d.EQV(x, y)) for x, y in zip(a, b))
                if n == "set" and len(args) > 2:
                    g = self.boolean(args[2])
                    return tuple(d.ite(g, d.OR(x, y), d.AND(x, d.NOT(y))) for x, y in zip(a, b))
        if t.op == "call":
            full, b, n, args = t.a[:4]
            args = [self.at(b, x) if x.op == "ref" else x for x in args]
            if n in ("bitor", "union", "bitand", "intersection", "sub", "difference", "bitxor", "symmetric_difference") and \
                    len(args) == 2:
                return self.binop({"bitor": "BitOr", "union": "BitOr", "bitand": "BitAnd", "intersection": "BitAnd", "sub": "Sub",
                                   "difference": "Sub", "bitxor": "BitXor", "symmetric_difference": "BitXor"}[n],
                                  args[0], args[1], t)
            if n in ("not", "complement") and len(args) == 1:
                return self.complement(self.vec(args[0]))
            if n == "empty" and not args:
                return ZERO
            if n == "all" and not args:
                return tuple(1 if self.span[0] <= i < self.span[1] else 0 for i in range(64))
            if n in ("bits", "from_bits_truncate", "from_bits_retain", "from_bits_unchecked", "into", "from") and len(args) == 1:
                v = self.vec(args[0])
                if n == "from_bits_truncate":
                    v = tuple(x if self.span[0] <= i < self.span[1] else 0 for i, x in enumerate(v))
                return v
            if n == "properties_with_mask" and len(args) == 2:
                return tuple(d.AND(x, y) for x, y in zip(self.unknown(t), self.vec(args[1])))
            if n in ("shl", "shr") and len(args) == 2:
                return self.binop("Shl" if n == "shl" else "Shr", args[0], args[1], t)
        return self.unknown(t)

    def complement(self, v):
        # bitflags' complement keeps to the declared flags
        return tuple(self.d.NOT(x) if self.span[0] <= i < self.span[1] else 0 for i, x in enumerate(v))

    def binop(self, op, a, b, t):
        d = self.d
        if op in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
            while b.op == "cast":
                b = b.a[1]
            if b.op != "const":
                return self.unknown(t)
            k = int(b.a[1])
            v = self.vec(a)
            return (tuple([0] * k) + v)[:64] if op.startswith("Shl") else (v + tuple([0] * k))[k:]
        x, y = self.vec(a), self.vec(b)
        if op == "BitOr":
            return tuple(d.OR(p, q) for p, q in zip(x, y))
        if op == "BitAnd":
            return tuple(d.AND(p, q) for p, q in zip(x, y))
        if op == "Sub":
            return tuple(d.AND(p, d.NOT(q)) for p, q in zip(x, y))
        if op == "BitXor":
            return tuple(d.NOT(d.EQV(p, q)) for p, q in zip(x, y))
        return self.unknown(t)

    def promoted(self, t):
        return None

    # -- names of terms
    def name(self, t, depth=10):
        r = self.rename(t)
        if r:
            return r
        if depth == 0:
            return "…%d" % t.id
        n = lambda x: self.name(x, depth - 1)
        o, a = t.op, t.a
        if o == "param":
            return "p%d" % a[0]
        if o == "const":
            return str(a[1])
        if o == "field":
            return n(a[0]) if a[1] == "deref" else "%s.%s" % (n(a[0]), a[1])
        if o == "deref":
            return n(a[0])
        if o == "clone":
            return n(a[0])
        if o == "conv":
            return n(a[2])
        if o == "cast":
            return n(a[1])
        if o == "vf":
            return "%s.%s" % (n(a[0]), a[1])
        if o == "payload":
            return "%s.ok" % n(a[0])
        if o == "idx":
            return "%s[%s]" % (n(a[0]), n(a[1]))
        if o == "ref":
            c, p = a
            s = "l%d" % c if isinstance(c, int) else n(c[1])
            if isinstance(c, int):
                s = "&" + s
            for k in p:
                s += "" if k == "deref" else "[%s]" % n(k[1]) if isinstance(k, tuple) and k[0] == "i" else ".%s" % (
                    k[1] if isinstance(k, tuple) else k)
            return s
        if o == "call":
            return "%s@%d(%s)" % (a[2], a[1], ",".join(n(x) for x in a[3]))
        if o == "mut":
            return "mut@%s(%s)" % (a[0], n(a[2]))
        if o == "bin":
            return "(%s %s %s)" % (n(a[1]), a[0], n(a[2]))
        return "t%d" % t.id


def dominates(idom, a, b):
    while True:
        if a == b:
            return True
        if b not in idom or idom[b] == b:
            return False
        b = idom[b]
