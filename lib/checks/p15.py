import re

import flow
import mir
import sccp
from checks import p08

EXPLANATION = """
Every weight of the core library: what it gives as zero and one, the properties it declares (on which shortest path, determinization and the others decide), how sum and
product treat zero and one, how weights made of other weights (product, Gallic, union) work on their parts, and the operations defined once for all weights.
"""
RULE = """
Flags: the declared properties, evaluated as sets (constants, unions, intersections with the properties of the parts), are those the algebra of that weight has;
a weight made of parts never declares what a part does not have. Zero and one: the constants. Neutral elements: in the worlds 'left is zero', 'right is zero',
'left is one', 'right is one', sum and product leave what the semiring asks for (evaluated over {zero, one, left, right}). Parts: an operation on a weight made of
parts does the same operation on each part of the left with the same part of the right, in this order, on every way that succeeds. String weights append the
labels of the right after those of the left, are divided from the side asked for and refuse the sides not defined. plus, times, divide and quantize work on a copy of the left with the right; is_zero and is_one compare with zero and one.
"""
L, R, C, I, P = 1, 2, 4, 8, 16
NAMES = {1: "LEFT_SEMIRING", 2: "RIGHT_SEMIRING", 4: "COMMUTATIVE", 8: "IDEMPOTENT", 16: "PATH"}
# the algebraic properties each weight has: (flags, must also be had by the parts)
FLAGS = {"BooleanWeight": (L | R | C | I | P, 0), "IntegerWeight": (L | R | C, 0), "LogWeight": (L | R | C, 0), "ProbabilityWeight": (L | R | C, 0),
         "TropicalWeight": (L | R | C | I | P, 0), "StringWeightLeft": (L | I, 0), "StringWeightRight": (R | I, 0), "StringWeightRestrict": (L | R | I, 0),
         "ProductWeight": (L | R | C | I, 2), "UnionWeight": (L | R | C | I, 1)}
INF = 2139095040          # f32::INFINITY
ONE = 1065353216          # 1.0f32
SCALAR = {"BooleanWeight": (0, 1, "bool"), "IntegerWeight": (0, 1, "ring"), "ProbabilityWeight": (0, ONE, "ring"), "LogWeight": (INF, 0, "log"), "TropicalWeight": (INF, 0, "log")}
STRINGS = ("StringWeightLeft", "StringWeightRight", "StringWeightRestrict")
GALLIC = ("GallicWeight", "GallicWeightLeft", "GallicWeightRight", "GallicWeightRestrict", "GallicWeightMin")


def head(t):
    return re.sub(r"<.*", "", (t or "").strip("&")).split("::")[-1]


def methods(prog):
    out = {}
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate == "rustfst" and f.bbs and "/semirings/" in f.file and "{closure" not in f.path and f.kind != "Closure" and not p08.is_test(f) and f.impl_self:
            if head(f.impl_trait) in ("Semiring", "WeaklyDivisibleSemiring", "WeightQuantize", "ReverseBack", "StarSemiring"):
                out[(head(f.impl_self), f.name)] = f
    return out


STAY = ("zero", "one", "is_zero", "is_one", "plus_assign", "times_assign", "divide_assign", "quantize_assign", "plus", "times", "divide", "quantize", "properties",
        "approx_equal", "reverse", "reverse_back", "compare", "merge", "bitor", "bitand", "union", "intersection", "all", "empty", "bits", "from_bits_retain",
        "bitor_assign", "bitand_assign", "insert", "difference", "sub", "from_bits_truncate", "remove")


def inl(prog, f):
    return flow.Flow(prog, mir.inline(prog, f, lambda g, c, st: g.crate == "rustfst" and len(st) < 4 and g.name not in STAY))


# ---------------------------------------------------------------- flags
def flagset(F, S, b, t, busy=frozenset()):
    """(flags, parts they are cut with) or None."""
    t = sccp.strip(F, b, t)
    if t.id in busy:
        return None
    busy = busy | {t.id}
    if t.op == "const" and str(t.a[1]).isdigit():
        return int(t.a[1]), frozenset()
    if t.op == "phi":
        rs = {flagset(F, S, p, v, busy) for p, v in F.phis.get(t.a, {}).items() if (p, t.a[0]) in S.edges}
        return rs.pop() if len(rs) == 1 else None
    if t.op == "mut":
        c, a = F.calls.get(t.a[0], (None, None))
        if not c or len(a) != 2 or c["name"] not in ("insert", "remove", "bitor_assign", "bitand_assign", "sub_assign"):
            return None
        x, y = flagset(F, S, b, t.a[2], busy), flagset(F, S, t.a[0], a[1], busy)
        if x is None or y is None:
            return None
        if c["name"] == "bitand_assign":
            return x[0] & y[0], x[1] | y[1]
        if c["name"] in ("remove", "sub_assign"):
            return (x[0] & ~y[0], x[1]) if not y[1] else None
        return (x[0] | y[0], x[1]) if x[1] == y[1] else None
    if t.op == "call":
        n, a, cb = t.a[2], t.a[3], t.a[1]
        if n == "not" and len(a) == 1 or n == "complement":
            x = flagset(F, S, cb, a[0], busy)
            return (31 & ~x[0], x[1]) if x and not x[1] else None
        if n == "properties":
            c = F.calls[cb][0]
            return 31, frozenset({c.get("self")})
        if n in ("bitor", "union", "bitand", "intersection", "sub", "difference") and len(a) == 2:
            x, y = flagset(F, S, cb, a[0], busy), flagset(F, S, cb, a[1], busy)
            if x is None or y is None:
                return None
            if n in ("bitand", "intersection"):
                return x[0] & y[0], x[1] | y[1]
            if n in ("sub", "difference"):
                return (x[0] & ~y[0], x[1]) if not y[1] else None
            return (x[0] | y[0], x[1]) if x[1] == y[1] else None
        if n == "all" and not a:
            return 31, frozenset()
        if n == "empty" and not a:
            return 0, frozenset()
    return None


def flags(ctx, prog, ms):
    for h in sorted({h for h, n in ms if n == "properties"}):
        f = ms[h, "properties"]
        F = flow.Flow(prog, mir.inline(prog, f, lambda g, c, st: g.crate == "rustfst" and len(st) < 4 and g.name not in STAY))
        S = sccp.Spec(prog, F, lambda t: None)
        ctx.count("declared properties")
        alts = []
        for b, t in F.rets.items():
            if b in S.blocks:
                alts += [(p, v) for p, v in F.phis.get(t.a, {}).items() if (p, t.a[0]) in S.edges] if t.op == "phi" else [(b, t)]
        for b, t in alts:
            v = flagset(F, S, b, t)
            if v is None:
                ctx.count("declared properties undecided")
                ctx.sample("undecided", "%s::properties" % h)
                continue
            if h in GALLIC:
                want = ("UnionWeight",) if h == "GallicWeight" else ("ProductWeight",)
                if v is None or v[0] & ~31 or len(v[1]) != 1 or head(list(v[1])[0]) not in want:
                    if v is None or v[0] == 31:
                        ctx.violation("%s::properties" % h, "%s does not declare the properties of the weight it is made of" % h, f.where())
                    elif v[1]:
                        ctx.violation("%s::properties" % h, "%s does not declare the properties of the weight it is made of" % h, f.where())
                elif v[0] != 31:
                    ctx.violation("%s::properties" % h, "%s leaves out %s of the weight it is made of" % (h, names(31 & ~v[0])), f.where())
                continue
            if h not in FLAGS:
                ctx.count("weights without a reference")
                continue
            want, parts = FLAGS[h]
            if v is None:
                ctx.violation("%s::properties" % h, "%s declares properties that are not those of its parts" % h if parts else "%s declares properties that depend on something" % h, f.where())
                continue
            have = {x for x in v[1]}
            if len(have) < parts:
                ctx.violation("%s::properties.parts" % h, "%s declares properties its parts may not have" % h, f.where())
            if v[0] & ~want:
                ctx.violation("%s::properties.too-many" % h, "%s declares %s, which it does not have" % (h, names(v[0] & ~want)), f.where())
            if want & ~v[0]:
                ctx.violation("%s::properties.too-few" % h, "%s does not declare %s, which it has" % (h, names(want & ~v[0])), f.where())


def names(m):
    return " and ".join(n for b, n in NAMES.items() if m & b)


# ---------------------------------------------------------------- zero and one
def const(t, depth=0):
    while t.op == "agg" and len([x for n, x in zip(t.a[2], t.a[3]) if n != "ghost"]) == 1 and depth < 6 and not t.a[1].startswith("Labels"):
        t = t.a[3][0]
        depth += 1
    return int(t.a[1]) if t.op == "const" and str(t.a[1]).isdigit() else None


def neutral(ctx, prog, ms):
    for h, (z, o, k) in sorted(SCALAR.items()):
        for n, want in (("zero", z), ("one", o)):
            f = ms.get((h, n))
            if f is None:
                continue
            F = flow.Flow(prog, mir.inline(prog, f, lambda g, c, st: len(st) < 4 and (g.crate == "rustfst")))
            ctx.count("neutral elements")
            for b, t in F.rets.items():
                v = const(t)
                if v is not None and v != want or v is None and t.op == "agg" and t.a[3] and t.a[3][0].op == "const":
                    ctx.violation("%s::%s" % (h, n), "%s::%s is not the neutral element of the %s" % (h, n, "sum" if n == "zero" else "product"), f.where())
    for h in STRINGS:
        for n, want in (("zero", "Infinity"), ("one", "Labels")):
            f = ms.get((h, n))
            if f is None:
                continue
            F = inl(prog, f)
            ctx.count("neutral elements")
            for b, t in F.rets.items():
                t = t.a[3][0] if t.op == "agg" and len(t.a[3]) == 1 and t.a[0].split("::")[-1] == h else t
                if t.op == "agg" and t.a[1] not in (want,):
                    ctx.violation("%s::%s" % (h, n), "%s::%s is not %s" % (h, n, "infinity" if n == "zero" else "the empty string"), f.where())
                elif t.op == "agg" and n == "one" and t.a[3] and not (t.a[3][0].op == "call" and t.a[3][0].a[2] in ("new", "default", "with_capacity") and len(t.a[3][0].a[3]) <= 1):
                    if any(x.op == "call" and x.a[2] in ("box_new", "into_vec", "box_assume_init_into_vec_unsafe", "from_elem") for x in flow.reach_terms(F, b, t)):
                        ctx.violation("%s::%s" % (h, n), "%s::one is not the empty string" % h, f.where())
    for h in ("ProductWeight",) + GALLIC:
        for n in ("zero", "one"):
            f = ms.get((h, n))
            if f is None:
                continue
            F = inl(prog, f)
            ctx.count("neutral elements")
            for b, t in F.rets.items():
                got = [x for x in flow.reach_terms(F, b, t) if x.op == "call" and x.a[2] in ("zero", "one") and not x.a[3]]
                if any(x.a[2] != n for x in got):
                    ctx.violation("%s::%s" % (h, n), "%s::%s is made of the %s of a part" % (h, n, "one" if n == "zero" else "zero"), f.where())
    f = ms.get(("UnionWeight", "zero"))
    if f is not None:
        F = inl(prog, f)
        ctx.count("neutral elements")
        if any(c and c["name"] in ("one", "zero", "push") for c, a in F.calls.values()):
            ctx.violation("UnionWeight::zero", "UnionWeight::zero is not the empty set", f.where())
    f = ms.get(("UnionWeight", "one"))
    if f is not None:
        F = inl(prog, f)
        ctx.count("neutral elements")
        if not any(c and c["name"] == "one" for c, a in F.calls.values()) or any(c and c["name"] == "zero" and head(c.get("self")) == "W" for c, a in F.calls.values()):
            ctx.violation("UnionWeight::one", "UnionWeight::one does not hold the one of its part", f.where())


# ---------------------------------------------------------------- zero and one in sums and products
class Law:
    def __init__(self, prog, F, kind, left, right, consts, less=None, side=None):
        self.less, self.side = less, side
        self.F, self.k, self.l, self.r, self.prog = F, kind, left, right, prog
        self.consts = consts
        self.o = p08.O(F)
        self.S = None
        self.S = sccp.Spec(prog, F, self.leaf)
        self.o = p08.O(F, self.S)
        self.S = sccp.Spec(prog, F, self.leaf)
        self.o = p08.O(F, self.S)

    def part(self, b, t, path, busy):
        """The token of a part of a value, through the choices and the writes that made it."""
        F = self.F
        if (t.id, path) in busy:
            return "?"
        busy = busy | {(t.id, path)}
        while t.op == "field":
            t, path = t.a[0], (t.a[1],) + path
        if t.op == "phi" and path:
            rs = {self.part(p, v, path, busy) for p, v in F.phis.get(t.a, {}).items() if self.S is None or (p, t.a[0]) in self.S.edges}
            return rs.pop() if len(rs) == 1 else "?"
        if t.op == "upd":
            if not path:
                path = (t.a[1],)
            if path[0] == t.a[1]:
                return self.part(b, t.a[2], path[1:], busy)
            return self.part(b, t.a[0], path, busy)
        if t.op == "agg" and path and path[0] in t.a[2]:
            return self.part(b, t.a[3][list(t.a[2]).index(path[0])], path[1:], busy)
        if t.op == "clone" and path:
            return self.part(b, t.a[0], path, busy)
        if path and t.op != "param":
            x = t
            for k in path:
                x = flow.mk("field", x, k)
            r = self.o.of(b, x)
            roots = {y[0] for y in r}
            if roots == {1}:
                return self.l
            if roots == {2}:
                return self.r
        return self.tok(b, t, busy)

    def tok(self, b, t, busy=frozenset()):
        F = self.F
        if t.op == "upd" or t.op == "field" and self.k != "str":
            x = t
            while x.op == "field":
                x = x.a[0]
            if x.op in ("upd", "phi", "agg", "clone"):
                return self.part(b, t, (), busy)
        if t.id in busy:
            return "?"
        busy = busy | {t.id}
        if t.op == "const":
            v = int(t.a[1]) if str(t.a[1]).isdigit() else None
            return "Z" if v == self.consts[0] else "O" if v == self.consts[1] else "?"
        if t.op == "agg" and self.k == "str" and t.a[1] in ("Infinity", "Labels"):
            return "Z" if t.a[1] == "Infinity" else self.tok(b, t.a[3][0], busy) if t.a[3] else "?"
        if t.op == "agg":
            xs = [x for n, x in zip(t.a[2], t.a[3]) if n != "ghost"]
            return self.tok(b, xs[0], busy) if len(xs) == 1 else "?"
        if t.op == "promoted":
            v = sccp.promoted(self.prog, t)
            return "Z" if v == self.consts[0] and v is not None else "O" if v == self.consts[1] and v is not None else "?"
        if t.op == "ref" and b in F.inn and (isinstance(t.a[0], int) or isinstance(t.a[0], tuple) and t.a[0][0] == "m"):
            x = F.read(F.state_at_term(b), t.a[0], t.a[1])
            return self.tok(b, x, busy)
        if t.op == "phi":
            rs = {self.tok(p, v, busy) for p, v in F.phis.get(t.a, {}).items() if self.S is None or (p, t.a[0]) in self.S.edges}
            return rs.pop() if len(rs) == 1 else "?"
        if t.op == "mut":
            c, a = F.calls.get(t.a[0], (None, None))
            if c and c["name"] == "clear" and self.k == "set":
                return "Z"
            if c and c["name"] in ("add_assign", "mul_assign", "div_assign", "bitor_assign", "bitand_assign", "sub_assign") and len(a) == 2:
                return self.arith({"add": "Add", "mul": "Mul", "div": "Div", "bitor": "BitOr", "bitand": "BitAnd", "sub": "Sub"}[c["name"].split("_")[0]], self.tok(b, t.a[2], busy), self.tok(t.a[0], a[1], busy))
            return "?"
        if t.op == "bin":
            return self.arith(t.a[0], self.tok(b, t.a[1], busy), self.tok(b, t.a[2], busy))
        if t.op == "call":
            n, a, cb = t.a[2], t.a[3], t.a[1]
            if n in ("zero", "one") and not a:
                return "Z" if n == "zero" else "O"
            if n in ("add", "mul", "sub", "div", "bitor", "bitand") and len(a) == 2:
                return self.arith({"add": "Add", "mul": "Mul", "div": "Div", "bitor": "BitOr", "bitand": "BitAnd", "sub": "Sub"}[n], self.tok(cb, a[0], busy), self.tok(cb, a[1], busy))
            if n == "plus" and len(a) == 2 and self.k == "min":
                x, y = self.tok(cb, a[0], busy), self.tok(cb, a[1], busy)
                return self.less if {x, y} == {"X", "Y"} else "?"
            if n in ("min", "max") and len(a) == 2 and self.k == "log":
                x, y = self.tok(cb, a[0], busy), self.tok(cb, a[1], busy)
                if "Z" in (x, y):
                    return (y if x == "Z" else x) if n == "min" else "Z"
                return "?"
            if n in p08.SEE or n in ("new", "into_inner", "value", "take_value", "0"):
                return self.tok(cb, a[0], busy) if a else "?"
            return "?"
        if t.op in ("deref", "clone", "field", "vf", "cast", "conv", "upd", "param"):
            r = self.o.of(b, t)
            roots = {x[0] for x in r}
            if roots == {1}:
                return self.l
            if roots == {2}:
                return self.r
            if t.op in ("field", "deref", "clone") or t.op == "vf" and t.a[1] in ("Ok", "Continue"):
                return self.tok(b, t.a[0], busy)
        return "?"

    def arith(self, op, x, y):
        if "?" in (x, y) or "!" in (x, y):
            return "?"
        if self.k == "log":
            if op.startswith("Add"):
                return "Z" if "Z" in (x, y) else y if x == "O" else x if y == "O" else "?"
            if op.startswith("Sub"):
                return x if y == "O" else "Z" if x == "Z" and y != "Z" else "!" if x == "O" and y in ("X", "Y") or y == "Z" else "?"
            return "?"
        if op.startswith("Add") or op == "BitOr":
            return y if x == "Z" else x if y == "Z" else "?"
        if op.startswith("Div"):
            return x if y == "O" else "Z" if x == "Z" and y != "Z" else "!" if x == "O" and y in ("X", "Y") or y == "Z" else "?"
        if op.startswith("Mul") or op == "BitAnd":
            return "Z" if "Z" in (x, y) else y if x == "O" else x if y == "O" else "?"
        return "?"

    def cmp(self, n, x, y):
        if "?" in (x, y) or "!" in (x, y):
            return None
        if self.k == "min":
            return (x == y) == (n == "eq") if n in ("eq", "ne") else None
        if x == "Z" and y == "Z":
            return n in ("eq", "le", "ge")
        if "Z" in (x, y) and self.k == "log":
            return {"eq": False, "ne": True, "lt": y == "Z", "le": y == "Z", "gt": x == "Z", "ge": x == "Z"}[n]
        if "Z" in (x, y) and n in ("eq", "ne"):
            return n == "ne"
        if x == y == "O":
            return n in ("eq", "le", "ge")
        return None

    def leaf(self, t):
        if t.op == "call" and t.a[2] in ("eq", "ne", "lt", "le", "gt", "ge") and len(t.a[3]) == 2:
            v = self.cmp(t.a[2], self.tok(t.a[1], t.a[3][0]), self.tok(t.a[1], t.a[3][1]))
            return None if v is None else int(v)
        if t.op == "bin" and t.a[0] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            v = self.cmp(t.a[0].lower(), self.tok(0, t.a[1]), self.tok(0, t.a[2]))
            return None if v is None else int(v)
        if self.side and t.op == "param" and t.a[0] == 3:
            return sccp.enum(self.side)
        if self.k == "set" and t.op == "call" and t.a[2] == "len" and len(t.a[3]) == 1 and self.tok(t.a[1], t.a[3][0]) == "Z":
            return 0
        if self.k == "set" and t.op == "call" and t.a[2] == "is_empty" and len(t.a[3]) == 1:
            x = self.tok(t.a[1], t.a[3][0])
            return 1 if x == "Z" else 0 if x in ("X", "Y") else None
        if t.op == "call" and t.a[2] in ("is_zero", "is_infinite", "is_one", "is_finite", "is_nan") and len(t.a[3]) == 1:
            x = self.tok(t.a[1], t.a[3][0])
            if x == "?" or x in "XY":
                # a weight that is neither zero nor one
                return None if x == "?" else 1 if t.a[2] == "is_finite" else 0
            return {"is_zero": x == "Z", "is_one": x == "O", "is_infinite": x == "Z" and self.k == "log", "is_finite": not (x == "Z" and self.k == "log"), "is_nan": False}[t.a[2]] * 1
        if self.k == "min" and t.op == "discr" and t.a[0].op == "call" and t.a[0].a[2] == "branch":
            return 0
        if self.k == "str" and t.op == "discr":
            x = self.tok(0, t.a[0])
            return 0 if x == "Z" else 1 if x in ("X", "Y") else None
        if self.k == "bool" and t.op in ("field", "deref", "vf"):
            x = self.tok(0, t)
            return 0 if x == "Z" else 1 if x == "O" else None
        return None


LAWS = {"plus_assign": (("Z", "Y", "Y"), ("X", "Z", "X"), ("Z", "Z", "Z")),
        "times_assign": (("Z", "Y", "Z"), ("X", "Z", "Z"), ("O", "Y", "Y"), ("X", "O", "X"), ("Z", "Z", "Z")),
        "divide_assign": (("X", "O", "X"), ("Z", "Y", "Z"), ("O", "Y", "-")), "quantize_assign": (("Z", "Y", "Z"),)}
OPS = {"plus_assign": "the sum of %s with %s", "times_assign": "the product of %s with %s", "divide_assign": "the quotient of %s by %s", "quantize_assign": "the rounding of %s%.0s"}
SAY = {"!": "something else", "Z": "zero", "O": "one", "X": "the left", "Y": "the right"}


def laws(ctx, prog, ms):
    for h, (z, o, k) in sorted(SCALAR.items()):
        for n, worlds in LAWS.items():
            f = ms.get((h, n))
            if f is None:
                continue
            F = flow.Flow(prog, mir.inline(prog, f, lambda g, c, st: g.crate == "rustfst" and len(st) < 4 and g.name not in ("zero", "one", "is_zero", "is_one")))
            cells = {(c, path) for ws in F.writes.values() for c, path, v in ws if not isinstance(c, int) and c[1].op == "param" and c[1].a[0] == 1}
            if n == "quantize_assign" and k != "log":
                continue
            for l, r, want in worlds:
                W = Law(prog, F, k, l, r, (z, o))
                ctx.count("laws")
                rets = [b for b in F.rets if b in W.S.blocks]
                for b in rets:
                    got = {W.tok(b, F.read(F.out[b], c, path)) for c, path in cells} or {l}
                    if len(cells) > 1:
                        deep = max(len(p) for c, p in cells)
                        got = {W.tok(b, F.read(F.out[b], c, path)) for c, path in cells if len(path) == deep}
                    if want == "-":
                        if got == {"Y"}:
                            ctx.violation("%s::%s.%s%s" % (h, n, l, r), "%s: the quotient of one by the right is the right" % h, f.where())
                    elif "?" in got:
                        ctx.count("laws undecided")
                        ctx.sample("undecided", "%s::%s %s %s" % (h, n, l, r))
                    elif got != {want} and not (want in (l, r) and {l if x == "X" else r if x == "Y" else x for x in got} == {want}):
                        ctx.violation("%s::%s.%s%s" % (h, n, l, r), "%s: %s is %s instead of %s" % (h, OPS[n] % (SAY[l], SAY[r]), ", ".join(SAY[x] for x in sorted(got)), SAY[want]), f.where())


def string_laws(ctx, prog, ms):
    for h in STRINGS + ("UnionWeight",):
        for n, worlds in (("plus_assign", LAWS["plus_assign"]), ("times_assign", (("Z", "Y", "Z"), ("X", "Z", "Z"), ("Z", "Z", "Z")))):
            f = ms.get((h, n))
            if f is None:
                continue
            F = flow.Flow(prog, mir.inline(prog, f, lambda g, c, st: g.crate == "rustfst" and len(st) < 4 and g.name not in ("zero", "one", "is_zero", "is_one")))
            cell = [c for ws in F.writes.values() for c, path, v in ws if not isinstance(c, int) and c[1].op == "param" and c[1].a[0] == 1]
            for l, r, want in worlds:
                W = Law(prog, F, "str" if h != "UnionWeight" else "set", l, r, (None, None))
                ctx.count("laws")
                for b in [b for b in F.rets if b in W.S.blocks]:
                    got = Law.tok(W, b, F.read(F.out[b], cell[0], ("value" if h != "UnionWeight" else "list",))) if cell else l
                    if got == "?":
                        ctx.count("laws undecided")
                        ctx.sample("undecided", "%s::%s %s %s" % (h, n, l, r))
                    elif got != want:
                        ctx.violation("%s::%s.%s%s" % (h, n, l, r), "%s: %s is %s instead of %s" % (h, OPS[n] % (SAY[l], SAY[r]), SAY[got], SAY[want]), f.where())


def union_divide(ctx, prog, ms):
    f = ms.get(("UnionWeight", "divide_assign"))
    if f is None:
        return
    F = flow.Flow(prog, mir.inline(prog, f, lambda g, c, st: g.crate == "rustfst" and len(st) < 4 and g.name not in ("zero", "one", "is_zero", "is_one", "push_back")))
    cell = [c for ws in F.writes.values() for c, path, v in ws if not isinstance(c, int) and c[1].op == "param" and c[1].a[0] == 1]
    W = Law(prog, F, "set", "Z", "Y", (None, None))
    ctx.count("laws")
    rets = [b for b in F.rets if b in W.S.blocks]
    got = {W.tok(b, F.read(F.out[b], cell[0], ("list",))) for b in rets} if cell else {"Z"}
    if sccp.err_blocks(F) & W.S.blocks or not rets:
        ctx.violation("UnionWeight::divide_assign.refused", "UnionWeight: dividing zero can be refused instead of giving zero", f.where())
    elif "?" in got:
        ctx.count("laws undecided")
        ctx.sample("undecided", "UnionWeight::divide_assign Z Y")
    elif got != {"Z"}:
        ctx.violation("UnionWeight::divide_assign.ZY", "UnionWeight: the quotient of zero by the right is not zero", f.where())


def smaller(ctx, prog, ms):
    """The sum of two GallicWeightMin is the one whose weight is smaller, all of it."""
    f = ms.get(("GallicWeightMin", "plus_assign"))
    if f is None:
        return
    F = inl(prog, f)
    cells = [(c, p) for ws in F.writes.values() for c, p, v in ws if not isinstance(c, int) and c[1].op == "param" and c[1].a[0] == 1]
    errs = sccp.err_blocks(F)
    for less in ("X", "Y"):
        W = Law(prog, F, "min", "X", "Y", (None, None), less)
        ctx.count("laws")
        seen = set()
        for part in (("0", "weight", "0"), ("0", "weight", "1")):
            for b in [b for b in F.rets if b in W.S.blocks]:
                for c in {c for c, p in cells}:
                    seen.add(W.tok(b, F.read(F.out[b], c, part)))
        if not cells:
            seen = {"X"}
        if "?" in seen:
            ctx.count("laws undecided")
            ctx.sample("undecided", "GallicWeightMin::plus_assign %s" % less)
        elif seen != {less}:
            ctx.violation("GallicWeightMin::plus_assign.%s" % less, "GallicWeightMin: the sum of a left and a right of which %s is smaller is not %s" % (SAY[less], SAY[less]), f.where())


def sides(ctx, prog, ms):
    """A string is divided from the side asked for, and a side that is not defined is refused."""
    for h, defined in (("StringWeightLeft", ("DivideLeft",)), ("StringWeightRight", ("DivideRight",)), ("StringWeightRestrict", ("DivideLeft", "DivideRight"))):
        f = ms.get((h, "divide_assign"))
        if f is None:
            continue
        F = inl(prog, f)
        for side in ("DivideLeft", "DivideRight", "DivideAny"):
            S = sccp.Spec(prog, F, lambda t: sccp.enum(side) if t.op == "param" and t.a[0] == 3 else None)
            ctx.count("sides of divisions")
            errs = sccp.err_blocks(F) & S.blocks
            names = {F.calls[b][0]["name"] for b in S.blocks if b in F.calls and F.calls[b][0]}
            if side not in defined:
                if p08.way(F, S, 0, {b for b in F.rets if b in S.blocks}, errs):
                    ctx.violation("%s::divide_assign.%s" % (h, side), "%s::divide_assign answers a division (%s) that is not defined for it" % (h, side), f.where())
                continue
            if not p08.way(F, S, 0, {b for b in F.rets if b in S.blocks}, errs):
                ctx.violation("%s::divide_assign.%s" % (h, side), "%s::divide_assign refuses the division (%s) it has to do" % (h, side), f.where())
            W = Law(prog, F, "str", "Z", "Y", (None, None), None, side)
            for b in [b for b in F.rets if b in W.S.blocks]:
                got = {W.tok(b, F.read(F.out[b], c, ("value",))) for ws in F.writes.values() for c, path, v in ws if not isinstance(c, int) and c[1].op == "param" and c[1].a[0] == 1}
                ctx.count("laws")
                if got and "?" not in got and got != {"Z"}:
                    ctx.violation("%s::divide_assign.ZY" % h, "%s: the quotient of zero by the right is not zero" % h, f.where())
            if side == "DivideLeft" and "skip" in names and "rev" in names or side == "DivideRight" and "skip" in names and "rev" not in names:
                ctx.violation("%s::divide_assign.%s" % (h, side), "%s::divide_assign takes the labels off the wrong end (%s)" % (h, side), f.where())


# ---------------------------------------------------------------- parts
PARTS = [("ProductWeight", (("weight", "0"), ("weight", "1")))] + [(g, (("0", "weight", "0"), ("0", "weight", "1")) if g != "GallicWeight" else (("0",),)) for g in GALLIC]


def parts(ctx, prog, ms):
    for h, comps in PARTS:
        for n in ("plus_assign", "times_assign", "divide_assign", "quantize_assign"):
            f = ms.get((h, n))
            if f is None or h == "GallicWeightMin" and n == "plus_assign" or h == "GallicWeight" and n == "divide_assign":
                continue
            F = inl(prog, f)
            o = p08.O(F)
            S = sccp.Spec(prog, F, lambda t: None)
            base = n[:-7]
            ctx.count("operations by parts")
            for comp in comps:
                mine = set()
                for b, (c, a) in F.calls.items():
                    if c and c["name"] in (n, base) and a:
                        x = o.of(b, a[0])
                        y = o.of(b, a[1]) if len(a) > 1 else frozenset()
                        if n != "quantize_assign" and x and y and all(r == 2 for r, p in x) and all(r == 1 for r, p in y):
                            ctx.violation("%s::%s.order" % (h, n), "%s::%s takes the right operand first" % (h, n), f.where(F.body.bbs[b]["term"].get("ln")))
                        if len(x) == 1 and list(x)[0][0] == 1 and list(x)[0][1] == comp[:len(list(x)[0][1])]:
                            if n == "quantize_assign" or y == frozenset({(2, list(x)[0][1])}):
                                mine.add(b)
                                if n == "divide_assign" and len(a) > 2 and o.of(b, a[2]) and (3, ()) not in o.of(b, a[2]):
                                    ctx.violation("%s::%s.kind" % (h, n), "%s::%s does not divide a part from the side it was asked to" % (h, n), f.where(F.body.bbs[b]["term"].get("ln")))
                            elif y and all(r == 2 for r, p in y):
                                ctx.violation("%s::%s.pair" % (h, n), "%s::%s combines a part of the left with another part of the right" % (h, n), f.where(F.body.bbs[b]["term"].get("ln")))
                if p08.way(F, S, 0, {b for b in F.rets if b in S.blocks}, mine):
                    ctx.violation("%s::%s.part" % (h, n), "%s::%s can leave out %s" % (h, n, "part %s" % comp[-1]), f.where())
    for h, comps in PARTS:
        for n in ("reverse", "reverse_back"):
            f = ms.get((h, n))
            if f is None:
                continue
            F = inl(prog, f)
            o = p08.O(F)
            S = sccp.Spec(prog, F, lambda t: 0 if t.op == "discr" and t.a[0].op == "call" and t.a[0].a[2] == "branch" else None)
            ctx.count("operations by parts")
            for comp in comps:
                mine = {b for b, (c, a) in F.calls.items() if c and c["name"] == n and a and len(o.of(b, a[0])) == 1 and list(o.of(b, a[0]))[0][0] == 1
                        and list(o.of(b, a[0]))[0][1] == comp[:len(list(o.of(b, a[0]))[0][1])]}
                if p08.way(F, S, 0, {b for b in F.rets if b in S.blocks}, mine):
                    ctx.violation("%s::%s.part" % (h, n), "%s::%s can leave out part %s" % (h, n, comp[-1]), f.where())
            for b, (c, a) in F.calls.items():
                for t in a:
                    t = sccp.strip(F, b, t)
                    if t.op == "agg" and t.a[0] == "tuple" and len(t.a[3]) == 2:
                        for i, x in enumerate(t.a[3]):
                            got = {r[1][-1] for y in flow.reach_terms(F, b, x) if y.op == "call" and y.a[2] == n for r in o.of(y.a[1], y.a[3][0]) if r[1]}
                            if got and got <= {"0", "1"} and str(i) not in got:
                                ctx.violation("%s::%s.place" % (h, n), "%s::%s puts a part in the place of another" % (h, n), f.where(F.body.bbs[b]["term"].get("ln")))
        f = ms.get((h, "approx_equal"))
        if f is not None:
            F = inl(prog, f)
            o = p08.O(F)
            ctx.count("operations by parts")
            for i, same in enumerate([(x, y) for x in (0, 1) for y in (0, 1)] if len(comps) == 2 else [(0,), (1,)]):
                def leaf(t):
                    if t.op == "call" and t.a[2] in ("approx_equal", "eq", "ne") and len(t.a[3]) >= 2:
                        x, y = o.of(t.a[1], t.a[3][0]), o.of(t.a[1], t.a[3][1])
                        if len(x) == 1 and len(y) == 1:
                            (r, p), (q, e) = list(x)[0], list(y)[0]
                            if {r, q} == {1, 2} and p == e:
                                vs = [s for c, s in zip(comps, same) if c[:len(p)] == p]
                                if vs:
                                    return int(all(vs)) if t.a[2] != "ne" else int(not all(vs))
                    return None
                S = sccp.Spec(prog, F, leaf)
                for b, t in F.rets.items():
                    if b in S.blocks:
                        v = S.value(b, t)
                        if v in (0, 1) and v != int(all(same)):
                            ctx.violation("%s::approx_equal" % h, "%s::approx_equal answers %s when %s" % (h, "yes" if v else "no", "all parts are" if all(same) else "not all parts are"), f.where())
    f = ms.get(("UnionWeight", "times_assign"))
    if f is not None:
        F = inl(prog, f)
        ctx.count("operations by parts")
        for b, (c, a) in F.calls.items():
            if c and c["name"] in ("times", "times_assign") and len(a) == 2:
                x, y = came(F, b, a[0]), came(F, b, a[1])
                if x == {2} and y == {1}:
                    ctx.violation("UnionWeight::times_assign.order", "UnionWeight::times_assign takes the right operand first", f.where(F.body.bbs[b]["term"].get("ln")))
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.name == "merge" and f.crate == "rustfst" and f.bbs and "/semirings/" in f.file and head(f.impl_trait) == "UnionWeightOption" and not p08.is_test(f):
            F = inl(prog, f)
            ctx.count("operations by parts")
            sums = [(came(F, b, a[0]), came(F, b, a[1])) for b, (c, a) in F.calls.items() if c and c["name"] in ("plus", "plus_assign") and len(a) == 2]
            if sums and all(x == y and len(x) == 1 for x, y in sums):
                ctx.violation("merge.sum", "two weights are merged without adding the weight of one of them", f.where())


def came(F, b, t):
    """The parameters a value is made of, through iterators and references."""
    seen, out, work = set(), set(), [(b, t)]
    while work:
        b, t = work.pop()
        if (t.id, b if t.op == "ref" else None) in seen:
            continue
        seen.add((t.id, b if t.op == "ref" else None))
        if t.op == "param":
            out.add(t.a[0])
        elif t.op == "ref":
            if isinstance(t.a[0], int):
                if b in F.inn:
                    work.append((b, F.read(F.state_at_term(b), t.a[0], t.a[1])))
            else:
                work.append((b, t.a[0][1]))
        elif t.op == "phi":
            work += list(F.phis.get(t.a, {}).items())
        elif t.op == "call":
            work += [(t.a[1], x) for x in t.a[3]]
        elif t.op == "mut":
            work.append((b, t.a[2]))
        elif t.op == "agg":
            work += [(b, x) for x in t.a[3]]
        else:
            work += [(b, x) for x in t.a if hasattr(x, "op")]
    return out


def strings(ctx, prog, ms):
    for h in STRINGS:
        f = ms.get((h, "times_assign"))
        if f is None:
            continue
        F = inl(prog, f)
        o = p08.O(F)
        ctx.count("string products")
        for b, (c, a) in F.calls.items():
            if not c or not a:
                continue
            if c["name"] in ("insert", "push_front", "splice", "rev", "reverse", "prepend") and "Vec" in c["def"] + (c.get("self") or "") or c["name"] in ("rev", "reverse"):
                x = o.of(b, a[0])
                ctx.violation("%s::times_assign.order" % h, "%s::times_assign does not append the labels of the right in order" % h, f.where(F.body.bbs[b]["term"].get("ln")))
            if c["name"] in ("push", "extend", "extend_from_slice", "append") and "Vec" in c["def"] + (c.get("self") or "") + "Vec":
                x = o.of(b, a[0])
                if x and all(r == 2 for r, p in x):
                    ctx.violation("%s::times_assign.order" % h, "%s::times_assign appends to the labels of the right" % h, f.where(F.body.bbs[b]["term"].get("ln")))


# ---------------------------------------------------------------- defined once for all
def common(ctx, prog):
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate != "rustfst" or not f.bbs or "/semirings/" not in f.file or p08.is_test(f) or "{closure" in f.path or f.name not in ("plus", "times", "divide", "quantize", "is_zero", "is_one"):
            continue
        tr = head(f.in_trait if isinstance(f.in_trait, str) else "") or head(f.impl_trait)
        if tr not in ("Semiring", "WeaklyDivisibleSemiring", "WeightQuantize"):
            continue
        F = flow.Flow(prog, mir.inline(prog, f, lambda g, c, st: g.crate == "rustfst" and len(st) < 3 and g.name not in STAY))
        o = p08.O(F)
        ctx.count("operations defined once")
        key = "%s::%s" % (tr, f.name)
        if f.name in ("is_zero", "is_one"):
            w = f.name[3:]
            calls = [c["name"] for c, a in F.calls.values() if c]
            if ("one" if w == "zero" else "zero") in calls and w not in calls:
                ctx.violation(key, "%s compares with %s" % (key, "one" if w == "zero" else "zero"), f.where())
            elif calls.count("ne") and not calls.count("eq") and w in calls and not any(x.op in ("un", "not") for b, t in F.rets.items() for x in flow.reach_terms(F, b, t)):
                ctx.violation(key, "%s answers the opposite" % key, f.where())
            continue
        n = f.name + "_assign"
        S = sccp.Spec(prog, F, lambda t: None)
        mine = set()
        for b, (c, a) in F.calls.items():
            if c and c["name"] == n and a:
                x = o.of(b, a[0])
                y = o.of(b, a[1]) if len(a) > 1 else frozenset()
                if f.name == "divide" and len(a) > 2 and o.of(b, a[2]) and (3, ()) not in o.of(b, a[2]):
                    ctx.violation(key + ".side", "%s does not divide from the side it was asked to" % key, f.where(F.body.bbs[b]["term"].get("ln")))
                if x == frozenset({(1, ())}) and (y == frozenset({(2, ())}) or f.name == "quantize" and y):
                    mine.add(b)
                else:
                    ctx.violation(key + ".order", "%s does not work on a copy of the left with the right" % key, f.where(F.body.bbs[b]["term"].get("ln")))
            elif c and c["name"].endswith("_assign") and c["name"] in ("plus_assign", "times_assign", "divide_assign"):
                ctx.violation(key + ".other", "%s does %s" % (key, c["name"]), f.where(F.body.bbs[b]["term"].get("ln")))
        if mine and p08.way(F, S, 0, {b for b in F.rets if b in S.blocks}, mine):
            ctx.violation(key + ".skip", "%s can answer without having done the operation" % key, f.where())


def run(ctx):
    prog = ctx.prog if hasattr(ctx, "prog") else mir.load()
    ms = methods(prog)
    flags(ctx, prog, ms)
    neutral(ctx, prog, ms)
    laws(ctx, prog, ms)
    string_laws(ctx, prog, ms)
    union_divide(ctx, prog, ms)
    smaller(ctx, prog, ms)
    sides(ctx, prog, ms)
    parts(ctx, prog, ms)
    strings(ctx, prog, ms)
    common(ctx, prog)
    ctx.floor("declared properties", 12)
    ctx.floor("neutral elements", 20)
    ctx.floor("laws", 30)
    ctx.floor("operations by parts", 10)
    ctx.floor("operations defined once", 4)
