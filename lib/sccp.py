"""Sparse conditional constant propagation over the value-flow terms of one body: given values for some of its inputs (an option of a
configuration), the set of blocks that can run and the constants call arguments then have. Unknown conditions keep every branch, joins
only look at edges that can run; the result is an over-approximation of what the function does with that option value."""
import mir
from flow import Flow

UN = None
DISCR = {"None": 0, "Some": 1, "Ok": 0, "Err": 1, "Continue": 0, "Break": 1, "NotComputed": 0, "Computed": 1}


def enum(v):
    return ("e", v)


def strip(F, b, t):
    """The value behind a reference, as the flow knows it at block b."""
    for _ in range(8):
        if t.op == "ref":
            try:
                c, p = t.a
                if isinstance(c, int):
                    t = F.read(F.state_at_term(b), c, p)
                    continue
                t = F.read(F.state_at_term(b), c, p)
                continue
            except Exception:
                return t
        if t.op in ("clone", "box"):
            t = t.a[0]
            continue
        if t.op == "conv":
            t = t.a[-1]
            continue
        break
    return t


def path(t):
    """(parameter, fields) a term reads, through references, or None."""
    p = []
    for _ in range(40):
        if t.op == "param":
            return t.a[0], tuple(reversed([x for x in p if x != "deref"]))
        if t.op in ("deref", "clone", "box"):
            t = t.a[0]
        elif t.op == "cast":
            t = t.a[1]
        elif t.op == "conv":
            t = t.a[-1]
        elif t.op == "field":
            p.append(t.a[1])
            t = t.a[0]
        elif t.op == "ref" and not isinstance(t.a[0], int):
            for k in reversed(t.a[1]):
                if not isinstance(k, str):
                    return None
                p.append(k)
            t = t.a[0][1]
        elif t.op == "mut" and False:
            t = t.a[2]
        elif t.op == "call" and t.a[2] in ("borrow", "deref", "as_ref", "borrow_mut", "deref_mut", "as_mut") and t.a[3]:
            t = t.a[3][0]
        else:
            return None
    return None


_prom = {}


def promoted(prog, t):
    """The value of a promoted constant, from its own body."""
    k = (id(prog), t.a)
    if k not in _prom:
        _prom[k] = UN
        f = prog.fns.get(t.a[0])
        pr = (f.d.get("promoted") or []) if f else []
        if int(t.a[1]) < len(pr):
            d = pr[int(t.a[1])]
            F = Flow(prog, mir.Body(f, d["locals"], d["bbs"], 0))
            S = Spec(prog, F, lambda x: None)
            vs = [S.value(b, v) for b, v in F.rets.items()]
            if len(vs) == 1:
                _prom[k] = vs[0]
    return _prom[k]


def err_blocks(F):
    """Blocks that make an error: from there on the function is on its way to reporting it."""
    out = set()
    for b in F.inn:
        bb = F.body.bbs[b]
        for s in bb["st"]:
            if s["s"] == "=" and s["rv"]["r"] == "agg" and s["rv"].get("kind") == "adt" and s["rv"]["variant"] == "Err" and s["rv"]["adt"].endswith("result::Result"):
                out.add(b)
        c = F.calls.get(b, (None,))[0]
        if c and c["name"] in ("from_residual", "format_err", "msg", "from_error"):
            out.add(b)
    return out


class Spec:
    def __init__(self, prog, F, leaf):
        self.prog, self.F, self.leaf = prog, F, leaf
        self.edges = set()
        self.blocks = {0}
        while True:
            n = len(self.edges)
            self.memo = {}
            work = [0]
            seen = {0}
            while work:
                b = work.pop()
                for s in self.succ(b):
                    self.edges.add((b, s))
                    if s not in seen:
                        seen.add(s)
                        work.append(s)
            self.blocks |= seen
            if len(self.edges) == n:
                break
        self.memo = {}

    def succ(self, b):
        t = self.F.body.bbs[b]["term"]
        if t["t"] == "switch" and b in self.F.inn:
            v = self.value(b, self.F.op(self.F.state_at_term(b), t["op"]))
            if isinstance(v, int):
                for k, to in t["targets"]:
                    if int(k) == v:
                        return [to]
                return [t["otherwise"]]
        return [s for s in mir.term_succ(t) if s in self.F.inn or True]

    def variants(self, ty):
        h, _ = mir.ty_head(mir.strip_refs(ty))
        a = self.prog.adts.get(h)
        if a and a["kind"] == "Enum":
            return {v["name"]: int(v.get("discr", i)) for i, v in enumerate(a["variants"])}
        return None

    def value(self, b, t, depth=0):
        if depth > 30:
            return UN
        k = (b if t.op == "ref" else None, t.id)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = UN
        v = self._value(b, t, depth)
        self.memo[k] = v
        return v

    def _value(self, b, t, depth):
        r = self.leaf(t)
        if r is not None:
            return r
        if t.op == "const":
            return t.a[1] if isinstance(t.a[1], int) else (int(t.a[1]) if isinstance(t.a[1], str) and t.a[1].lstrip("-").isdigit() else UN)
        if t.op in ("ref",):
            x = strip(self.F, b, t)
            return self.value(b, x, depth + 1) if x is not t else UN
        if t.op == "promoted":
            return promoted(self.prog, t)
        if t.op == "deref":
            return self.value(b, t.a[0], depth + 1)
        if t.op in ("clone", "box"):
            return self.value(b, t.a[0], depth + 1)
        if t.op == "cast":
            v = self.value(b, t.a[1], depth + 1)
            return v
        if t.op == "agg" and not t.a[2]:
            return enum(t.a[1] or t.a[0].split("::")[-1])
        if t.op == "agg" and len(t.a[2]) == 1 and t.a[1] == "":
            return self.value(b, t.a[3][0], depth + 1)     # bit-flag wrappers
        if t.op == "field" and str(t.a[1]) in ("0", "bits"):
            v = self.value(b, t.a[0], depth + 1)
            return v if isinstance(v, int) else UN
        if t.op == "discr":
            w = self.variant(b, t.a[0], depth + 1)
            if w in DISCR:
                return DISCR[w]
            v = self.value(b, t.a[0], depth + 1)
            if isinstance(v, tuple):
                for a in self.prog.adts.values():
                    if a["kind"] == "Enum" and any(x["name"] == v[1] for x in a["variants"]):
                        for i, x in enumerate(a["variants"]):
                            if x["name"] == v[1]:
                                return int(x.get("discr", i))
            return UN
        if t.op == "un" and t.a[0] == "Not":
            v = self.value(b, t.a[1], depth + 1)
            return (1 - v) if v in (0, 1) else UN
        if t.op == "payload":
            return self.inside(b, t.a[0], depth + 1)
        if t.op == "bin":
            x, y = self.value(b, t.a[1], depth + 1), self.value(b, t.a[2], depth + 1)
            if x is UN or y is UN:
                return UN
            return self.binop(t.a[0], x, y)
        if t.op == "call":
            n, a = t.a[2], t.a[3]
            cb = t.a[1]
            if n in ("eq", "ne") and len(a) == 2:
                x, y = self.value(cb, a[0], depth + 1), self.value(cb, a[1], depth + 1)
                if x is UN or y is UN:
                    return UN
                return int((x == y) == (n == "eq"))
            if n in ("intersects", "contains", "bitor", "bitand", "union", "intersection", "difference", "sub") and len(a) == 2:
                x, y = self.value(cb, a[0], depth + 1), self.value(cb, a[1], depth + 1)
                if not isinstance(x, int) or not isinstance(y, int):
                    return UN
                return {"intersects": lambda: int(x & y != 0), "contains": lambda: int(x & y == y), "bitor": lambda: x | y, "union": lambda: x | y,
                        "bitand": lambda: x & y, "intersection": lambda: x & y, "difference": lambda: x & ~y, "sub": lambda: x & ~y}[n]()
            if n in ("bits", "borrow", "deref", "as_ref", "from_bits_truncate", "from_bits_retain") and len(a) == 1:
                return self.value(cb, a[0], depth + 1)
            if n in ("is_some", "is_none", "is_ok", "is_err") and len(a) == 1:
                v = self.variant(cb, a[0], depth + 1)
                return int(v.lower() == n[3:]) if v in DISCR else UN
            if n == "is_empty" and len(a) == 1:
                v = self.value(cb, a[0], depth + 1)
                return int(v == 0) if isinstance(v, int) else UN
            if n == "not" and len(a) == 1:
                v = self.value(cb, a[0], depth + 1)
                return (1 - v) if v in (0, 1) else UN
            return UN
        if t.op == "phi":
            blk = t.a[0]
            vs = []
            for p, v in self.F.phis.get(t.a, {}).items():
                if (p, blk) in self.edges:
                    vs.append(self.value(p, v, depth + 1))
            if vs and all(v == vs[0] for v in vs) and vs[0] is not UN:
                return vs[0]
            return UN
        return UN

    def inside(self, b, t, depth):
        """The value held by a Some, an Ok or a Continue, if it is the same on every way that can run."""
        if depth > 30:
            return UN
        if t.op == "agg" and t.a[1] in ("Ok", "Some", "Continue") and len(t.a[3]) == 1:
            return self.value(b, t.a[3][0], depth + 1)
        k = ("i", t.id)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = UN
        if t.op == "phi":
            vs = []
            for p, v in self.F.phis.get(t.a, {}).items():
                if (p, t.a[0]) in self.edges and self.variant(p, v, depth + 1) not in ("Err", "None", "Break"):
                    vs.append(self.inside(p, v, depth + 1))
            if vs and all(v == vs[0] for v in vs) and vs[0] is not UN:
                self.memo[k] = vs[0]
        return self.memo[k]

    def variant(self, b, t, depth=0):
        """The variant of an Option, Result or ControlFlow, if it is the same on every way that can run."""
        if depth > 30:
            return None
        k = ("v", b if t.op == "ref" else None, t.id)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None
        v = self._variant(b, t, depth)
        self.memo[k] = v
        return v

    def _variant(self, b, t, depth):
        d = self.leaf(t)
        if isinstance(d, tuple) and d[0] == "v":
            return d[1]
        if t.op == "agg" and t.a[1] in DISCR and t.a[0].startswith(("core::", "std::", "rustfst::algorithms::lazy::cache")):
            return t.a[1]
        if t.op in ("clone", "deref"):
            return self.variant(b, t.a[0], depth + 1)
        if t.op == "ref":
            x = strip(self.F, b, t)
            return self.variant(b, x, depth + 1) if x is not t else None
        if t.op == "call":
            n, a = t.a[2], t.a[3]
            if n == "branch" and a:
                v = self.variant(t.a[1], a[0], depth + 1)
                return {"Ok": "Continue", "Some": "Continue", "Err": "Break", "None": "Break"}.get(v)
            if n in ("ok_or", "ok_or_else", "context", "with_context") and a:
                v = self.variant(t.a[1], a[0], depth + 1)
                return {"Some": "Ok", "None": "Err"}.get(v, v)
            if n in ("as_ref", "as_mut", "map", "map_err", "cloned", "copied", "as_deref", "as_deref_mut", "inspect") and a:
                return self.variant(t.a[1], a[0], depth + 1)
            if n == "ok" and a:
                return {"Ok": "Some", "Err": "None"}.get(self.variant(t.a[1], a[0], depth + 1))
            return None
        if t.op == "phi":
            blk = t.a[0]
            vs = [self.variant(p, v, depth + 1) for p, v in self.F.phis.get(t.a, {}).items() if (p, blk) in self.edges]
            return vs[0] if vs and all(v == vs[0] for v in vs) else None
        return None

    def binop(self, op, x, y):
        f = {"Eq": lambda: int(x == y), "Ne": lambda: int(x != y)}
        if isinstance(x, int) and isinstance(y, int):
            f.update({"Lt": lambda: int(x < y), "Le": lambda: int(x <= y), "Gt": lambda: int(x > y), "Ge": lambda: int(x >= y),
                      "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                      "Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y})
        return f[op]() if op in f else UN

    # ------------------------------------------------------------------ queries
    def calls(self, pred):
        return [b for b in self.F.calls if b in self.blocks and self.F.calls[b][0] and pred(self.F.calls[b][0])]

    def ok_returns(self, avoid=()):
        """Return blocks reachable on edges that can run, without entering `avoid` and without going through the propagation of an error."""
        seen = {0}
        errs = err_blocks(self.F)
        work = [0] if 0 not in avoid else []
        out = []
        while work:
            b = work.pop()
            bb = self.F.body.bbs[b]
            t = bb["term"]
            c = self.F.calls.get(b, (None,))[0]
            if c and c["name"] in ("from_residual", "format_err", "from_error") or b in errs:
                continue
            if t["t"] == "return":
                out.append(b)
            for s in mir.term_succ(t):
                if (b, s) in self.edges and s not in seen and s not in avoid:
                    seen.add(s)
                    work.append(s)
        return out
