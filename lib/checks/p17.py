import flow
import mir
import sccp

EXPLANATION = """
Every safe method of VectorFst, ConstFst and TrsIterMut that takes a state (or the index of a transition), and the default methods of the FST traits
that do; the pairs of a checked method and its unchecked twin.
"""
RULE = """
Under the assumption that the index is out of range (conditional constant propagation: lookups with it answer None, comparisons with the length and
delegated checked calls fail accordingly) no successful return, no write through self, no panic and no unchecked access is reachable; under the
assumption that it is in range no error is. Checked and unchecked twins return a value computed from the same data and change the same data from the
same data.
"""
TYPES = {"VectorFst": ("states", "u32"), "ConstFst": ("states", "u32"), "TrsIterMut": ("trs", "usize")}
INNER = ("VectorFst", "VectorFstState", "ConstFst", "ConstState", "TrsVec", "TrsIterMut")
TRAITS = ("CoreFst", "MutableFst", "AllocableFst", "ExpandedFst", "Fst")
SEE = ("get_mut", "get", "deref", "deref_mut", "as_ref", "as_mut", "iter_mut", "iter", "len", "as_mut_slice", "as_slice", "borrow", "borrow_mut", "make_mut", "index",
       "index_mut", "get_unchecked", "get_unchecked_mut", "into_iter", "last", "last_mut", "first_mut", "is_empty")
UNCHECKED = ("get_unchecked", "get_unchecked_mut", "unwrap_unchecked", "unsafe_unwrap")
PANIC = ("unwrap", "expect", "unwrap_err", "panic", "panic_fmt", "begin_panic", "unreachable_display", "unwrap_failed", "expect_failed", "index", "index_mut", "swap", "remove",
         "swap_remove", "insert", "split_at", "split_at_mut", "split_off", "drain", "copy_within")


def head(t):
    return (t or "").split("<")[0].split("::")[-1]


def want(f):
    return lambda g, c, s: g.crate == f.crate and g.file == f.file and not g.name.endswith("_unchecked") and g.name != "del_states"


def crooked(t):
    """Is the term the second parameter, possibly converted?"""
    for _ in range(8):
        if t.op == "cast":
            t = t.a[1]
        elif t.op in ("clone", "deref", "conv"):
            t = t.a[-1] if t.op == "conv" else t.a[0]
        elif t.op == "call" and t.a[2] in ("try_from", "try_into", "from", "into", "clone") and t.a[3]:
            t = t.a[3][0]
        elif t.op == "vf":
            t = t.a[0]
        else:
            break
    return t


def is_idx(t, idx):
    t = crooked(t)
    return idx(t)


def root(t):
    """(parameter, path) of what a term denotes, through references, elements and make_mut."""
    p = []
    for _ in range(60):
        if t.op == "param":
            return t.a[0], tuple(reversed(p))
        if t.op in ("deref", "clone", "box"):
            t = t.a[0]
        elif t.op == "cast":
            t = t.a[1]
        elif t.op == "field":
            p.append(str(t.a[1]))
            t = t.a[0]
        elif t.op == "vf":
            t = t.a[0]
        elif t.op == "payload" and CUR and CUR[0] is not None:
            x = t.a[0]
            good = [v.a[3][0] for v in CUR[0].phis.get(x.a, {}).values() if v.op == "agg" and v.a[1] in ("Ok", "Some") and v.a[3]] if x.op == "phi" else []
            if len(good) != 1:
                return None
            t = good[0]
        elif t.op == "idx":
            p.append("[]")
            t = t.a[0]
        elif t.op == "ref":
            c, q = t.a
            if isinstance(c, int):
                return None
            for k in reversed(q):
                if isinstance(k, str):
                    if k != "deref":
                        p.append(k)
                else:
                    p.append("[]")
            t = c[1]
        elif t.op == "call" and t.a[2] in SEE and t.a[3]:
            if t.a[2].startswith("get") or t.a[2].startswith("index"):
                p.append("[]")
            t = t.a[3][0]
        elif t.op in ("upd", "mut"):
            t = t.a[2] if t.op == "mut" else t.a[0]
            if not isinstance(t, flow.T):
                return None
        else:
            return None
    return None


def leaf_for(F, store, idx, inside):
    def of_store(t, b):
        r = root(t)
        return r is not None and r[0] == 1 and r[1] in ((store,), ())

    def length(t):
        t = crooked(t)
        return t.op == "call" and t.a[2] in ("len", "num_states") and t.a[3] and of_store(t.a[3][0], t.a[1])

    def leaf(t):
        if t.op == "call":
            n, a = t.a[2], t.a[3]
            if n in ("get", "get_mut") and len(a) == 2 and is_idx(a[1], idx) and of_store(a[0], t.a[1]) and root(a[0])[1] == (store,):
                return ("v", "Some" if inside else "None")
            if n in ("get", "get_mut") and len(a) == 2 and is_idx(a[1], idx) and F.body.fn.name == "del_states" and not inside:
                return ("v", "None")       # the renumbering table has one entry per state
            if n == "del_states" and len(a) == 2 and root(a[0]) == (1, ()):
                return ("v", "Ok" if inside else "Err")
            if n in ("try_from", "try_into") and a and is_idx(a[0], idx):
                return ("v", "Ok")
            if len(a) >= 2 and is_idx(a[1], idx) and root(a[0]) == (1, ()) and n in CHECKED:
                return ("v", "Ok" if inside else "Err")
            if n == "contains" and len(a) == 2 and is_idx(sccp.strip(F, t.a[1], a[1]), idx):
                return int(inside)
        if t.op == "bin" and t.a[0] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            o, x, y = t.a
            if length(x) and is_idx(y, idx):
                x, y = y, x
                o = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}.get(o, o)
            if is_idx(x, idx) and length(y):
                if o == "Lt":
                    return int(inside)
                if o == "Ge":
                    return int(not inside)
                if o in ("Eq", "Gt") and inside:
                    return 0
                if o in ("Ne", "Le") and inside:
                    return 1
        return None
    return leaf


CHECKED = set()
CUR = [None]     # the flow whose terms are looked at


def self_write(F, b, skip=False):
    """Writes through parameter 1 in block b: [(path, what, line)]."""
    out = []
    st = dict(F.inn[b])
    bb = F.body.bbs[b]
    for s in bb["st"]:
        if s["s"] != "=":
            continue
        v = F.rv(st, s["rv"], b)
        cell, path = F.place(st, s["pl"])
        if not isinstance(cell, int):
            r = root(flow.T("ref", (cell, tuple(path)))) if False else place_root(cell, path)
            if r and r[0] == 1:
                out.append((r[1], v, s.get("ln")))
        F.write(st, cell, path, v)
    t = bb["term"]
    c, a = F.calls.get(b, (None, None))
    if t["t"] == "call" and c is None:
        c = mir.callee_of(t)
        if c and c["name"] in ("take", "replace", "swap", "insert", "get_or_insert_with"):
            a = [F.op(F.state_at_term(b), o) for o in t.get("args") or []]
        else:
            c = None
    if c and c["name"] not in SEE and not (c["name"] in CHECKED and skip):
        ops = t.get("args") or []
        for i, x in enumerate(a or []):
            r = root(x)
            if r is None or r[0] != 1:
                continue
            ty = op_ty(F, ops[i]) if i < len(ops) else ""
            if ty.startswith("&mut"):
                out.append((r[1], [y for j, y in enumerate(a) if j != i], t.get("ln")))
    return out


def place_root(cell, path):
    r = root(cell[1]) if isinstance(cell, tuple) and len(cell) > 1 and isinstance(cell[1], flow.T) else None
    if r is None:
        return None
    p = [k if isinstance(k, str) else "[]" for k in path if k != "deref"]
    return r[0], r[1] + tuple(p)


def op_ty(F, o):
    if o.get("k") in ("move", "copy") and not o["pl"].get("p"):
        return F.body.locals[o["pl"]["l"]]
    return ""


def targets(prog):
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate != "rustfst" or not f.bbs or f.unsafe or f.kind == "Closure" or "{closure" in f.path:
            continue
        h = head(f.impl_self)
        if h in TYPES and f.argc >= 2:
            store, ty = TYPES[h]
            if f.args()[1] == ty and "&" in f.args()[0]:
                yield f, h, store, (lambda t: t.op == "param" and t.a[0] == 2)
            elif f.name == "del_states":
                yield f, h, store, (lambda t: t.op == "call" and t.a[2] == "next")
        elif not f.impl_self and f.in_trait and head(f.in_trait) in TRAITS and f.argc >= 2 and f.args()[1] == "u32":
            yield f, head(f.in_trait), "states", (lambda t: t.op == "param" and t.a[0] == 2)


def worlds(ctx, prog):
    for f, h, store, idx in targets(prog):
        F = CUR[0] = flow.Flow(prog, mir.inline(prog, f, want(f)))
        result = head(mir.ty_head(f.ret)[0]) == "Result"
        key = "%s.%s" % (h, f.name)
        leaf0 = leaf_for(F, store, idx, False)
        leaf1 = leaf_for(F, store, idx, True)
        if f.name == "del_states":
            def wrap(l):
                def leaf(t):
                    if t.op == "call" and t.a[2] == "next" and first_loop(F, t):
                        return ("v", "Some")
                    return l(t)
                return leaf
            S = sccp.Spec(prog, F, wrap(leaf0))
        else:
            S = sccp.Spec(prog, F, leaf0)
        ctx.count("methods")
        if not result:
            # cannot report: must at least not touch memory it has not checked
            for b in S.calls(lambda c: c["name"] in UNCHECKED):
                a = F.calls[b][1]
                if len(a) > 1 and is_idx(a[1], idx):
                    ctx.violation(key + ".unchecked", "%s::%s, a safe method, reads memory out of bounds for a state that does not exist" % (h, f.name),
                                  f.where(F.body.bbs[b]["term"].get("ln")))
            if f.ret.startswith("core::option::Option"):
                ctx.count("lookups")
            continue
        errs = sccp.err_blocks(F)
        if [b for b in S.ok_returns() if b not in F.rets or S.variant(b, F.rets[b]) != "Err"]:
            ctx.violation(key + ".accepts", "%s::%s can report success for %s that does not exist" % (h, f.name, "a transition" if store == "trs" else "a state"), f.where())
        if f.name == "del_states" and again(F, S, errs):
            ctx.violation(key + ".accepts", "%s::%s goes on after a state that does not exist" % (h, f.name), f.where())
        for b in sorted(S.blocks & set(F.inn)):
            t = F.body.bbs[b]["term"]
            c, a = F.calls.get(b, (None, None))
            if t["t"] == "assert" and t.get("kind") == "bounds":
                ctx.violation(key + ".panic", "%s::%s panics on a %s that does not exist" % (h, f.name, "transition" if store == "trs" else "state"), f.where(t.get("ln")))
            if c and c["name"] in PANIC and (c["name"] in ("panic", "panic_fmt", "begin_panic", "unwrap", "expect") or any(is_idx(x, idx) for x in a[1:])):
                ctx.violation(key + ".panic", "%s::%s panics (%s) on a %s that does not exist" % (h, f.name, c["name"], "transition" if store == "trs" else "state"), f.where(t.get("ln")))
            if c and c["name"] in UNCHECKED:
                ctx.violation(key + ".unchecked", "%s::%s reads memory out of bounds for a state that does not exist" % (h, f.name), f.where(t.get("ln")))
            for path, v, ln in self_write(F, b, True):
                ctx.violation(key + ".changes", "%s::%s changes %s before it refuses a %s that does not exist" % (
                    h, f.name, ".".join(path) or "the object", "transition" if store == "trs" else "state"), f.where(ln))
        if f.name != "del_states":
            S = sccp.Spec(prog, F, leaf1)
            ctx.count("accepted indices")
            for b in sorted(S.blocks & errs):
                if b in F.inn:
                    ctx.violation(key + ".refuses", "%s::%s can report an error for a %s that exists" % (h, f.name, "transition" if store == "trs" else "state"),
                                  f.where(F.body.bbs[b]["term"].get("ln")))
                    break
        ctx.sample("%s::%s" % (h, f.name), "%d of %d blocks run for an index out of range" % (len(S.blocks), len(F.body.bbs)))


def first_loop(F, t):
    """Is this next() of the iterator the caller passed?"""
    nb = t.a[1]
    return nb == min((b for b, (c, a) in F.calls.items() if c and c["name"] == "next"), default=None)


def again(F, S, errs):
    hb = min((b for b, (c, a) in F.calls.items() if c and c["name"] == "next"), default=None)
    if hb is None:
        return False
    seen, work = set(), [y for x, y in S.edges if x == hb]
    while work:
        x = work.pop()
        if x == hb:
            return True
        if x in seen or x in errs:
            continue
        seen.add(x)
        work += [y for z, y in S.edges if z == x]
    return False


# ---------------------------------------------------------------- twins
def atoms(F, b, t, out, seen):
    if not isinstance(t, flow.T) or (b, t.id) in seen or len(seen) > 3000:
        return
    seen.add((b, t.id))
    r = root(t)
    if r is not None:
        if r[0] == 1:
            # the part of self, or of the entry, that is read
            p = [x for x in r[1]]
            out.add(".".join(x for x in p if x not in ("0", "deref")))
        elif r[0] != 2:
            out.add("arg%d" % r[0])
        return
    if t.op == "ref":
        c, p = t.a
        if isinstance(c, int) and b in F.inn:
            try:
                atoms(F, b, F.read(F.state_at_term(b), c, p), out, seen)
            except Exception:
                pass
        return
    if t.op == "phi":
        for q, v in F.phis.get(t.a, {}).items():
            atoms(F, q, v, out, seen)
        return
    if t.op == "call":
        if t.a[2] == "from_residual":
            return
        if not t.a[3] and t.a[2] in ("zero", "one"):
            out.add(t.a[2] + "()")
        for x in t.a[3]:
            atoms(F, t.a[1], x, out, seen)
        return
    for x in t.a:
        if isinstance(x, flow.T):
            atoms(F, b, x, out, seen)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, flow.T):
                    atoms(F, b, y, out, seen)


def summary(prog, f):
    F = CUR[0] = flow.Flow(prog, mir.inline(prog, f, lambda g, c, s: g.crate == f.crate and (g.file == f.file or head(g.impl_self) in INNER)))
    out = {}
    for b in sorted(F.inn):
        for path, v, ln in self_write(F, b):
            k = ".".join(x for x in path if x not in ("0", "deref"))
            s = out.setdefault(k, set())
            for x in v if isinstance(v, list) else [v]:
                atoms(F, b, x, s, set())
    ret = set()
    if not f.ret.endswith("()") and "Result<()," not in f.ret:
      for b, t in F.rets.items():
        atoms(F, b, t, ret, set())
    return out, ret


def compatible(a, b):
    """Equal up to one side reading the whole of what the other reads a part of."""
    def cover(x, ys):
        return any(y == x or y.startswith(x + ".") or x.startswith(y + ".") for y in ys if y or not x) or x == "" or x in ("states", "states.[]")
    return all(cover(x, b) for x in a) and all(cover(y, a) for y in b)


def twins(ctx, prog):
    fns = {}
    for f in prog.fns.values():
        if f.crate == "rustfst" and f.bbs and "{closure" not in f.path:
            h = head(f.impl_self) if f.impl_self else head(f.in_trait) if f.in_trait else None
            if h in TYPES or h in TRAITS:
                fns.setdefault((h, f.name), f)
    for (h, n), f in sorted(fns.items()):
        m = n.replace("tr_iter_mut", "tr_iter_unchecked_mut") if n == "tr_iter_mut" else n + "_unchecked"
        g = fns.get((h, m))
        if g is None:
            continue
        a, ra = summary(prog, f)
        b, rb = summary(prog, g)
        ctx.count("twins")
        ctx.sample("%s::%s" % (h, n), "changes %s; answers from %s" % (sorted(a), sorted(ra)))
        key = "%s.%s.twin" % (h, n)
        if not compatible(set(a), set(b)):
            ctx.violation(key, "%s::%s changes %s, its unchecked twin changes %s" % (h, n, sorted(a), sorted(b)), g.where())
            continue
        for k in set(a) & set(b):
            if not compatible(a[k], b[k]):
                ctx.violation(key, "%s::%s computes %s from %s, its unchecked twin from %s" % (h, n, k, sorted(a[k]), sorted(b[k])), g.where())
        if not compatible(ra, rb):
            ctx.violation(key, "%s::%s answers from %s, its unchecked twin from %s" % (h, n, sorted(ra), sorted(rb)), g.where())


def run(ctx):
    prog = mir.load()
    for f, h, store, idx in targets(prog):
        if head(mir.ty_head(f.ret)[0]) == "Result":
            CHECKED.add(f.name)
    CHECKED.add("del_states")
    worlds(ctx, prog)
    twins(ctx, prog)
    ctx.floor("methods", 25)
    ctx.floor("twins", 18)
