import re

import flow
import mir
import sccp
from checks import p08

EXPLANATION = """
The containers a program copies and hands around (VectorFst, ConstFst, SymbolTable, the transition lists TrsVec and TrsConst, Tr, and every weight), everything
they are made of, every function of the core library, and the FFI's symbol table.
"""
RULE = """
Types: nothing reachable from these containers can be changed through a shared reference (no Cell, RefCell, Mutex, RwLock, Atomic, OnceCell, raw pointer,
mutable reference), so what is shared between copies can change only through a unique owner. Effects: no function of the core library makes a mutable raw
pointer, transmutes to a mutable reference, or claims Send or Sync for a type by hand; what is behind an Arc is edited through make_mut (which copies when
shared). An edit that asks for a unique owner (get_mut, try_unwrap) fails or copies when there is none, and is not dropped. Copies: clone, shallow_clone and
to_trs_vec take every part from the same part of the original.
"""
ROOTS = ("VectorFst", "ConstFst", "SymbolTable", "TrsVec", "TrsConst", "Tr", "TropicalWeight", "LogWeight", "ProbabilityWeight", "BooleanWeight", "IntegerWeight",
         "StringWeightLeft", "StringWeightRight", "StringWeightRestrict", "ProductWeight", "UnionWeight", "PowerWeight", "GallicWeight", "GallicWeightLeft",
         "GallicWeightRight", "GallicWeightRestrict", "GallicWeightMin")
SHARED = re.compile(r"(?<![A-Za-z])(\w*Cell|Mutex|RwLock|Atomic\w+|OnceLock|LazyLock|Condvar|Rc|Weak|NonNull)\b(?=<|$|,|>)|\*mut |\*const |&mut ")


def head(t):
    return re.sub(r"<.*", "", (t or "").strip("&")).split("::")[-1]


def types(ctx, prog):
    todo = [(a, (a["path"].split("::")[-1],)) for a in prog.adts.values() if a["path"].split("::")[-1] in ROOTS and a["path"].startswith("rustfst::")]
    seen = set()
    while todo:
        a, way = todo.pop(0)
        if a["path"] in seen:
            continue
        seen.add(a["path"])
        ctx.count("types")
        for v in a["variants"]:
            for x in v["fields"]:
                ctx.count("parts")
                m = SHARED.search(x["ty"].split("PhantomData")[0])
                if m:
                    ctx.violation("type.%s.%s" % (a["path"].split("::")[-1], x["name"]), "%s holds %s (%s), which can change while it is shared" % (
                        a["path"].split("::")[-1], x["ty"], " of ".join(reversed(way + (x["name"],)))), "%s:%s" % (a["file"], a["line"]))
                for n in re.findall(r"[\w:]+", x["ty"]):
                    if n in prog.adts and n not in seen:
                        todo.append((prog.adts[n], way + (x["name"],)))
    ctx.floor("types", 15)


def effects(ctx, prog):
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate != "rustfst" or not f.bbs or p08.is_test(f):
            continue
        ctx.count("functions")
        for l in f.locals:
            ty = l if isinstance(l, str) else str(l.get("ty"))
            if "*mut " in ty:
                ctx.violation("raw.%s" % f.path, "%s makes a mutable raw pointer (%s)" % (f.path, ty), f.where())
                break
        for b in f.bbs:
            for s in b["st"]:
                rv = s.get("rv")
                if isinstance(rv, dict) and rv.get("r") == "cast" and "Transmute" in rv.get("kind", "") and "Box" not in rv["kind"] and ("&mut" in rv["ty"] or "*mut" in rv["ty"]):
                    ctx.violation("raw.%s" % f.path, "%s makes a mutable reference out of a %s" % (f.path, rv.get("from")), f.where(s.get("ln")))
            t = b["term"]
            if t["t"] == "call":
                c = mir.callee_of(t)
                if not c:
                    continue
                d = c["def"]
                if c["name"] == "transmute" and "&mut" in str(c) or c["name"] in ("transmute_copy", "get_mut_unchecked") or "core::ptr::" in d and c["name"] in ("write", "copy", "copy_nonoverlapping", "swap", "replace", "write_bytes", "write_volatile", "write_unaligned"):
                    ctx.violation("raw.%s" % f.path, "%s writes through a pointer (%s)" % (f.path, c["name"]), f.where(t.get("ln")))
    ctx.floor("functions", 500)


def owners(ctx, prog):
    """Asking for a unique owner: not having one is not the end of the edit."""
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate not in ("rustfst", "rustfst_ffi") or not f.bbs or p08.is_test(f):
            continue
        hit = {}
        for i, b in enumerate(f.bbs):
            if b["term"]["t"] == "call":
                c = mir.callee_of(b["term"])
                if c and "Arc" in c["def"] and c["name"] in ("make_mut", "get_mut", "try_unwrap", "into_inner", "is_unique"):
                    ctx.count("owners asked (%s)" % c["name"])
                    if c["name"] in ("get_mut", "try_unwrap", "into_inner"):
                        hit[i] = c["name"]
        if not hit:
            continue
        F = flow.Flow(prog, mir.inline(prog, f, lambda *a: False))
        for i, n in hit.items():
            none = "Err" if n == "try_unwrap" else "None"

            def leaf(t):
                if t.op == "call" and t.a[1] == i and t.a[2] == n:
                    return ("v", none)
                return None
            S = sccp.Spec(prog, F, leaf)
            # in this world the function fails, or goes on with a copy
            copies = {b for b, (c, a) in F.calls.items() if c and (c["name"] in ("make_mut", "unwrap_or_else", "unwrap", "expect", "ok_or_else", "ok_or", "context", "with_context", "to_vec", "to_owned", "unwrap_or_clone")
                      or c["name"] in ("new", "from") and "Arc" in c["def"] or c["name"] == "clone" and not re.search(r"^&*(alloc::rcs::arc::)?Arc<", c.get("self") or ""))}
            rets = {b for b in F.rets if b in S.blocks}
            if i in S.blocks and p08.way(F, S, i, rets, copies):
                ctx.violation("owner.%s" % f.path, "%s drops the edit when the value is shared (%s)" % (f.path, n), f.where(f.bbs[i]["term"].get("ln")))
    ctx.floor("owners asked (make_mut)", 5)


def by_hand(ctx):
    import facts
    import os
    root = facts.REPO
    n = 0
    for d, _, fs in os.walk(os.path.join(root, "rustfst/src")):
        for x in sorted(fs):
            if x.endswith(".rs"):
                n += 1
                p = os.path.join(d, x)
                s = open(p, encoding="utf-8").read()
                s = re.sub(r'/\*.*?\*/', lambda m: re.sub(r"[^\n]", " ", m.group()), s, flags=re.S)
                s = re.sub(r"//[^\n]*", "", s)
                for m in re.finditer(r"\bunsafe\s+impl\b[^{;]*?\b(Send|Sync)\b", s):
                    ctx.violation("sync.%s" % os.path.relpath(p, root), "%s is claimed by hand" % m.group(1), "%s:%d" % (os.path.relpath(p, root), s.count("\n", 0, m.start()) + 1))
    ctx.count("files", n)


# ---------------------------------------------------------------- copies
class O(p08.O):
    """Origins, where a new Arc or list with the same content is the same."""

    def _of(self, b, t, busy):
        if t.op == "call" and len(t.a[3]) == 1 and t.a[2] in ("new", "into_boxed_slice", "unwrap_or_clone", "as_slice", "into_vec", "deref", "clone", "to_vec", "into_iter", "iter", "collect", "cloned", "copied", "to_owned", "borrow", "as_ref"):
            c = self.F.calls.get(t.a[1], (None, None))[0]
            if t.a[2] != "new" or c and ("Arc" in c["def"] or "Box" in c["def"]):
                return self.of(t.a[1], t.a[3][0], busy)
        return super()._of(b, t, busy)


def copies(ctx, prog):
    kinds = ("VectorFst", "VectorFstState", "ConstFst", "ConstState", "TrsVec", "TrsConst", "Tr", "SymbolTable", "BiHashMapString")
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate != "rustfst" or not f.bbs or p08.is_test(f) or f.kind == "Closure" or "{closure" in f.path:
            continue
        h = head(f.impl_self)
        if h not in kinds or f.name not in ("clone", "shallow_clone", "to_trs_vec", "trs"):
            continue
        key = "%s::%s" % (h, f.name)
        F = flow.Flow(prog, mir.inline(prog, f, lambda g, c, st: g.crate == "rustfst" and len(st) < 5 and g.name != "clone"))
        o = O(F)
        ctx.count("copies")
        if f.name == "trs":
            for b, t in F.rets.items():
                if h == "TrsConst" and not sliced(F, o, b, t) or h == "TrsVec" and o.of(b, t) != frozenset({(1, ("0",))}):
                    ctx.violation(key, "%s does not show exactly the transitions of the list" % key, f.where())
            continue
        for b, t in F.rets.items():
            for d in range(4):
                if t.op == "ref" and isinstance(t.a[0], int):
                    t = F.read(F.state_at_term(b), t.a[0], t.a[1])
            if t.op in ("deref", "clone") or t.op == "param":
                if o.of(b, t) != frozenset({(1, ())}):
                    ctx.violation(key, "%s copies something else" % key, f.where())
                continue
            if t.op != "agg":
                r = o.of(b, t)
                if r != frozenset({(1, ())}) and not (f.name == "to_trs_vec" and (sliced(F, o, b, t) if h == "TrsConst" else r == frozenset({(1, ("0",))}))):
                    ctx.violation(key, "%s does not put the copy together from the parts of the original" % key, f.where())
                continue
            for n, v in zip(t.a[2], t.a[3]):
                ctx.count("parts copied")
                r = o.of(b, v)
                want = frozenset({(1, (str(n),))})
                if f.name == "to_trs_vec" and h == "TrsConst":
                    if not sliced(F, o, b, v):
                        ctx.violation(key, "%s gives other transitions than the list shows" % key, f.where())
                elif r != want:
                    ctx.violation(key + "." + str(n), "%s takes %s of the copy from %s" % (key, n, ", ".join(sorted(p08.origin(x) if x else "nothing" for x in r)) or "elsewhere"), f.where())
    ctx.floor("copies", 9)


def sliced(F, o, b, v):
    """Is the list the part pos..pos+n of the shared list?"""
    pos, n = frozenset({(1, ("pos",))}), frozenset({(1, ("n",))})
    ts = list(flow.reach_terms(F, b, v))
    if not any(r == 1 and p[:1] == ("trs",) for x in ts + [v] for r, p in o.of(b, x)):
        return False
    cuts = set()
    for x in ts:
        if x.op == "agg" and "ops::range::Range" in x.a[0] and "Inclusive" not in x.a[0]:
            e = dict(zip(x.a[2], x.a[3]))
            if "start" in e:
                cuts.add(("from", o.of(b, e["start"])))
            if "end" in e:
                y = e["end"]
                y = y.a[0] if y.op == "field" and y.a[0].op == "bin" else y
                if y.op == "bin" and y.a[0].startswith("Add") and "start" in e and {o.of(b, y.a[1]), o.of(b, y.a[2])} == {pos, n}:
                    cuts.add(("take", n))
                else:
                    cuts.add(("take" if "start" not in e else "?", o.of(b, y)))
        elif x.op == "call" and x.a[2] in ("skip", "take") and len(x.a[3]) == 2:
            cuts.add(("from" if x.a[2] == "skip" else "take", o.of(x.a[1], x.a[3][1])))
        elif x.op == "call" and x.a[2] in ("filter", "step_by", "take_while", "skip_while", "rev", "split_at", "chunks", "filter_map"):
            cuts.add(("?", x.a[2]))
    return cuts == {("from", pos), ("take", n)}


def run(ctx):
    prog = ctx.prog if hasattr(ctx, "prog") else mir.load()
    types(ctx, prog)
    effects(ctx, prog)
    owners(ctx, prog)
    by_hand(ctx)
    copies(ctx, prog)
