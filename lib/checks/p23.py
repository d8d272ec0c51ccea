import re

import flow
import mir
import sccp
import sides

EXPLANATION = """
Every construct of the core crate and the C API that makes a transition, writes one of its labels, hands labels to a parameter named after a
side or appends to a label sequence; for each, the label fields the value is computed from (data dependence through calls, lookups, copies and
joins). The transition mappers and weight converters: which fields they write and with what. The whole-FST operations: their loops.
"""
RULE = """
An input label is never computed from an output label or the other way round, except in inversion (both, exchanged), projection (the kept side, by
project type) and the conversion to gallic weights; the two labels and the weight of a copied transition come from the same transition; a mapper or
converter changes exactly the fields it is for; an operation that maps or copies an FST visits every state and every transition and leaves its loops
only when they are exhausted or with an error.
"""
A = "rustfst::algorithms::"
CROSS = (A + "inversion", A + "projection", A + "weight_converters::to_gallic_converter")
PAIR_OK = (A + "compose",)                    # composition pairs a transition of each FST
WEIGHT_OK = (A + "randgen", A + "compose", A + "encode")
MAPPERS = {   # mapper -> fields of a transition, fields of a final transition
    "IdentityTrMapper": (set(), set()),
    "InputEpsilonMapper": ({"ilabel"}, set()),
    "OutputEpsilonMapper": ({"olabel"}, set()),
    "InvertWeightMapper": ({"weight"}, {"weight"}),
    "PlusMapper": ({"weight"}, {"weight"}),
    "TimesMapper": ({"weight"}, {"weight"}),
    "QuantizeMapper": ({"weight"}, {"weight"}),
    "RmWeightMapper": ({"weight"}, {"weight"}),
    "EncodeMapper": ({"ilabel", "olabel", "weight"}, {"ilabel", "olabel", "weight"}),
    "DecodeMapper": ({"ilabel", "olabel", "weight"}, {"ilabel", "olabel", "weight"}),
}
WEIGHT_OP = {   # mapper -> operation on the weight, its operand
    "PlusMapper": (("plus_assign", "plus"), "to_add"),
    "TimesMapper": (("times_assign", "times"), "to_multiply"),
    "QuantizeMapper": (("quantize_assign", "quantize"), "delta"),
}
TRAVERSE = {   # operation -> what it does to every transition (or to every state)
    A + "inversion::invert": ("set_labels_unchecked|set_labels|set_tr_unchecked|set_tr",),
    A + "projection::project": ("set_olabel_unchecked|set_olabel|set_ilabel_unchecked|set_ilabel|set_tr_unchecked|set_tr|set_labels_unchecked",),
    A + "relabel_pairs::relabel_pairs": (None,),
    A + "tr_map::tr_map": ("set_tr_unchecked|set_tr",),
    A + "weight_convert::weight_convert": ("add_tr|add_tr_unchecked|push",),
    A + "fst_convert::fst_convert": ("add_tr|add_tr_unchecked|push",),
    A + "fst_convert::fst_convert_from_ref": ("add_tr|add_tr_unchecked|push",),
    A + "reverse::reverse": ("push|add_tr|add_tr_unchecked",),
    A + "union::union_static::union": ("add_tr|add_tr_unchecked|push",),
    A + "concat::concat_static::concat": ("add_tr|add_tr_unchecked|push",),
    A + "tr_sort::tr_sort": ("sort_trs_unchecked|sort_trs",),
    A + "tr_sum::tr_sum": ("sum_trs_unchecked|sum_trs",),
    A + "tr_unique::tr_unique": ("unique_trs_unchecked|unique_trs",),
}
ADAPT = ("skip", "take", "filter", "filter_map", "step_by", "take_while", "skip_while", "map_while", "dedup", "retain", "truncate", "split_at", "split_first",
         "split_last", "first", "last", "nth", "pop")


def head(t):
    return mir.ty_head(mir.strip_refs(t or ""))[0].split("::")[-1]


def mod_in(f, mods):
    p = f.path
    m = re.match(r"<(.*) as ", p)
    return any(x in p for x in mods)


def module_of(f):
    """Module path from the file, so that helpers and impl blocks count as the module they are written in."""
    p = f.file
    i = p.find("/src/")
    return p[i + 5:-3].replace("/", "::") if i >= 0 else p


def in_mods(f, mods):
    m = f.crate + "::" + module_of(f)
    return any(m == x or m.startswith(x + "::") or f.path.startswith(x + "::") for x in mods)


# ---------------------------------------------------------------- sides
def named_params(f):
    return {i + 1: sides.SIDE[n] for i, n in enumerate(f.arg_names()) if n in sides.SIDE}


def label_sides(ctx, prog):
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate not in ("rustfst", "rustfst_ffi") or not f.bbs or "::test" in f.path or "tests_openfst" in f.path:
            continue
        F, ss = sides.sites(prog, f)
        if not ss:
            continue
        np = named_params(f)
        for s in ss:
            d = {k: sides.deps(F, b, t) for k, (b, t) in s.parts.items() if k in sides.SIDE}
            for k, (b, t) in s.parts.items():
                if k in sides.SIDE:
                    for i in flow.dep_params(F, b, t) & set(np):
                        d[k].add((np[i], ("p", i)))
            ctx.count("label sites")
            where = f.where(s.ln)
            if in_mods(f, CROSS):
                ctx.count("label sites of inversion, projection and gallic conversion")
            else:
                for k, v in d.items():
                    bad = [x for x in v if x[0] != sides.SIDE[k]]
                    if bad:
                        ctx.violation("%s:%s.%s" % (f.path, s.kind, k), "%s computes an %s from an %s" % (
                            f.name, k, "olabel" if bad[0][0] == "O" else "ilabel"), where)
            if in_mods(f, CROSS):
                continue
            # the labels of one transition
            i = [v for k, v in d.items() if sides.SIDE[k] == "I"]
            o = [v for k, v in d.items() if sides.SIDE[k] == "O"]
            if i and o and not in_mods(f, PAIR_OK):
                bi = {x[1] for x in i[0] if x[0] == "I" and x[1][0] != "p"}
                bo = {x[1] for x in o[0] if x[0] == "O" and x[1][0] != "p"}
                if bi and bo:
                    ctx.count("copied transitions")
                    if not bi & bo:
                        ctx.violation("%s:%s.pair" % (f.path, s.kind), "%s joins the input label of one transition with the output label of another" % f.name, where)
                if bi and bo and bi & bo and s.kind == "make" and "weight" in s.parts and not in_mods(f, WEIGHT_OK):
                    b, t = s.parts["weight"]
                    rt = flow.reach_terms(F, b, t)
                    src = any(x.op == "field" and x.a[1] == "weight" for x in rt) or any(
                        x.op == "ref" and "weight" in [k for k in x.a[1] if isinstance(k, str)] for x in rt) or any(("t", x.id) in bi for x in rt)
                    # a weight that is taken from where a factor iterator or a reader keeps it
                    if not src and not any(x.op in ("call", "param", "vf") and (x.op != "call" or x.a[2] not in ("one", "zero")) for x in rt):
                        ctx.violation("%s:%s.weight" % (f.path, s.kind), "%s copies the labels of a transition but not its weight" % f.name, where)
                    ctx.count("copied weights")


# ---------------------------------------------------------------- inversion and projection, by value
def want_file(f):
    return lambda g, c, s: g.crate == "rustfst" and g.file == f.file and not g.impl_trait and len(g.bbs) < 80


SETTERS = {"set_labels_unchecked": ("I", "O"), "set_labels": ("I", "O"), "set_ilabel_unchecked": ("I",), "set_ilabel": ("I",), "set_olabel_unchecked": ("O",),
           "set_olabel": ("O",)}


def setter_calls(prog, F, blocks):
    for b, (c, a) in sorted(F.calls.items()):
        if c and c["name"] in SETTERS and b in blocks:
            sd = SETTERS[c["name"]]
            vals = a[-len(sd):]
            yield b, c["name"], a, {s: sides.deps(F, b, v) for s, v in zip(sd, vals)}


def index_of(a):
    return a[1] if len(a) >= 3 else None


def invert_project(ctx, prog):
    f = one(prog, A + "inversion::invert")
    if f:
        F = flow.Flow(prog, mir.inline(prog, f, want_file(f)))
        got = {}
        for b, n, a, d in setter_calls(prog, F, set(F.inn)):
            for s, v in d.items():
                got.setdefault(s, []).append((b, v))
                ctx.count("inverted labels")
                if {x[0] for x in v} - {"O" if s == "I" else "I"}:
                    ctx.violation("invert.%s" % s, "inversion computes the %s label from the %s label" % (
                        "input" if s == "I" else "output", "same" if {x[0] for x in v} == {s} else "other and the same"), f.where(F.body.bbs[b]["term"].get("ln")))
        if got and set(got) != {"I", "O"}:
            ctx.violation("invert.sides", "inversion sets only one label of a transition", f.where())
    f = one(prog, A + "projection::project")
    if f:
        F = flow.Flow(prog, mir.inline(prog, f, want_file(f)))
        names = f.arg_names()
        if "project_type" in names:
            i = names.index("project_type") + 1
            for v, w, r in (("ProjectInput", "O", "I"), ("ProjectOutput", "I", "O")):
                S = sccp.Spec(prog, F, lambda t, v=v: sccp.enum(v) if sccp.path(t) == (i, ()) else None)
                for b, n, a, d in setter_calls(prog, F, S.blocks):
                    for s, x in d.items():
                        ctx.count("projected labels")
                        side = {"I": "input", "O": "output"}
                        srcs = {y[0] for y in x}
                        if s == w and srcs and srcs != {r} or s != w and srcs and srcs != {s}:
                            ctx.violation("project[%s].%s" % (v, s), "projection with %s sets the %s label from the %s label" % (
                                v, side[s], side[sorted(srcs - {r})[0]] if srcs - {r} else side[r]), f.where(F.body.bbs[b]["term"].get("ln")))


def one(prog, path):
    fs = [f for f in prog.fns.values() if f.crate == "rustfst" and f.path == path and f.bbs]
    return fs[0] if len(fs) == 1 else None


# ---------------------------------------------------------------- mappers
def mappers(ctx, prog):
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate != "rustfst" or not f.impl_trait or "tr_map::TrMapper" not in f.impl_trait or f.name not in ("tr_map", "final_tr_map"):
            continue
        h = head(f.impl_self)
        if h not in MAPPERS:
            continue
        allowed = MAPPERS[h][0 if f.name == "tr_map" else 1]
        F = flow.Flow(prog, mir.inline(prog, f, want_file(f)))
        ctx.count("mapper methods")
        wrote = {}
        for (b, i), ws in sorted(F.writes.items(), key=lambda x: (x[0][0], str(x[0][1]))):
            for cell, path, v in ws:
                if isinstance(cell, int) or cell[1].op != "param" or cell[1].a[0] != 2:
                    continue
                fl = [k for k in path if isinstance(k, str) and k != "deref"]
                k = fl[0] if fl else "*"
                wrote.setdefault(k, []).append((b, i, v))
                if k not in allowed:
                    ctx.violation("%s.%s.%s" % (h, f.name, k), "%s::%s changes the %s of a transition" % (h, f.name, "whole" if k == "*" else k), f.where())
        if h == "InputEpsilonMapper" or h == "OutputEpsilonMapper":
            for k in allowed:
                for b, i, v in wrote.get(k, []):
                    if v is not None and v.op == "const" and str(v.a[1]) != "0":
                        ctx.violation("%s.%s.%s" % (h, f.name, k), "%s sets the label to %s instead of epsilon" % (h, v.a[1]), f.where())
        if h in ("EncodeMapper", "DecodeMapper"):
            continue
        S = sccp.Spec(prog, F, lambda t: None)
        for k in allowed:
            bs = {b for b, i, v in wrote.get(k, [])}
            if h == "RmWeightMapper":
                continue
            if S.ok_returns(bs):
                ctx.violation("%s.%s.%s.every" % (h, f.name, k), "%s::%s can leave the %s of a transition as it was" % (h, f.name, k), f.where())
        if h in WEIGHT_OP and allowed:
            ops, operand = WEIGHT_OP[h]
            cs = [(b, c, a) for b, (c, a) in F.calls.items() if c and "semiring" in (c.get("trait") or c["def"]).lower() and c["name"] != "clone"]
            for b, c, a in cs:
                ctx.count("mapped weights")
                if c["name"] in ("take_value", "set_value", "value", "into"):
                    continue
                if c["name"] not in ops:
                    ctx.violation("%s.%s.op" % (h, f.name), "%s applies %s to the weight" % (h, c["name"]), f.where())
                elif len(a) == 2:
                    y = sccp.strip(F, b, a[1])
                    q = sccp.path(a[1]) or sccp.path(y)
                    w = sccp.path(a[0])
                    if q is not None and q != (1, (operand,)) and not (q[0] == 2 and sccp.path(a[0]) == (1, (operand,))):
                        ctx.violation("%s.%s.operand" % (h, f.name), "%s uses %s as the other weight" % (h, flow.show(a[1])), f.where())
                    if c["name"] == "times" and q is not None and q[0] == 2:
                        ctx.violation("%s.%s.order" % (h, f.name), "%s multiplies from the left" % h, f.where())
        if h == "InvertWeightMapper":
            for b, (c, a) in F.calls.items():
                if c and c["name"] == "divide" and len(a) >= 2:
                    ctx.count("mapped weights")
                    x = sccp.strip(F, b, a[0])
                    if sccp.path(x) is not None and sccp.path(x)[0] == 2:
                        ctx.violation("InvertWeightMapper.order", "the inverted weight is the weight divided by something", f.where())


def converters(ctx, prog):
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate != "rustfst" or not f.impl_trait or "weight_convert::WeightConverter" not in f.impl_trait or f.name != "tr_map":
            continue
        F, ss = sides.sites(prog, f)
        mk = [s for s in ss if s.kind == "make" and "nextstate" in s.parts]
        for s in mk:
            ctx.count("converted transitions")
            b, t = s.parts["nextstate"]
            q = sccp.path(t)
            if q is not None and q != (2, ("nextstate",)) or t.op in ("const", "bin"):
                ctx.violation("%s.nextstate" % f.path, "the converter %s changes the destination of a transition" % head(f.impl_self), f.where(s.ln))
            b, t = s.parts["ilabel"]
            q = sccp.path(t)
            if q is not None and q != (2, ("ilabel",)) or t.op in ("const", "bin"):
                ctx.violation("%s.ilabel" % f.path, "the converter %s changes the input label of a transition" % head(f.impl_self), f.where(s.ln))
            b, t = s.parts["weight"]
            rt = flow.reach_terms(F, b, t)
            has = lambda n: any(x.op == "field" and x.a[1] == n for x in rt) or any(x.op == "ref" and n in x.a[1] for x in rt)
            if not has("weight"):
                ctx.violation("%s.weight" % f.path, "the converter %s drops the weight of a transition" % head(f.impl_self), f.where(s.ln))
        if head(f.impl_self) == "ToGallicConverter" and mk:
            ok = False
            for s in mk:
                b, t = s.parts["weight"]
                ok = ok or any(x[0] == "O" for x in sides.deps(F, b, t))
            if not ok:
                ctx.violation("%s.string" % f.path, "the output label does not reach the gallic weight", f.where())


# ---------------------------------------------------------------- traversals
def loops(F):
    """header -> (some-successor, none-successor, loop blocks) of loops driven by Iterator::next."""
    out = {}
    body = F.body
    preds = body.preds()
    for b, (c, a) in F.calls.items():
        if not c or c["name"] != "next" or "Iterator" not in (c.get("trait") or c["def"]):
            continue
        t = body.bbs[b]["term"]
        s = t.get("to")
        # the switch on the answer
        seen = set()
        while s is not None and s not in seen and body.bbs[s]["term"]["t"] == "goto":
            seen.add(s)
            s = body.bbs[s]["term"]["to"]
        if s is None or body.bbs[s]["term"]["t"] != "switch":
            continue
        sw = body.bbs[s]["term"]
        tg = {int(k): to for k, to in sw["targets"]}
        some = tg.get(1, sw["otherwise"])
        none = tg.get(0, sw["otherwise"])
        if some == none:
            continue
        # blocks from which the header is reached again
        back = {b}
        work = [b]
        while work:
            x = work.pop()
            for p in preds[x]:
                if p not in back and p in F.inn:
                    back.add(p)
                    work.append(p)
        fwd = {some}
        work = [some]
        while work:
            x = work.pop()
            for y in body.succ(x):
                if y not in fwd and y != b:
                    fwd.add(y)
                    work.append(y)
        inside = fwd & back
        if some in back:
            out[b] = (some, none, inside)
    return out


def reaches_self(F, a, h):
    """Is a in a cycle that does not go through h?"""
    return any(reaches(F, s, {a}, {h}) for s in F.body.succ(a) if s != h)


def same_labels(F):
    """Edges taken only when the two labels of a transition are equal."""
    out = set()
    for b in F.inn:
        t = F.body.bbs[b]["term"]
        if t["t"] != "switch":
            continue
        c = F.op(F.state_at_term(b), t["op"])
        if c.op == "bin" and c.a[0] in ("Eq", "Ne"):
            d = [sides.deps(F, b, x) for x in c.a[1:]]
            if {x[0] for x in d[0]} | {x[0] for x in d[1]} == {"I", "O"} and {x[1] for x in d[0]} == {x[1] for x in d[1]}:
                tg = {int(k): to for k, to in t["targets"]}
                out.add((b, tg.get(1, t["otherwise"]) if c.a[0] == "Eq" else tg.get(0, t["otherwise"])))
    return out


def reaches(F, start, goal, avoid, noedge=()):
    seen = {start}
    work = [start]
    if start in avoid:
        return False
    while work:
        x = work.pop()
        if x in goal:
            return True
        for y in F.body.succ(x):
            if y not in seen and y not in avoid and (x, y) not in noedge:
                seen.add(y)
                work.append(y)
    return False


def traversals(ctx, prog):
    for path, (act,) in TRAVERSE.items():
        f = one(prog, path)
        if f is None:
            ctx.count("operations not found")
            continue
        F = flow.Flow(prog, mir.inline(prog, f, want_file(f)))
        ls = loops(F)
        ctx.count("traversals")
        errs = sccp.err_blocks(F)
        rets = set(F.rets)
        for h, (some, none, inside) in ls.items():
            ctx.count("loops")
            # left only when exhausted or with an error
            for x in sorted(inside):
                for y in F.body.succ(x):
                    if y in inside or y == h:
                        continue
                    if reaches(F, y, rets, errs | {h}) and not dead_end(F, y):
                        ctx.violation("%s.exit" % path, "%s leaves a loop before it has seen every element" % f.name, f.where(F.body.bbs[x]["term"].get("ln")))
        inner = {h for h, v in ls.items() if not any(o != h and o in v[2] for o in ls)}
        if act:
            names = set(act.split("|"))
            acts = {b for b, (c, a) in F.calls.items() if c and c["name"] in names}
            cover = [h for h in inner if acts & ls[h][2]]
            if ls and not cover and not inlined_elsewhere(prog, F, names):
                ctx.violation("%s.action" % path, "%s does not handle the elements of its loops" % f.name, f.where())
            over_trs = [h for h in cover if "tr::Tr<" in item(F, h) or "usize" in item(F, h)]
            for h in over_trs or cover:
                some, none, inside = ls[h]
                mine = acts & inside
                if any(reaches_self(F, a, h) for a in mine):
                    ctx.count("inner loops written without an iterator")
                    continue
                ctx.count("per-element actions")
                if reaches(F, some, {h}, acts | errs, same_labels(F)):
                    ctx.violation("%s.each" % path, "%s can skip an element of its loop" % f.name, f.where(F.body.bbs[h]["term"].get("ln")))
        always(ctx, prog, f, F, ls, path)
        # complete ranges
        for b in sorted(F.inn):
            st = dict(F.inn[b])
            for s in F.body.bbs[b]["st"]:
                if s["s"] != "=":
                    continue
                v = F.rv(st, s["rv"], b)
                if s["rv"]["r"] == "agg" and v.op == "agg" and v.a[0].endswith("::Range"):
                    fl = dict(zip(v.a[2], v.a[3]))
                    ctx.count("ranges")
                    lo, hi = fl.get("start"), fl.get("end")
                    if lo is not None and lo.op == "const" and str(lo.a[1]) not in ("0",) or hi is not None and shrunk(hi):
                        ctx.violation("%s.range" % path, "%s runs over %s..%s" % (f.name, flow.show(lo), flow.show(hi)), f.where(s.get("ln")))
                cell, pth = F.place(st, s["pl"])
                F.write(st, cell, pth, v)
        for b, (c, a) in F.calls.items():
            if c and c["name"] in ADAPT and ("Iterator" in (c.get("trait") or "") or "slice" in c["def"] or "vec::Vec" in c["def"]):
                ctx.violation("%s.%s" % (path, c["name"]), "%s works on a part of a sequence (%s)" % (f.name, c["name"]), f.where(F.body.bbs[b]["term"].get("ln")))


NEEDS_START = ("tr_map", "weight_convert", "union", "concat")   # what these do without a start state is not claimed


def always(ctx, prog, f, F, ls, path):
    """No successful return around the loops, for FSTs that have states (and a start state, where the operation needs one) and no known properties."""
    if not ls:
        return
    start = f.name in NEEDS_START

    def of_start(t, b=None):
        if b is not None:
            t = sccp.strip(F, b, t)
        t = t.a[0] if t.op in ("deref", "clone") and t.a and hasattr(t.a[0], "op") else t
        return t.op == "call" and t.a[2] == "start"

    def leaf(t):
        if start and t.op == "discr" and of_start(t.a[0]):
            return 1
        if t.op == "call":
            n = t.a[2]
            if start and n in ("is_some", "is_none") and t.a[3] and of_start(t.a[3][0], t.a[1]):
                return int(n == "is_some")
            if n in ("num_states", "len"):
                return 7
            if n == "is_empty":
                return 0
            if n in ("contains", "intersects") and "FstProperties" in t.a[0]:
                return 0
        return None
    S = sccp.Spec(prog, F, leaf)
    ctx.count("operations that always traverse")
    if S.ok_returns(avoid=set(ls)):
        ctx.violation("%s.skipped" % path, "%s can report success without having visited the states%s" % (f.name, "" if start else " (an FST without start state has states too)"),
                      f.where())


def item(F, h):
    t = F.body.bbs[h]["term"]
    return F.body.locals[t["dst"]["l"]]


def inlined_elsewhere(prog, F, names):
    """The work is handed to another function of the crate (an extracted helper in another file, a closure)."""
    return any(c and (c["name"] in ("for_each", "try_for_each", "fold", "try_fold", "collect", "extend")) for c, a in F.calls.values())


def dead_end(F, b):
    return F.body.bbs[b]["term"]["t"] == "unreachable"


def shrunk(t):
    t = t.a[1] if t.op == "cast" else t
    return t.op == "bin" and t.a[0] in ("Sub", "Div", "Shr", "BitAnd") or t.op == "field" and t.a[0].op == "bin" or t.op == "call" and t.a[2] in (
        "saturating_sub", "wrapping_sub", "min")


# ---------------------------------------------------------------- sort order
def comparators(ctx, prog):
    for h, s in (("ILabelCompare", "I"), ("OLabelCompare", "O")):
        for f in prog.fns.values():
            if f.crate == "rustfst" and f.name == "compare" and head(f.impl_self) == h and f.bbs:
                F = flow.Flow(prog, mir.inline(prog, f, want_file(f)))
                for b, t in F.rets.items():
                    d = sides.deps(F, b, t)
                    ctx.count("label orders")
                    if d and {x[0] for x in d} != {s} and s not in {x[0] for x in d}:
                        ctx.violation("%s.side" % h, "%s compares the other side's labels" % h, f.where())
                    x = t
                    if x.op == "call" and x.a[2] == "cmp" and len(x.a[3]) == 2:
                        pa, pb = sccp.path(x.a[3][0]), sccp.path(x.a[3][1])
                        if pa and pb and (pa[0], pb[0]) == (2, 1):
                            ctx.violation("%s.order" % h, "%s sorts in descending order" % h, f.where())
                    if x.op == "call" and x.a[2] == "reverse":
                        ctx.violation("%s.order" % h, "%s sorts in descending order" % h, f.where())


def run(ctx):
    prog = mir.load()
    label_sides(ctx, prog)
    invert_project(ctx, prog)
    mappers(ctx, prog)
    converters(ctx, prog)
    traversals(ctx, prog)
    comparators(ctx, prog)
    ctx.floor("label sites", 60)
    ctx.floor("copied transitions", 8)
    ctx.floor("mapper methods", 18)
    ctx.floor("converted transitions", 10)
    ctx.floor("traversals", 8)
    ctx.floor("loops", 12)
