import os
import re
import struct

import facts
import flow
import mir
import pyast
import sccp
from sccp import enum

EXPLANATION = """
Value-flow analysis of the option structures of the core crate (constructors, `with_` builders, defaults), of the plain operation next to
every `_with_config` operation, and of every call that hands an option on to a callee with a parameter of that name. For the operations
that branch on an option, sparse conditional constant propagation fixes the option to each of its values and looks at which calls can
still run and with which constants.
"""
RULE = """
A builder stores its argument in the option it is named after and keeps every other option; a constructor stores every argument in the
option of that name; defaults are the documented ones (in Rust and in Python); the plain operation is the configured one with the default
configuration; an option a function receives reaches each callee that takes an option of that name unchanged; for each value of an
option exactly the stages that value asks for can run.
"""
KDELTA = struct.unpack("<I", struct.pack("<f", 1.0 / 1024))[0]
KSHORT = struct.unpack("<I", struct.pack("<f", 1e-6))[0]
MAXU = 2 ** 64 - 1
DEFAULTS = {
    "ShortestPathConfig": {"delta": KSHORT, "nshortest": 1, "unique": 0},
    "ShortestDistanceConfig": {"delta": KSHORT},
    "MinimizeConfig": {"delta": KSHORT, "allow_nondet": 0},
    "DeterminizeConfig": {"delta": KDELTA, "det_type": enum("DeterminizeFunctional")},
    "IsomorphicConfig": {"delta": KDELTA},
    "PushConfig": {"delta": KDELTA},
    "PushWeightsConfig": {"delta": KDELTA, "remove_total_weight": 0},
    "ComposeConfig": {"compose_filter": enum("AutoFilter"), "connect": 1},
    "QuantizeMapper": {"delta": KDELTA},
    "DrawingConfig": {"vertical": 0, "portrait": 0, "fontsize": 14, "acceptor": 0, "show_weight_one": 1, "print_weight": 1, "size": enum("None"),
                      "ranksep": enum("None"), "nodesep": enum("None")},
}
NEWDEF = {   # options a constructor fixes because it has no argument for them
    "RandGenConfig": {"max_length": MAXU, "npath": 1, "weighted": 0, "remove_total_weight": 0},
    "FactorWeightOptions": {"delta": KDELTA, "final_ilabel": 0, "final_olabel": 0, "increment_final_ilabel": 0, "increment_final_olabel": 0},
}
OWNDELTA = re.compile(r"FactorWeightOptions$")    # documented: label factoring always uses the library's delta
BUILD = re.compile(r"(Config|Options|State|Mapper)$")
OPTS = {"delta", "max_length", "npath", "nshortest", "unique", "weighted", "remove_total_weight", "allow_nondet", "det_type", "connect",
        "reweight_type", "compose_filter", "state_threshold", "weight_threshold", "call_label_type", "return_label_type", "return_label", "closure_type",
        "project_type", "encode_type", "push_type", "epsilon_on_replace", "reverse", "mode", "final_ilabel", "final_olabel", "increment_final_ilabel",
        "increment_final_olabel", "sigma_label", "rewrite_mode", "sigma_allowed_matches", "config", "reachable_input", "nsamples"}
PLAIN = ["compose::compose_static::compose", "determinize::determinize_static::determinize", "isomorphic::isomorphic", "minimize::minimize",
         "push::push", "push::push_weights", "shortest_path::shortest_path", "shortest_distance::shortest_distance", "randgen::randgen"]

A = "rustfst::algorithms::"
W_, L_, T_, C_ = "PUSH_WEIGHTS", "PUSH_LABELS", "REMOVE_TOTAL_WEIGHT", "REMOVE_COMMON_AFFIX"


def row(fn, given, must=(), never=(), args=(), ret=None, props=None, semi=None):
    return dict(fn=fn, given=given, must=must, never=never, args=args, ret=ret, props=props or {}, semi=semi or {})


def rows(flags):
    out = []
    sp = A + "shortest_path::shortest_path_with_config"
    out += [row(sp, {"config.nshortest": 0}, never=["single_shortest_path", "n_shortest_path", "determinize_with_distance"])]
    for u in (0, 1):
        out += [row(sp, {"config.nshortest": 1, "config.unique": u}, must=["single_shortest_path", "single_shortest_path_backtrace"],
                    never=["n_shortest_path"])]
    for n in (2, 3, 1000):
        out += [row(sp, {"config.nshortest": n, "config.unique": 1}, must=["determinize_with_distance", "n_shortest_path"],
                    never=["single_shortest_path"]),
                row(sp, {"config.nshortest": n, "config.unique": 0}, must=["n_shortest_path"],
                    never=["single_shortest_path", "determinize_with_distance"])]
    pw = A + "push::push_weights_with_config"
    for rt, rev in (("ReweightToInitial", 1), ("ReweightToFinal", 0)):
        for rm in (0, 1):
            out += [row(pw, {"reweight_type": enum(rt), "config.remove_total_weight": rm},
                        must=["reweight", "shortest_distance_with_config"] + (["remove_weight", "compute_total_weight"] if rm else []),
                        never=[] if rm else ["remove_weight"],
                        args=[("shortest_distance_with_config", "reverse", rev), ("compute_total_weight", "reverse", rev),
                              ("remove_weight", "at_final", 1 - rev)])]
    pu = A + "push::push_with_config"
    if all(k in flags for k in (W_, L_, T_, C_)):
        for rt, rev, good, bad in (("ReweightToInitial", 1, "GallicWeightLeft", "GallicWeightRight"),
                                   ("ReweightToFinal", 0, "GallicWeightRight", "GallicWeightLeft")):
            for t in (0, 1):
                for c in (0, 1):
                    base = (flags[T_] if t else 0) | (flags[C_] if c else 0)
                    g = {"reweight_type": enum(rt)}
                    out += [row(pu, dict(g, push_type=base | flags[W_]), must=["push_weights_with_config"],
                                never=["factor_weight", "remove_weight", "tr_map"], args=[("push_weights_with_config", "config.remove_total_weight", t)]),
                            row(pu, dict(g, push_type=base), never=["push_weights_with_config", "factor_weight", "reweight", "remove_weight"])]
                    for w in (0, 1):
                        must = ["weight_convert", "shortest_distance_with_config", "reweight", "factor_weight<" + good]
                        never = ["push_weights_with_config", "factor_weight<" + bad, "weight_convert<" + bad]
                        (must if not w else never).append("tr_map")
                        (must if t or c else never).append("remove_weight")
                        if t or c:
                            (never if c else must).append("set_value1")
                            (never if t else must).append("set_value2")
                        out += [row(pu, dict(g, push_type=base | flags[L_] | (flags[W_] if w else 0)), must=must, never=never,
                                    args=[("shortest_distance_with_config", "reverse", rev), ("compute_total_weight", "reverse", rev),
                                          ("remove_weight", "at_final", 1 - rev)])]
    mi = A + "minimize::minimize_with_config"
    I, AC, WE, UW = "I_DETERMINISTIC", "ACCEPTOR", "WEIGHTED", "UNWEIGHTED"
    for ac in (0, 1):
        for we in (0, 1):
            pr = {AC: ac, WE: we, UW: 1 - we}
            out += [row(mi, {"config.allow_nondet": 0}, never=["acceptor_minimize"], props=dict(pr, **{I: 0}))]
            for al in (0, 1):
                out += [row(mi, {"config.allow_nondet": al}, must=["acceptor_minimize"], props=dict(pr, **{I: 1}),
                            args=[("acceptor_minimize", "allow_acyclic_minimization", 1)])]
            out += [row(mi, {"config.allow_nondet": 1}, must=["acceptor_minimize"], props=dict(pr, **{I: 0}), semi={"IDEMPOTENT": 1},
                        args=[("acceptor_minimize", "allow_acyclic_minimization", 0)]),
                    row(mi, {"config.allow_nondet": 1}, never=["acceptor_minimize"], props=dict(pr, **{I: 0}), semi={"IDEMPOTENT": 0})]
        out += [row(mi, {}, must=["push_weights_with_config", "encode", "decode", "weight_convert", "factor_weight", "tr_map"], props={AC: 0, I: 1})]
    out += [row(mi, {}, must=["push_weights_with_config", "encode", "decode", "tr_map"], never=["weight_convert"], props={AC: 1, I: 1, WE: 1, UW: 0})]
    de = A + "determinize::determinize_static::"
    gw = {"DeterminizeDisambiguate": "GallicWeightMin", "DeterminizeFunctional": "GallicWeightRestrict", "DeterminizeNonFunctional": "GallicWeight"}
    for v, g in gw.items():
        out += [row(de + "determinize_fst", {"det_type": enum(v)}, must=["weight_convert<" + g, "determinize_fsa<" + g, "factor_weight<" + g],
                    never=["determinize_fsa<" + h for h in gw.values() if h != g], semi={"PATH": 1})]
    out += [row(de + "determinize_fst", {"det_type": enum("DeterminizeDisambiguate")}, never=["determinize_fsa"], semi={"PATH": 0}),
            row(de + "determinize_with_config", {}, must=["determinize_fsa"], never=["determinize_fst"], props={AC: 1}),
            row(de + "determinize_with_config", {}, must=["determinize_fst"], props={AC: 0})]
    co = A + "compose::compose_static::compose_with_config"
    fl = ["Null", "Sequence", "AltSequence", "Match", "NoMatch", "Trivial"]
    for cn in (0, 1):
        out += [row(co, {"config.connect": cn}, must=["connect"] if cn else [], never=[] if cn else ["connect"])]
    for v in fl:
        out += [row(co, {"config.compose_filter": enum(v + "Filter")}, must=["compute<%sComposeFilterBuilder" % v],
                    never=["new_auto"] + ["compute<%sComposeFilterBuilder" % o for o in fl if o != v])]
    out += [row(co, {"config.compose_filter": enum("AutoFilter")}, must=["new_auto", "compute"],
                never=["compute<%sComposeFilterBuilder" % o for o in fl if o != "Sequence"])]
    out += [row(co, {}, args=[("create_matcher@config.matcher1_config", "match_type", enum("MatchOutput")),
                              ("create_matcher@config.matcher2_config", "match_type", enum("MatchInput"))])]
    cl = A + "closure::closure_static::closure"
    out += [row(cl, {"closure_type": enum("ClosureStar")}, must=["add_state|add_states", "set_start_unchecked|set_start", "set_final_unchecked|set_final"]),
            row(cl, {"closure_type": enum("ClosurePlus")}, never=["add_state|add_states", "set_start_unchecked", "set_start", "set_final", "set_final_unchecked"])]
    et = A + "encode::encode_type::EncodeType::"
    for v, w, l in (("EncodeWeights", 1, 0), ("EncodeLabels", 0, 1), ("EncodeWeightsAndLabels", 1, 1)):
        out += [row(et + "encode_weights", {"self": enum(v)}, ret=w), row(et + "encode_labels", {"self": enum(v)}, ret=l)]
    rg = A + "randgen::randgen_with_config"
    out += [row(rg, {"config.weighted": 1}, never=["dfs_visit"], must=["compute"]), row(rg, {"config.weighted": 0}, must=["compute", "dfs_visit"])]
    sd = A + "shortest_distance::shortest_distance_with_config"
    out += [row(sd, {"reverse": 0}, must=["shortest_distance_with_internal_config"], never=["reverse", "reverse_back"]),
            row(sd, {"reverse": 1}, must=["reverse", "shortest_distance_with_internal_config"])]
    return out


def head(t):
    return mir.ty_head(mir.strip_refs(t or ""))[0].split("::")[-1]


def small(prog):
    def want(g, c, s):
        return g.crate == "rustfst" and bool(BUILD.search(head(g.impl_self))) and len(g.bbs) < 30
    return want


def norm(t):
    while t.op in ("clone", "box") or t.op == "conv":
        t = t.a[0] if t.op in ("clone", "box") else t.a[-1]
    return t


def leaves(F, t, seen=None, depth=0):
    seen = seen if seen is not None else set()
    if t.id in seen:
        return
    seen.add(t.id)
    if t.op == "phi":
        for p, v in F.phis.get(t.a, {}).items():
            yield from leaves(F, v, seen)
    else:
        yield norm(t)


def fields(t):
    """field -> term of a struct value, through in-place updates of a copy."""
    base, ups = flow.chain(t)
    if base.op == "agg":
        d = dict(zip(base.a[2], base.a[3]))
    else:
        d = None
    return base, d, {k[0] if isinstance(k, tuple) and len(k) == 1 else k: v for k, v in ups.items()}


def field_of(t, n):
    base, d, ups = fields(t)
    if n in ups:
        return ups[n]
    if d is not None:
        return d.get(n)
    return flow.read_key(base, n)


def arith(t):
    """A value computed from another one: an operator or a numeric method of the standard library."""
    if t.op in ("bin", "un"):
        return True
    return t.op == "call" and t.a[0].startswith(("core::", "std::", "<f32", "<bool", "<usize", "<u32")) and bool(re.match(
        r"(max|min|clamp|abs|not|neg|add|sub|mul|div|rem|sqrt|powi|powf|round|floor|ceil|recip|saturating_\w+|wrapping_\w+|checked_\w+|then|then_some)$", t.a[2]))


def constval(prog, F, t):
    s = sccp.Spec.__new__(sccp.Spec)
    s.prog, s.F, s.leaf, s.edges, s.memo = prog, F, (lambda x: None), set(), {}
    return s.value(0, t)


# ---------------------------------------------------------------- builders, constructors and defaults
def builders(ctx, prog):
    want = small(prog)
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate != "rustfst" or not f.bbs or f.kind == "Closure" or f.impl_trait and f.name != "default" or "::tests" in f.path:
            continue
        st = head(f.impl_self)
        if not st or head(f.ret) != st:
            continue
        adt = prog.adts.get(mir.ty_head(mir.strip_refs(f.impl_self))[0])
        if adt is None or adt["kind"] != "Struct":
            continue
        fl = [x["name"] for x in adt["variants"][0]["fields"]]
        fty = {x["name"]: x.get("ty") for x in adt["variants"][0]["fields"]}
        names = f.arg_names()
        if f.name.startswith("with_") and names and names[0] == "self":
            if len(names) != 2 or not BUILD.search(st):
                continue
            tgt = f.name[5:] if f.name[5:] in fl else (names[1] if names[1] in fl else None)
            if tgt is None:
                continue
            F = flow.Flow(prog, mir.inline(prog, f, want))
            ctx.count("builders")
            for r, v in F.rets.items():
                for n in fl:
                    for x in leaves(F, v):
                        y = field_of(x, n)
                        ys = list(leaves(F, y)) if y is not None else [None]
                        for y in ys:
                            ok = y is not None and sccp.path(y) == ((2, ()) if n == tgt else (1, (n,)))
                            if not ok and y is not None and n == tgt and y.op == "agg" and y.a[1] == "Some" and sccp.path(norm(y.a[3][0])) == (2, ()):
                                ok = True
                            if not ok:
                                ctx.violation("%s.%s.%s" % (st, f.name, n), "%s::%s sets option '%s' to %s" % (
                                    st, f.name, n, "?" if y is None else flow.show(y)), f.where())
        elif f.name == "new" and BUILD.search(st):
            F = flow.Flow(prog, mir.inline(prog, f, want))
            ctx.count("constructors")
            fixed = NEWDEF.get(st, {})
            for r, v in F.rets.items():
                for x in leaves(F, v):
                    for n in fl:
                        y = field_of(x, n)
                        if n in names:
                            i = names.index(n) + 1
                            ps = set()
                            ok = y is not None
                            for z in leaves(F, y) if ok else ():
                                if sccp.path(z) == (i, ()):
                                    continue
                                dep = flow.dep_params(F, r, z)
                                # a wrapped or converted argument is fine, a different argument or a constant is not
                                same = fty.get(n) == f.args()[i - 1]
                                if z.op in ("const",) or i not in dep or z.op in ("bin", "un") or same and arith(z):
                                    ok = False
                            if not ok:
                                ctx.violation("%s.new.%s" % (st, n), "%s::new does not store its argument '%s' (stores %s)" % (
                                    st, n, "?" if y is None else flow.show(y)), f.where())
                        elif n in fixed:
                            got = constval(prog, F, y) if y is not None else None
                            ctx.count("defaults")
                            if got is not None and got != fixed[n]:
                                ctx.violation("%s.new.%s.default" % (st, n), "%s::new starts option '%s' at %s instead of %s" % (st, n, got, fixed[n]), f.where())
        elif f.name == "default" and st in DEFAULTS:
            F = flow.Flow(prog, mir.inline(prog, f, want))
            for r, v in F.rets.items():
                for x in leaves(F, v):
                    for n, e in DEFAULTS[st].items():
                        if n not in fl:
                            continue
                        y = field_of(x, n)
                        got = constval(prog, F, y) if y is not None else None
                        ctx.count("defaults")
                        if got is not None and got != e:
                            ctx.violation("%s.default.%s" % (st, n), "the default of %s::%s is %s instead of %s" % (st, n, got, e), f.where())


def plain(ctx, prog):
    want = small(prog)
    for s in PLAIN:
        fs = [f for f in prog.find(s) if f.crate == "rustfst" and f.kind == "Fn"]
        if len(fs) != 1:
            ctx.count("plain operations not found")
            continue
        f = fs[0]
        F = flow.Flow(prog, mir.inline(prog, f, want))
        calls = [b for b, (c, a) in F.calls.items() if c and c["name"] == f.name + "_with_config"]
        ctx.count("plain operations")
        if not calls:
            if not any(prog.resolve(c) for c, a in F.calls.values() if c):
                ctx.violation("plain." + f.name, "%s does not run %s_with_config" % (f.name, f.name), f.where())
            ctx.count("plain operations without the configured call")
            continue
        sp = sccp.Spec(prog, F, lambda t: None)
        if sp.ok_returns(set(calls)):
            ctx.violation("plain." + f.name, "%s can return without running %s_with_config" % (f.name, f.name), f.where())
        g = prog.resolve(F.calls[calls[0]][0])
        gn = g[0].arg_names() if g else []
        for b in calls:
            c, a = F.calls[b]
            for i, x in enumerate(a):
                n = gn[i] if i < len(gn) else ""
                if n in f.arg_names():
                    if sccp.path(x) != (f.arg_names().index(n) + 1, ()):
                        ctx.violation("plain.%s.%s" % (f.name, n), "%s hands %s to %s_with_config as '%s'" % (f.name, flow.show(x), f.name, n), f.where())
                    continue
                x = norm(x)
                st = None
                for k in list(DEFAULTS) + list(NEWDEF):
                    if g and head(g[0].args()[i]) == k:
                        st = k
                if st is None:
                    continue
                for n2, e in dict(NEWDEF.get(st, {}), **DEFAULTS.get(st, {})).items():
                    y = field_of(x, n2)
                    v = constval(prog, F, y) if y is not None else None
                    if v is not None and v != e:
                        ctx.violation("plain.%s.%s" % (f.name, n2), "%s runs %s_with_config with %s = %s, its default is %s" % (f.name, f.name, n2, v, e), f.where())


# ---------------------------------------------------------------- forwarding by name
def sources(prog, f):
    """option -> the access paths of the caller's own value of it."""
    out = {}
    names = f.arg_names()
    for i, n in enumerate(names):
        ty = mir.ty_head(mir.strip_refs(f.args()[i]))[0]
        adt = prog.adts.get(ty)
        if n in OPTS:
            out.setdefault(n, set()).add((i + 1, ()))
        if adt and adt["kind"] == "Struct" and (re.search(r"(Config|Options)$", ty) or n == "self"):
            for x in adt["variants"][0]["fields"]:
                if x["name"] in OPTS:
                    out.setdefault(x["name"], set()).add((i + 1, (x["name"],)))
                h = mir.ty_head(x.get("ty", ""))[0]
                sub = prog.adts.get(h)
                if n == "self" and sub and sub["kind"] == "Struct" and re.search(r"(Config|Options)$", h):
                    for y in sub["variants"][0]["fields"]:
                        if y["name"] in OPTS:
                            out.setdefault(y["name"], set()).add((i + 1, (x["name"], y["name"])))
    return out


def forwarding(ctx, prog):
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate != "rustfst" or not f.bbs or f.kind == "Closure" or "::test" in f.path or "tests_openfst" in f.path:
            continue
        if BUILD.search(head(f.impl_self)) and (f.name.startswith("with_") or f.name in ("new", "default")):
            continue
        src = sources(prog, f)
        if not src:
            continue
        hits = []
        for b, t in f.calls():
            c = mir.callee_of(t)
            r = prog.resolve(c) if c else None
            if r is None or r[0].crate != "rustfst" or r[0].name in ("fmt", "eq", "clone"):
                continue
            ns = r[0].arg_names()
            for i, n in enumerate(ns):
                if n in src and n not in ("self",):
                    if mir.strip_refs(r[0].args()[i]) != mir.strip_refs(src_ty(prog, f, src[n])):
                        continue
                    hits.append((b, i, n, r[0]))
        structs(ctx, prog, f, src)
        if not hits:
            continue
        F = flow.Flow(prog, mir.inline(prog, f, lambda g, c, s: False))
        for b, i, n, g in hits:
            if b not in F.calls or i >= len(F.calls[b][1]):
                continue
            ctx.count("forwarded options")
            x = F.calls[b][1][i]
            if x.op == "ref":
                x = sccp.strip(F, b, x)
            for y in leaves(F, x):
                p = sccp.path(y)
                if p in src[n]:
                    continue
                k = constval(prog, F, y)
                if k is not None or arith(y) or (p is not None):
                    if not relevant(prog, f, g, n):
                        continue
                    ctx.violation("%s->%s.%s" % (f.path, g.name, n), "%s passes %s as '%s' to %s instead of its own %s" % (
                        f.name, flow.show(y), n, g.name, n), f.where())
        ctx.sample("forwarding", "%s: %s" % (f.path, ", ".join(sorted({h[2] for h in hits}))))


def structs(ctx, prog, f, src):
    """Option structures built by f and handed to a callee carry f's own value of every option f has."""
    if not any(BUILD.search(head(f.locals[i])) and not OWNDELTA.search(head(f.locals[i])) for i in range(f.argc + 1, len(f.locals))):
        return
    F = flow.Flow(prog, mir.inline(prog, f, small(prog)))
    for b, (c, a) in sorted(F.calls.items()):
        if not c or c["name"] in ("clone", "fmt", "drop"):
            continue
        for x in a:
            if x.op == "ref":
                x = sccp.strip(F, b, x)
            for z in leaves(F, x):
                base, d, ups = fields(z)
                if base.op != "agg" or not BUILD.search(base.a[0].split("::")[-1].split("<")[0]) or OWNDELTA.search(base.a[0]):
                    continue
                adt = prog.adts.get(mir.ty_head(base.a[0])[0])
                for n in base.a[2]:
                    if n not in src or n in ("reverse", "connect"):
                        continue
                    ty = next((q.get("ty", "") for q in adt["variants"][0]["fields"] if q["name"] == n), "") if adt else ""
                    if mir.strip_refs(ty) != mir.strip_refs(src_ty(prog, f, src[n])):
                        continue
                    ctx.count("forwarded options in structures")
                    for y in leaves(F, field_of(z, n)):
                        if sccp.path(y) in src[n]:
                            continue
                        k = constval(prog, F, y)
                        if k is not None or arith(y) or sccp.path(y) is not None:
                            ctx.violation("%s->%s.%s" % (f.path, base.a[0].split("::")[-1], n), "%s runs %s with %s.%s = %s instead of its own %s" % (
                                f.name, c["name"], base.a[0].split("::")[-1], n, flow.show(y), n), f.where())


def src_ty(prog, f, ps):
    i, fl = sorted(ps)[0]
    ty = f.args()[i - 1]
    for n in fl:
        adt = prog.adts.get(mir.ty_head(mir.strip_refs(ty))[0])
        ty = next((x.get("ty", "") for x in adt["variants"][0]["fields"] if x["name"] == n), "") if adt else ""
    return ty


def relevant(prog, f, g, n):
    # a recursive or internal helper can legitimately run a stage in the other direction
    return n not in ("reverse",)


# ---------------------------------------------------------------- what each value does
def spec_rows(ctx, prog):
    pf = prop_bits(prog, "FstProperties")
    sf = prop_bits(prog, "SemiringProperties")
    tf = prop_bits(prog, "PushType")
    cache = {}
    for r in rows(tf):
        fs = [f for f in prog.fns.values() if f.crate == "rustfst" and f.path == r["fn"]]
        if len(fs) != 1:
            ctx.count("operations not found")
            continue
        f = fs[0]
        if f.path not in cache:
            mod = f.path.rsplit("::", 1)[0]
            stage = {x.split("<")[0].split("@")[0].split("|")[0] for q in rows(tf) if q["fn"] == r["fn"] for x in list(q["must"]) + list(q["never"]) + [a[0] for a in q["args"]]}

            def want(g, c, s, mod=mod, stage=stage):
                if g.crate != "rustfst" or g.name in stage:
                    return False
                if BUILD.search(head(g.impl_self)) and len(g.bbs) < 12 and g.name != "create_matcher":
                    return True
                return not g.impl_trait and not g.in_trait and (g.d.get("file") == f.d.get("file")) and g.path.startswith(mod.rsplit("::", 1)[0]) and len(g.bbs) < 120
            cache[f.path] = flow.Flow(prog, mir.inline(prog, f, want))
        F = cache[f.path]
        given = {}
        names = f.arg_names()
        for k, v in r["given"].items():
            p = k.split(".")
            if p[0] not in names:
                continue
            given[(names.index(p[0]) + 1, tuple(p[1:]))] = v
        ones = {"F": sum(pf.get(k, 0) for k, v in r["props"].items() if v), "S": sum(sf.get(k, 0) for k, v in r["semi"].items() if v)}
        zeros = {"F": sum(pf.get(k, 0) for k, v in r["props"].items() if not v), "S": sum(sf.get(k, 0) for k, v in r["semi"].items() if not v)}

        def leaf(t):
            p = sccp.path(t)
            if p is not None and p in given:
                return given[p]
            if t.op == "call" and t.a[2] in ("contains", "intersects") and len(t.a[3]) == 2:
                k = "F" if "FstProperties" in t.a[0] else "S" if "SemiringProperties" in t.a[0] else None
                if k:
                    m = constval(prog, F, t.a[3][1])
                    if isinstance(m, int) and m:
                        if t.a[2] == "contains":
                            if m & zeros[k]:
                                return 0
                            if m & ~ones[k] == 0:
                                return 1
                        else:
                            if m & ones[k]:
                                return 1
                            if m & ~zeros[k] == 0:
                                return 0
            return None
        S = sccp.Spec(prog, F, leaf)
        ctx.count("option values propagated")
        txt = ", ".join(["%s=%s" % (k, v[1] if isinstance(v, tuple) else v) for k, v in r["given"].items()]
                        + ["%s=%d" % kv for kv in list(r["props"].items()) + list(r["semi"].items())])
        for m in r["must"]:
            bs = set(S.calls(matcher(m)))
            anywhere = [b for b in F.calls if F.calls[b][0] and matcher(m)(F.calls[b][0])]
            ctx.count("stages required")
            if not anywhere and m in ("set_value1", "set_value2"):
                ctx.count("stages written another way")
                continue
            if S.ok_returns(bs):
                ctx.violation("%s[%s].%s" % (f.name, txt, m), "%s can return with %s without running %s" % (f.name, txt, m), f.where())
        for m in r["never"]:
            bs = S.calls(matcher(m))
            ctx.count("stages excluded")
            if bs:
                ctx.violation("%s[%s].!%s" % (f.name, txt, m), "%s with %s can run %s" % (f.name, txt, m), f.where(F.body.bbs[bs[0]]["term"].get("ln")))
        for m, an, e in r["args"]:
            m, _, recv = m.partition("@")
            for b in S.calls(matcher(m)):
                c, a = F.calls[b]
                g = prog.resolve(c)
                if g is None:
                    continue
                gn = g[0].arg_names()
                p = an.split(".")
                if p[0] not in gn:
                    continue
                if recv:
                    q = sccp.path(a[0])
                    rp = recv.split(".")
                    if q is None or rp[0] not in names or q != (names.index(rp[0]) + 1, tuple(rp[1:])):
                        continue
                x = a[gn.index(p[0])]
                for n in p[1:]:
                    x = field_of(norm(x), n) if x is not None else None
                v = S.value(b, x) if x is not None else None
                ctx.count("stage arguments")
                if v is not None and v != e:
                    ctx.violation("%s[%s].%s.%s" % (f.name, txt, m, an), "%s with %s runs %s with %s = %s instead of %s" % (f.name, txt, m, an, v, e),
                                  f.where(F.body.bbs[b]["term"].get("ln")))
        if r["ret"] is not None:
            for b, t in F.rets.items():
                if b not in S.blocks:
                    continue
                v = S.value(b, t)
                ctx.count("answers")
                if v is not None and v != r["ret"]:
                    ctx.violation("%s[%s]" % (f.name, txt), "%s answers %s for %s instead of %s" % (f.name, v, txt, r["ret"]), f.where())


def matcher(m):
    alts = []
    for x in m.split("|"):
        n, _, ty = x.partition("<")
        alts.append((n, ty))

    def ok(c):
        for n, ty in alts:
            if c["name"] != n:
                continue
            if not ty:
                return True
            s = " ".join(c.get("args", [])) + " " + c.get("self", "") + " " + c.get("impl_self", "") + " " + " ".join(c.get("impl_args", []))
            if re.search(r"\b%s\b" % ty, s):
                return True
        return False
    return ok


def prop_bits(prog, name):
    """Bit values of a bitflags type, from its declaration."""
    out = {}
    for root, ds, fs in os.walk(os.path.join(facts.REPO, "rustfst/src")):
        for f in sorted(fs):
            if not f.endswith(".rs"):
                continue
            s = open(os.path.join(root, f)).read()
            m = re.search(r"struct\s+%s\s*:\s*u\d+\s*\{" % name, s)
            if not m:
                continue
            d, i = 1, m.end()
            while d and i < len(s):
                d += {"{": 1, "}": -1}.get(s[i], 0)
                i += 1
            for k, v in re.findall(r"const\s+(\w+)\s*=\s*([^;]+);", re.sub(r"//[^\n]*", "", s[m.end():i])):
                e = re.sub(r"Self::(\w+)(\.bits\(\)|\.bits)?", lambda x: str(out.get(x.group(1), 0)), v)
                e = re.sub(r"(?<=\d)_?u\d+", "", e)
                if re.fullmatch(r"[0-9a-fA-FxXbBoO_|&<> ()\s]+", e):
                    try:
                        out[k] = int(eval(e, {"__builtins__": {}}))
                    except Exception:
                        pass
    return out


# ---------------------------------------------------------------- Python defaults
def python(ctx):
    for mod, cls, name, val in (("minimize", "MinimizeConfig", "delta", 1e-6), ("determinize", "DeterminizeConfig", "delta", 1.0 / 1024),
                                ("shortest_path", "ShortestPathConfig", "delta", 1e-6)):
        pyast_default(ctx, mod, cls, name, val)


def pyast_default(ctx, mod, cls, name, val):
    import ast
    path = "rustfst-python/rustfst/algorithms/%s.py" % mod
    try:
        tree = pyast.modules()[path]
    except (KeyError, SyntaxError):
        return
    consts = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            try:
                consts[n.targets[0].id] = eval(compile(ast.Expression(n.value), "", "eval"), {"__builtins__": {}}, dict(consts))
            except Exception:
                pass

    def ev(e):
        if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)):
            return e.value
        if isinstance(e, ast.Name):
            return consts.get(e.id)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Div):
            a, b = ev(e.left), ev(e.right)
            return a / b if a is not None and b else None
        return None
    for c in tree.body:
        if isinstance(c, ast.ClassDef) and c.name == cls:
            for m in c.body:
                if isinstance(m, ast.FunctionDef) and m.name == "__init__":
                    got = []
                    args = m.args.args
                    for a, d in zip(args[len(args) - len(m.args.defaults):], m.args.defaults):
                        if a.arg == name:
                            got.append(ev(d))
                    for n in ast.walk(m):
                        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                            got.append(ev(n.value))
                    for g in got:
                        if g is None:
                            continue
                        ctx.count("Python defaults")
                        if abs(g - val) > 1e-12:
                            ctx.violation("python.%s.%s" % (cls, name), "the Python default of %s.%s is %r, the library's is %r" % (cls, name, g, val),
                                          "%s:%d" % (path, m.lineno))


def run(ctx):
    prog = mir.load()
    builders(ctx, prog)
    plain(ctx, prog)
    forwarding(ctx, prog)
    spec_rows(ctx, prog)
    python(ctx)
    ctx.floor("builders", 12)
    ctx.floor("constructors", 8)
    ctx.floor("defaults", 20)
    ctx.floor("plain operations", 6)
    ctx.floor("forwarded options", 25)
    ctx.floor("option values propagated", 60)
