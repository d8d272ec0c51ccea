import cli
import flow
import mir
from checks.p24 import adjusted, live_calls
from tstate import TState, TooMany

EXPLANATION = """
End-to-end value-provenance analysis of the CLI. The command declarations are read off main()'s builder chain; the
command handler is inlined, with every function of the CLI crate, down to the library calls, and split into one
region per subcommand (the blocks dominated by the subcommand's name test). In each region the options every argument
of the library calls is computed from (through values and through the tests that choose between values) are compared
with the documented meaning of the subcommand.
"""
RULE = """
(1) every subcommand and option exists with its documented flag, action, default and accepted values; (2) the
input is read from the path given as in.fst (in_1.fst, in_2.fst in this order); (3) the subcommand's operation is applied to what
was read, and what is written to out.fst is its result; on every successful non-benchmark path all three happened, in this order; (4) each
option reaches exactly its setting: flags keep their polarity, each accepted string selects its operation or enum value;
(5) the benchmark is run exactly when --bench is given, and does the same work.
"""
IN1 = {"in.fst": {"required": True}, "out.fst": {"required": True}, "bench": {"long": "bench", "action": "SetTrue"},
       "n_iters": {"long": "n_iters", "default": "10"}, "n_warm_ups": {"long": "n_warm_ups", "default": "3"},
       "export-markdown": {"long": "export-markdown"}}
IN2 = dict({k: v for k, v in IN1.items() if k != "in.fst"}, **{"in_1.fst": {"required": True}, "in_2.fst": {"required": True}})


def flag(n):
    return {n: {"long": n, "action": "SetTrue"}}


MAPS = {"tr_sum": "tr_sum", "arc_sum": "tr_sum", "tr_unique": "tr_unique", "arc_unique": "tr_unique",
        "identity": "IdentityTrMapper", "input_epsilon": "InputEpsilonMapper", "invert": "InvertWeightMapper",
        "output_epsilon": "OutputEpsilonMapper", "plus": "PlusMapper", "quantize": "QuantizeMapper",
        "rmweight": "RmWeightMapper", "times": "TimesMapper"}
# command -> (options, library operations (any of), {setter call: (argument, option)}, {option: {value: what it selects}})
CMDS = {
    "minimize": (flag("allow-nondet"), ["minimize_with_config"], {("with_allow_nondet", 1): "allow-nondet"}, {}),
    "determinize": ({"det_type": {"long": "det_type", "default": "functional",
                                  "values": {"functional", "nonfunctional", "disambiguate"}}},
                    ["determinize_with_config"], {("with_det_type", 1): "det_type"},
                    {"det_type": {"functional": "DeterminizeFunctional", "nonfunctional": "DeterminizeNonFunctional",
                                  "disambiguate": "DeterminizeDisambiguate"}}),
    "connect": ({}, ["connect"], {}, {}),
    "tr_sort": ({"sort_type": {"long": "sort_type", "default": "ilabel", "values": {"ilabel", "olabel"}}}, ["tr_sort"], {},
                {"sort_type": {"ilabel": "ILabelCompare", "olabel": "OLabelCompare"}}),
    "project": (flag("project-output"), ["project"], {("project", 1): "project-output"},
                {"project-output": {True: "ProjectOutput", False: "ProjectInput"}}),
    "invert": ({}, ["invert"], {}, {}),
    "topsort": ({}, ["top_sort"], {}, {}),
    "optimize": ({}, ["optimize"], {}, {}),
    "reverse": ({}, ["reverse"], {}, {}),
    "map": ({"map_type": {"long": "map_type", "default": "identity", "values": set(MAPS)}, "weight": {"long": "weight"}},
            ["tr_map", "tr_sum", "tr_unique"], {("PlusMapper::new", 0): "weight", ("TimesMapper::new", 0): "weight"},
            {"map_type": MAPS}),
    "shortestpath": (dict({"nshortest": {"long": "nshortest", "default": "1"}}, **flag("unique")),
                     ["shortest_path_with_config"], {("with_nshortest", 1): "nshortest", ("with_unique", 1): "unique"}, {}),
    "rmfinalepsilon": ({}, ["rm_final_epsilon"], {}, {}),
    "push": (dict(flag("to_final"), **dict(flag("push_weights"), **dict(flag("push_labels"), **dict(
        flag("remove_total_weight"), **flag("remove_common_affix"))))), ["push"], {("push", 1): "to_final"},
        {"to_final": {True: "ReweightToFinal", False: "ReweightToInitial"}}),
    "compose": ({"compose_type": {"long": "compose_type", "default": "default", "values": {"default", "lookahead"}}},
                ["compose", "compute"], {}, {"compose_type": {"default": "compose", "lookahead": "compute"}}),
}
PUSH = {"push_weights": "PUSH_WEIGHTS", "push_labels": "PUSH_LABELS", "remove_total_weight": "REMOVE_TOTAL_WEIGHT",
        "remove_common_affix": "REMOVE_COMMON_AFFIX"}


def run(ctx):
    prog = ctx.prog
    decl = cli.commands(prog)
    for cmd, (opts, ops, setters, values) in CMDS.items():
        if cmd not in decl:
            ctx.violation("cmd:" + cmd, "the subcommand `%s` is not declared" % cmd, "rustfst-cli/src/main.rs")
            continue
        want = dict(IN2 if cmd == "compose" else IN1, **opts)
        ctx.count("subcommands")
        for o, spec in want.items():
            ctx.count("options")
            got = decl[cmd].get(o)
            if got is None:
                ctx.violation("opt:%s:%s" % (cmd, o), "`%s` does not declare the option %s" % (cmd, o), "rustfst-cli/src/main.rs")
                continue
            for k, v in spec.items():
                g = got[k]
                ok = g == v if k != "values" else (g is None or g >= v)
                if not ok:
                    ctx.violation("opt:%s:%s:%s" % (cmd, o, k), "`%s %s` has %s %r instead of %r" % (cmd, o, k, g, v),
                                  "rustfst-cli/src/main.rs")
            if spec.get("action") is None and got["action"] not in ("Set", None):
                ctx.violation("opt:%s:%s:action" % (cmd, o), "`%s %s` does not take a value" % (cmd, o), "rustfst-cli/src/main.rs")
        pos = [o for o in decl[cmd] if decl[cmd][o]["long"] is None]
        wantpos = ["in_1.fst", "in_2.fst", "out.fst"] if cmd == "compose" else ["in.fst", "out.fst"]
        if pos != wantpos:
            ctx.violation("pos:" + cmd, "`%s` takes its positional arguments as %s instead of %s" % (cmd, pos, wantpos),
                          "rustfst-cli/src/main.rs")
    b, F = cli.handle_body(prog)
    regions = split(ctx, prog, b, F)
    for cmd, spec in CMDS.items():
        if cmd not in regions:
            ctx.violation("arm:" + cmd, "the command handler does not handle `%s`" % cmd, b.fn.where())
            continue
        region(ctx, prog, b, F, cmd, regions[cmd], spec, decl.get(cmd, {}))
    bench(ctx, prog)
    ctx.floor("subcommands", 14)
    ctx.floor("library_calls", 40)


def str_test(F, s):
    if not hasattr(F, "_strtest"):
        F._strtest = {}
    if s not in F._strtest:
        F._strtest[s] = str_test0(F, s)
    return F._strtest[s]


def cond_opts(F, s):
    """The switch's condition and the options it is computed from."""
    if not hasattr(F, "_condopts"):
        F._condopts = {}
    if s not in F._condopts:
        c = F.op(F.state_at_term(s), F.body.bbs[s]["term"]["op"])
        F._condopts[s] = (c, cli.opts(F, s, c))
    return F._condopts[s]


def str_test0(F, s):
    """(tested term, string, polarity edge value) when switch s tests a string for equality."""
    t = F.body.bbs[s]["term"]
    if t["t"] != "switch":
        return None
    c = F.op(F.state_at_term(s), t["op"])
    neg = False
    while c.op == "un" and c.a[0] == "Not":
        c, neg = c.a[1], not neg
    if c.op == "call" and c.a[2] in ("eq", "ne") and len(c.a[3]) == 2:
        if c.a[2] == "ne":
            neg = not neg
        for i in (0, 1):
            k = c.a[3][i]
            v = deref_const(F, s, k)
            if isinstance(v, str):
                return c.a[3][1 - i], v, neg
    return None


def deref_const(F, s, k):
    if k.op == "const" and k.a[0] == "&str":
        return k.a[1]
    if k.op == "ref":
        x = F.read(F.state_at_term(s), k.a[0], k.a[1])
        if x.op == "const" and x.a[0] == "&str":
            return x.a[1]
    return None


def edge_true(F, s, to, neg):
    t = F.body.bbs[s]["term"]
    val = None
    for v, x in t["targets"]:
        if x == to:
            val = v
    yes = val is None or str(val) != "0"
    return yes != neg


def split(ctx, prog, b, F):
    out = {}
    for s in sorted(b.reachable()):
        r = str_test(F, s)
        if r is None:
            continue
        tested, v, neg = r
        if not any(x.op == "call" and x.a[2] in ("subcommand", "subcommand_name") for x in flow.reach_terms(F, s, tested)) \
                or cli.opts(F, s, tested):
            continue
        for to in b.succ(s):
            if edge_true(F, s, to, neg):
                out[v] = {x for x in b.reachable() if to == x or b.dominates(to, x)}
    return out


def polarity(F, bb, t, decl):
    """True when a boolean term is exactly `the flag was given`, False when negated; None when unclear."""
    neg = False
    while True:
        if t.op == "un" and t.a[0] == "Not":
            t, neg = t.a[1], not neg
            continue
        break
    if t.op == "call":
        if t.a[2] == "get_flag":
            return not neg
        if t.a[2] in ("eq", "ne") and cli.opts(F, bb, t):
            consts = promoted_variants(F, t)
            if not consts & {"CommandLine"} or consts & {"DefaultValue", "EnvVariable"}:
                return None
            return (t.a[2] == "eq") != neg
        if t.a[2] in ("is_some", "is_none"):
            return None
    if t.op in ("deref", "vf", "field", "clone", "idx", "payload"):
        if any(x.op == "call" and x.a[2] == "get_one" for x in flow.subterms(t)):
            return not neg
    if t.op == "cast":
        return polarity(F, bb, t.a[1], decl)
    return None


def promoted_variants(F, t):
    out = set()
    for x in flow.subterms(t):
        if x.op == "agg" and x.a[1]:
            out.add(x.a[1])
        if x.op == "promoted":
            f = F.prog.fns.get(x.a[0])
            ps = (f.d.get("promoted") or []) if f else []
            if x.a[1] < len(ps):
                walk_variants(ps[x.a[1]], out)
    for x in flow.subterms(t):
        if x.op == "ref" and isinstance(x.a[0], int):
            pass
    return out


def walk_variants(n, out):
    if isinstance(n, dict):
        if "variant" in n:
            out.add(n["variant"])
        for v in n.values():
            walk_variants(v, out)
    elif isinstance(n, list):
        for v in n:
            walk_variants(v, out)


def region(ctx, prog, b, F, cmd, R, spec, decl):
    opts, ops, setters, values = spec
    where = b.fn.where()
    ctx.sample("subcommands", cmd)
    calls = [(bb, c, a) for bb, c, a in live_calls(b, F) if bb in R]
    for bb, c, a in calls:
        for x in a:
            pass
        if c["name"] == "contains_id" and len(a) == 2 and decl.get(cli.const(a[1]), {}).get("action") in ("SetTrue", "SetFalse"):
            ctx.violation("contains:%s:%s" % (cmd, cli.const(a[1])), "`%s` tests the flag --%s with contains_id, which is true "
                          "whether or not it is given" % (cmd, cli.const(a[1])), where)
    reads = [(bb, a) for bb, c, a in calls if c["name"] == "read" and c["crate"] == "rustfst"]
    writes = [(bb, a) for bb, c, a in calls if c["name"] == "write" and c["crate"] == "rustfst"]
    mains = [(bb, c, a) for bb, c, a in calls if c["name"] in ops and c["crate"] == "rustfst"]
    ctx.count("library_calls", len([1 for _, c, _ in calls if c["crate"] == "rustfst"]))
    ins = ["in_1.fst", "in_2.fst"] if cmd == "compose" else ["in.fst"]
    src = {}
    for bb, a in reads:
        o = cli.opts(F, bb, a[0])
        if len(o) != 1 or not o <= set(ins):
            ctx.violation("read:" + cmd, "`%s` reads its input from %s instead of %s" % (cmd, sorted(o), ins), where)
        else:
            src[bb] = next(iter(o))
    for i in ins:
        if i not in src.values():
            ctx.violation("read:%s:%s" % (cmd, i), "`%s` does not read %s" % (cmd, i), where)
    if not mains:
        ctx.violation("op:" + cmd, "`%s` does not perform %s" % (cmd, "/".join(ops)), where)
        return
    from_read = lambda bb, t: {src[x.a[1]] for x in flow.reach_terms(F, bb, t) if x.op == "call" and x.a[1] in src}
    for bb, c, a in mains:
        if c["name"] == "compute":
            got = from_read(bb, a[0])
            if got != set(ins):
                ctx.violation("arg:" + cmd, "`%s` composes %s" % (cmd, sorted(got)), where)
            continue
        for i, want in enumerate(ins):
            got = from_read(bb, a[i]) if i < len(a) else set()
            if got != {want}:
                ctx.violation("arg:%s:%d" % (cmd, i), "argument %d of %s in `%s` comes from %s instead of %s" % (
                    i + 1, c["name"], cmd, sorted(got) or "elsewhere", want), where)
    if cmd == "compose":
        for bb, c, a in calls:
            if c["name"] in ("new_with_options", "new_with_relabeling") and len(a) >= 2 and c["crate"] == "rustfst":
                g0, g1 = from_read(bb, a[0]), from_read(bb, a[1])
                if "in_1.fst" not in g0 or "in_2.fst" not in g1 or (c["name"] == "new_with_relabeling" and g0 != {"in_1.fst"}):
                    ctx.violation("arg:compose:" + c["name"], "`compose` passes %s and %s to %s" % (
                        sorted(g0), sorted(g1), c["name"]), where)
    mb = {bb for bb, _, _ in mains}
    if not writes:
        ctx.violation("write:" + cmd, "`%s` does not write its result" % cmd, where)
    for bb, a in writes:
        o = cli.opts(F, bb, a[1]) if len(a) > 1 else set()
        if o != {"out.fst"}:
            ctx.violation("write:" + cmd, "`%s` writes its result to %s instead of out.fst" % (cmd, sorted(o)), where)
        rt = flow.reach_terms(F, bb, a[0])
        if not any((x.op == "call" and x.a[1] in mb) or (x.op == "mut" and x.a[0] in mb) for x in rt):
            ctx.violation("result:" + cmd, "what `%s` writes is not the result of %s" % (cmd, "/".join(ops)), where)
    order(ctx, prog, b, F, cmd, R, set(src), mb, {bb for bb, _ in writes})
    settings(ctx, F, cmd, calls, setters, values, where, decl)
    if values:
        selections(ctx, F, cmd, R, calls, mains, values, where, decl)
    if cmd == "push":
        push_flags(ctx, prog, F, cmd, calls, mains, where, decl)


def order(ctx, prog, b, F, cmd, R, reads, mains, writes):
    """Typestate over the region: read < operation < write on every Ok path outside the benchmark."""
    entry = [x for x in R if not any(p in R for p in b.preds()[x])]
    def on_term(u, bb, t):
        if bb in entry and u is None:
            u = 0
        if u is None or u == "bench":
            return u
        if t["t"] == "call":
            c = mir.callee_of(t)
            if c and c["name"] == "run_bench":
                return "bench"
        if bb in reads and u == 0:
            return 1
        if bb in mains and u == 1:
            return 2
        if bb in writes:
            return 3 if u in (2, 3) else -1
        return u
    # only this region's blocks matter: prune the other arms by restricting the body
    try:
        ts = RTState(prog, b, R, entry, on_term)
    except TooMany:
        ctx.violation("toomany:" + cmd, "`%s` is too large to decide" % cmd, b.fn.where())
        return
    for u, v in ts.out:
        ctx.count("outcome_facts")
        if v == "Ok" and u not in (3, "bench"):
            what = {0: "reading its input", 1: "performing its operation", 2: "writing its result",
                    -1: "performing its operation before writing"}.get(u, "doing its work")
            ctx.violation("skip:" + cmd, "`%s` can succeed without %s" % (cmd, what), b.fn.where())


class RTState(TState):
    """Starts at a region's entry; a fact leaving the region (or returning) is an outcome."""

    def __init__(self, prog, body, R, entry, on_term, cap=60000):
        self.prog, self.body = prog, body
        self.bools, self.only = True, None
        self.on_stmt, self.on_term, self.on_refine = None, on_term, None
        self.rets = set()
        self.nfacts = 0
        self.seen = {}
        self._live = None
        self.out = set()
        work = [(e, (0, frozenset())) for e in entry]
        for e, f in work:
            self.seen.setdefault(e, set()).add(f)
        while work:
            x, f = work.pop()
            for s, g in self.step(x, f):
                ss = self.seen.setdefault(s, set())
                if g not in ss:
                    ss.add(g)
                    self.nfacts += 1
                    if self.nfacts > cap:
                        raise TooMany()
                    work.append((s, g))
        self.out = {(u, v) for u, v, _ in self.rets}


def ctl_opts(F, bb, t):
    """Options deciding, through tests, which of several joined values a term is."""
    out = set()
    for x in flow.reach_terms(F, bb, t):
        if x.op == "phi":
            for pb in F.phis.get((x.a[0], x.a[1]), {}):
                blk = pb if isinstance(pb, int) else pb[0]
                for s, _ in F.dom_edges(blk) + ([(blk, None)] if len(F.body.succ(blk)) > 1 else []):
                    tt = F.body.bbs[s]["term"]
                    if tt["t"] == "switch":
                        out |= cond_opts(F, s)[1]
    return out


def settings(ctx, F, cmd, calls, setters, values, where, decl):
    for (callee, i), opt in setters.items():
        ctx.count("settings")
        hit = [(bb, a) for bb, c, a in calls if match(c, callee) and c["crate"] == "rustfst"]
        if not hit:
            if callee.startswith("with_"):  # a struct literal or a setter of another name: look at the record field
                hit = record_field(F, calls, callee[5:])
            if not hit:
                ctx.violation("set:%s:%s" % (cmd, opt), "`%s` does not pass --%s on (%s)" % (cmd, opt, callee), where)
                continue
        else:
            hit = [(bb, a[i]) for bb, a in hit]
        for bb, t in hit:
            o = cli.opts(F, bb, t)
            if opt not in values:
                if o != {opt}:
                    ctx.violation("set:%s:%s" % (cmd, opt), "%s in `%s` is given %s instead of --%s" % (
                        callee, cmd, sorted(o) or "a constant", opt), where)
                elif adjusted(F, bb, t):
                    ctx.violation("set:%s:%s" % (cmd, opt), "`%s` alters --%s before passing it on (%s)" % (
                        cmd, opt, adjusted(F, bb, t)), where)
                elif decl.get(opt, {}).get("action") == "SetTrue" and polarity(F, bb, t, decl) is not True:
                    ctx.violation("flag:%s:%s" % (cmd, opt), "`%s` does not pass --%s as given" % (cmd, opt), where)
            else:
                k = o | ctl_opts(F, bb, t)
                if opt not in k:
                    ctx.violation("set:%s:%s" % (cmd, opt), "%s in `%s` does not depend on --%s" % (callee, cmd, opt), where)


def record_field(F, calls, field):
    out = []
    for bb, c, a in calls:
        if c["crate"] != "rustfst":
            continue
        for x in a:
            for y in flow.reach_terms(F, bb, x):
                if y.op == "agg" and field in y.a[2]:
                    out.append((bb, y.a[3][y.a[2].index(field)]))
                if y.op == "upd" and y.a[1] == field:
                    out.append((bb, y.a[2]))
    return out


def match(c, callee):
    if "::" in callee:
        t, n = callee.split("::")
        return c["name"] == n and t in c["def"]
    return c["name"] == callee


def chosen_by(F, blk, opt, decl, extra=()):
    r = chosen_by0(F, blk, opt, decl, extra)
    if r - {"else"}:
        r.discard("else")
    return r


def chosen_by0(F, blk, opt, decl, extra=()):
    """Values of the option under which control reaches the block: a set of strings/bools (None: not
    decided by it)."""
    out = set()
    edges = list(F.dom_edges(blk)) + list(extra)
    for s, to in edges:
        t = F.body.bbs[s]["term"]
        if t["t"] != "switch" or to is None:
            continue
        r = str_test(F, s)
        if r is not None and opt in cli.opts(F, s, r[0]):
            if edge_true(F, s, to, r[2]):
                out.add(r[1])
            else:
                out.add("else")
            continue
        c, co = cond_opts(F, s)
        if c.op == "discr":
            names = edge_variants(F, s, to)
            for x in [c.a[0]]:
                if x.op == "phi":
                    for pb, y in F.phis.get((x.a[0], x.a[1]), {}).items():
                        if y.op == "agg" and y.a[1] in names:
                            out |= chosen_by(F, pb if isinstance(pb, int) else pb[0], opt, decl)
            continue
        if opt in co:
            p = polarity(F, s, c, decl)
            if p is not None:
                out.add(edge_true(F, s, to, not p))
    return out


def edge_variants(F, s, to):
    t = F.body.bbs[s]["term"]
    o = t["op"]
    src = None
    for st in F.body.bbs[s]["st"]:
        if st["s"] == "=" and st["rv"]["r"] == "discr" and o["k"] in ("copy", "move") and st["pl"]["l"] == o["pl"]["l"]:
            src = st["rv"]
    if src is None:
        return set()
    ty = src.get("ty") or F.body.locals[src["pl"]["l"]]
    if src["pl"].get("p"):
        ty = src.get("ty", "")
    a = F.prog.adts.get(mir.ty_head(mir.strip_refs(ty))[0])
    if not a:
        c = F.op(F.state_at_term(s), o).a[0]
        adts = {y.a[0] for y in F.phis.get((c.a[0], c.a[1]), {}).values() if y.op == "agg"} if c.op == "phi" else set()
        a = F.prog.adts.get(next(iter(adts))) if len(adts) == 1 else None
    if not a:
        return set()
    names = {str(v.get("discr", i)): v["name"] for i, v in enumerate(a["variants"])}
    hit = {names[str(v)] for v, x in t["targets"] if x == to and str(v) in names}
    if t["otherwise"] == to:
        hit |= set(names.values()) - {names.get(str(v)) for v, _ in t["targets"]}
    return hit


def by_values(F, blk, opt, decl):
    """Like chosen_by, also through joins (several names for one operation)."""
    v = chosen_by(F, blk, opt, decl)
    if v:
        return v
    out = set()
    seen = set()
    work = [blk]
    while work:
        x = work.pop()
        if x in seen or len(seen) > 200:
            continue
        seen.add(x)
        for p in F.body.preds()[x]:
            extra = [(p, x)] if len(F.body.succ(p)) > 1 else []
            w = chosen_by(F, p, opt, decl, extra)
            if w:
                out |= w
            elif F.body.bbs[p]["term"]["t"] != "switch" or opt not in cond_opts(F, p)[1]:
                work.append(p)
    return out


def selections(ctx, F, cmd, R, calls, mains, values, where, decl):
    for opt, tab in values.items():
        got = {}
        # what each value leads to: the enum values / operands built, or the operation called, under it
        for blk in sorted(R):
            for s in F.body.bbs[blk]["st"]:
                if s["s"] == "=" and s["rv"]["r"] == "agg" and s["rv"]["kind"] == "adt":
                    n = s["rv"]["variant"]
                    if n in tab.values():
                        for v in by_values(F, blk, opt, decl):
                            got.setdefault(v, set()).add(n)
                if s["s"] == "=" and s["rv"]["r"] == "use" and s["rv"]["op"]["k"] == "const":
                    ty = mir.ty_head(s["rv"]["op"].get("ty", ""))[0].split("::")[-1]
                    if ty in tab.values():
                        for v in by_values(F, blk, opt, decl):
                            got.setdefault(v, set()).add(ty)
        for bb, c, a in calls:
            if c["crate"] != "rustfst":
                continue
            names = {c["name"]} & set(tab.values()) if c["name"] in ("tr_sum", "tr_unique", "compose", "compute") else set()
            for x in a:
                for y in flow.reach_terms(F, bb, x):
                    if y.op == "agg" and (y.a[1] in tab.values() or (y.a[0] or "").split("::")[-1] in tab.values()) and \
                            c["name"] in ("tr_map", "tr_sort"):
                        names.add(y.a[1] if y.a[1] in tab.values() else y.a[0].split("::")[-1])
                    if y.op == "call" and c["name"] == "tr_map":
                        for m in tab.values():
                            if m.endswith("Mapper") and (m in y.a[0] or m in (y.a[4] if len(y.a) > 4 else "")):
                                names.add(m)
                    if y.op == "const" and c["name"] in ("tr_map", "tr_sort"):
                        ty = mir.ty_head(str(y.a[0]))[0].split("::")[-1]
                        if ty in tab.values():
                            names.add(ty)
            if c["name"] in ("tr_map", "tr_sort"):
                ga = " ".join(map(str, c.get("args", []) or []))
                for m in tab.values():
                    if m in ga:
                        names.add(m)
            if names:
                for v in by_values(F, bb, opt, decl):
                    got.setdefault(v, set()).update(names)
        for v, n in tab.items():
            ctx.count("selections")
            g = got.get(v, set()) or got.get("else", set())
            if g != {n}:
                # a final `else` arm for the last value
                rest = set(got) - {v}
                if not g and isinstance(v, bool):
                    continue
                ctx.violation("select:%s:%s:%s" % (cmd, opt, v), "`%s` with %s=%s selects %s instead of %s" % (
                    cmd, opt, v, sorted(g) or "nothing", n), where)


def push_flags(ctx, prog, F, cmd, calls, mains, where, decl):
    bits = {}
    for bb, c, a in calls:
        if c["name"] == "insert" and "PushType" in c["def"] and len(a) == 2:
            k = cli.const(a[1])
            for opt in PUSH:
                v = chosen_by(F, bb, opt, decl)
                if v == {True}:
                    bits.setdefault(opt, set()).add(str(k))
                elif v:
                    bits.setdefault(opt, set()).add("not")
        if c["name"] == "set" and "PushType" in c["def"] and len(a) == 3:
            for opt in cli.opts(F, bb, a[2]):
                bits.setdefault(opt, set()).add(str(cli.const(a[1])) if polarity(F, bb, a[2], decl) else "not")
        if c["name"] in ("bitor_assign", "bitor", "union") and "PushType" in c["def"] and len(a) == 2:
            for opt in PUSH:
                if chosen_by(F, bb, opt, decl) == {True}:
                    bits.setdefault(opt, set()).add(str(cli.const(a[1])))
    want = push_consts(prog)
    for opt, name in PUSH.items():
        ctx.count("selections")
        if bits.get(opt) != {want[name]}:
            ctx.violation("select:push:" + opt, "`push --%s` sets %s instead of %s" % (opt, sorted(bits.get(opt, [])) or "nothing", name),
                          where)
    for bb, c, a in mains:
        o = cli.opts(F, bb, a[2]) | ctl_opts(F, bb, a[2])
        if not set(PUSH) <= o:
            ctx.violation("set:push:type", "push is not given the selected push type", where)


def push_consts(prog):
    return {"PUSH_WEIGHTS": "1", "PUSH_LABELS": "2", "REMOVE_TOTAL_WEIGHT": "4", "REMOVE_COMMON_AFFIX": "8"}


def bench(ctx, prog):
    b, F = cli.handle_body(prog)
    for bb, c, a in live_calls(b, F):
        if c["name"] != "run_bench":
            continue
        ctx.count("bench_calls")
        for i, o in ((1, "n_warm_ups"), (2, "n_iters")):
            if i < len(a) and cli.opts(F, bb, a[i]) != {o}:
                ctx.violation("bench:%s" % o, "the benchmark takes its %s from %s" % (o, sorted(cli.opts(F, bb, a[i]))), b.fn.where())
        v = chosen_by(F, bb, "bench", {"bench": {"action": "SetTrue"}})
        if v != {True}:
            ctx.violation("bench:gate", "the benchmark is not run exactly when --bench is given", b.fn.where())
    for f in sorted((g for g in prog.fns.values() if g.crate == "rustfst_cli" and g.name == "run_bench"), key=lambda g: g.path):
        fb = mir.inline(prog, f, lambda g, c, s: False)
        G = flow.Flow(prog, fb)
        ctx.count("bench_bodies")
        rd = [x for x, c, a in live_calls(fb, G) if c["name"] == "read"]
        al = [x for x, c, a in live_calls(fb, G) if c["name"] == "run_algorithm"]
        for x, c, a in live_calls(fb, G):
            if c["name"] == "run_algorithm":
                for k in a[1:]:
                    if not any(y.op == "call" and y.a[1] in rd for y in flow.reach_terms(G, x, k)):
                        ctx.violation("bench:input", "the benchmark does not run on what it read", f.where())
            if c["name"] == "write" and c["crate"] == "rustfst_cli":
                if not any(y.op == "call" and y.a[1] in al for y in flow.reach_terms(G, x, a[1])):
                    ctx.violation("bench:output", "the benchmark does not write what it computed", f.where())
