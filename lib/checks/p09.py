import flow
import mir
import symt

EXPLANATION = """
Summary-based abstract interpretation of the value flow of every operation (lib/symt.py): for the FST an operation returns or edits, the set of
places its input and its output symbol table can come from at a successful return (a parameter's input or output table, a stored table, no
table, no table because a given table is absent). Calls are replaced by the summaries of their targets; table accessors of every FST type are
summarised too.
"""
RULE = """
At every successful return, each table of the result comes from the side and operand the operation prescribes (the same side of the first
operand; for composition input of the first and output of the second; exchanged by inversion; the kept side for projection; the first FST of
a replacement list), and is missing only if that one is missing. Getter, setter and taker of each FST type use one slot per side.
"""
A = "rustfst::algorithms::"
I, O = "I", "O"
SAME1 = {"I": ("p", 1, (), "I"), "O": ("p", 1, (), "O")}
PAIR = {"I": ("p", 1, (), "I"), "O": ("p", 2, (), "O")}
SWAP = {"I": ("p", 1, (), "O"), "O": ("p", 1, (), "I")}
FIRST = {"I": ("p", 1, ("[0]", "1"), "I"), "O": ("p", 1, ("[0]", "1"), "O")}
RET = {n: SAME1 for n in (
    "weight_convert", "determinize", "determinize_with_config", "push", "push_with_config", "reverse", "shortest_path",
    "shortest_path_with_config", "factor_weight", "fst_convert", "fst_convert_from_ref", "randgen", "randgen_with_config")}
RET.update({"compose": PAIR, "compose_with_config": PAIR, "replace": FIRST})
NEW = {"ClosureFst": SAME1, "UnionFst": SAME1, "ConcatFst": SAME1, "RmEpsilonFst": SAME1, "RandGenFst": SAME1, "FactorWeightFst": SAME1,
       "DeterminizeFsa": SAME1, "ComposeFst": PAIR, "ReplaceFst": FIRST, "FstAddOn": SAME1}
OUT = {n: SAME1 for n in (
    "tr_sort", "closure", "concat", "union", "connect", "encode", "decode", "minimize", "minimize_with_config", "optimize", "push_weights",
    "push_weights_with_config", "rm_epsilon", "rm_final_epsilon", "state_sort", "top_sort", "tr_map", "tr_sum", "tr_unique", "reweight",
    "relabel_pairs", "acceptor_minimize")}
OUT["invert"] = SWAP
TABLE_METHODS = ("input_symbols", "set_input_symbols", "take_input_symbols", "output_symbols", "set_output_symbols", "take_output_symbols")


def adt(f):
    return mir.ty_head(mir.strip_refs(f.impl_self or ""))[0].split("::")[-1]


def run(ctx):
    prog = ctx.prog
    S = symt.Symt(prog)
    acc = {}
    for f in prog.fns.values():
        if f.crate == "rustfst" and f.name in TABLE_METHODS and f.impl_self and not f.in_trait and f.kind != "Closure" and f.bbs:
            acc.setdefault(adt(f), {})[f.name] = f
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate != "rustfst" or f.kind == "Closure" or not f.bbs or "::tests::" in f.path:
            continue
        free = f.path.startswith(A) and not f.impl_self and not f.in_trait and f.pub
        if free and f.name in RET and "Result<" in f.ret + "Result<":
            check(ctx, S, f, lambda s, X: s.ret(X), RET[f.name], "the result")
        elif free and f.name in OUT and f.argc and f.args()[0].startswith("&mut "):
            check(ctx, S, f, lambda s, X: s.out(1, X), OUT[f.name], "the edited FST")
        elif free and f.name == "project":
            project(ctx, S, f)
        elif f.path.startswith(A) and f.impl_self and not f.impl_trait and f.pub and f.name.startswith("new") and adt(f) in NEW and \
                adt(f) in (f.ret or ""):
            check(ctx, S, f, lambda s, X: s.ret(X), NEW[adt(f)], "the lazy FST")
        elif f.path.startswith(A) and f.name == "compute" and f.impl_self and not f.impl_trait and adt(f) in acc:
            exp = {}
            for X, n in ((I, "input_symbols"), (O, "output_symbols")):
                g = acc[adt(f)].get(n)
                r = S.sum(g).ret("T") if g else ()
                if len(r) == 1:
                    exp[X] = next(iter(r))
            check(ctx, S, f, lambda s, X: s.ret(X), exp, "the computed FST")
        elif f.name == "from_op_and_cache":
            check(ctx, S, f, lambda s, X: s.ret(X), {"I": ("p", 3, (), "T"), "O": ("p", 4, (), "T")}, "the lazy FST")
        elif f.name == "from" and (f.impl_trait or "").startswith("core::convert::From") and f.argc == 1:
            d, a = adt(f), mir.ty_head(mir.strip_refs(f.locals[1]))[0].split("::")[-1]
            if d in acc and a in acc and d != a:
                exp = {}
                for X, n in ((I, "input_symbols"), (O, "output_symbols")):
                    r = S.sum(acc[a][n]).ret("T")
                    if len(r) == 1:
                        exp[X] = next(iter(r))
                check(ctx, S, f, lambda s, X: s.ret(X), exp, "the converted FST")
        elif f.name == "set_symts_from_fst":
            check(ctx, S, f, lambda s, X: s.out(1, X), {"I": ("p", 2, (), "I"), "O": ("p", 2, (), "O")}, "the FST")
    for n, ms in sorted(acc.items()):
        slots(ctx, S, n, ms)
    swaps(ctx, S)
    ctx.count("functions_summarised", S.nfn)
    ctx.floor("operations", 35)
    ctx.floor("fst_types", 10)


def show(s):
    out = []
    for x in s:
        if isinstance(x, str):
            out.append("?")
        elif x[0] == "none":
            out.append("no table" + (" (when %s is absent)" % show(x[1]) if x[1] else ""))
        else:
            out.append("%s of parameter %d%s" % ({"I": "the input table", "O": "the output table", "T": "the table"}[x[3]], x[1],
                                               "." + ".".join(x[2]) if x[2] else ""))
    return ", ".join(sorted(out))


def judge(r, e):
    """'ok', 'bad' or 'undecided' for the sources r against the prescribed source e."""
    unknown = any(isinstance(x, str) for x in r)
    for x in r:
        if isinstance(x, str):
            continue
        if x[0] == "none":
            if not any(same(y, e) for y in x[1]) and not unknown and not any(y[0] == "p" and e[2][:len(y[2])] == y[2] and y[1] == e[1] and y[2][-1:] == ("[0]",) for y in x[1]):
                return "bad"
        elif not same(x, e) and not alias(x, e):
            return "bad"
    if unknown or not r:
        return "undecided"
    return "ok"


def side_of(x):
    return x[3] if x[3] != "T" else {"isymt": I, "osymt": O}.get(x[2][-1] if x[2] else "")


def same(x, e):
    """The same table: equal, or one names it as a side of the FST in which the other finds the slot of that side."""
    if x == e:
        return True
    if x[0] != "p" or e[0] != "p" or x[1] != e[1] or side_of(x) != side_of(e) or side_of(x) is None:
        return False
    a, b = sorted((x, e), key=lambda y: len(y[2]))
    return a[3] != "T" and b[2][:len(a[2])] == a[2]


def alias(x, e):
    """A part whose table is not known to be that side's."""
    return x[3] == "T" and e[3] != "T" and (not x[2] or x[2][-1] not in ("isymt", "osymt"))


def check(ctx, S, f, get, exp, what):
    s = S.sum(f)
    ctx.count("operations")
    for X in (I, O):
        if X not in exp:
            ctx.count("undecided"); ctx.sample("undecided_shapes", f.path)
            continue
        ctx.count("table_obligations")
        r = get(s, X)
        v = judge(r, exp[X])
        side = "input" if X == I else "output"
        if v == "bad":
            ctx.violation("%s:%s" % (f.path.split("rustfst::")[-1], X), "%s: the %s symbol table of %s is %s; it should be %s" % (
                f.path, side, what, show(r), show([exp[X]])), f.where())
        elif v == "undecided":
            ctx.count("undecided")
            ctx.sample("undecided_shapes", "%s %s" % (f.path, X))
        else:
            ctx.sample("decided", "%s %s <- %s" % (f.name, side, show([exp[X]])))


def project(ctx, S, f):
    """Both sides get the table of the kept side, on every path."""
    s = S.sum(f)
    ctx.count("operations")
    F = s.F
    e = {"I": ("p", 1, (), "I"), "O": ("p", 1, (), "O")}
    done = set()
    for b in F.rets:
        st = F.state_at_term(b)
        t = st.get(("m", flow.mk("param", 1)))
        stack = [(b, t, None)]
        seen = set()
        while stack:
            q, x, via = stack.pop()
            if x is None or (q, x.id) in seen:
                continue
            seen.add((q, x.id))
            side = kept(F, q)
            if side is None and x.op == "phi":
                stack += [(p, v, x.a[0]) for p, v in F.phis.get(x.a, {}).items()]
                continue
            if side is None and x.op == "mut":
                stack.append((x.a[0], x.a[2], via))
                continue
            if side is None:
                ctx.count("undecided")
                continue
            ri, ro = (refine(s, q, symt.reduce(s.obj(q, x, X))) for X in (I, O))
            done.add(side)
            ctx.count("table_obligations", 2)
            if judge(ri, e[side]) == "bad" or judge(ro, e[side]) == "bad":
                ctx.violation("algorithms::project:%s" % side, "%s: keeping the %s side, the symbol tables are %s (input) and %s (output)" % (
                    f.path, "input" if side == I else "output", show(ri), show(ro)), f.where())
    if done != {I, O}:
        ctx.count("undecided"); ctx.sample("undecided_shapes", f.path)


def refine(s, q, r):
    gone = set()
    for p in s.F.body.preds()[q][:1]:
        gone = set(s.absent(p, q))
    return {("none", x[1] | frozenset(gone)) if x[0] == "none" else x for x in r}


def kept(F, b):
    """The side the project type says is kept, if the block is under that test."""
    for q, to in F.dom_edges(b):
        c = F.conds.get(q)
        t = F.body.bbs[q]["term"]
        if c is None or c.op != "discr" or not any(x.op == "param" and x.a[0] == 2 for x in flow.subterms(c)):
            continue
        vals = {str(v) for v, x in t["targets"] if x == to}
        other = {str(v) for v, x in t["targets"] if x != to}
        if t["otherwise"] == to and not vals and len(other) == 1:
            vals = {"0", "1"} - other
        if vals == {"0"}:
            return I
        if vals == {"1"}:
            return O
    return None


def slots(ctx, S, n, ms):
    """One slot per side: what set stores get returns, take removes; the other slot stays."""
    if n == "Arc":
        return
    ctx.count("fst_types")
    slot = {}
    for X, p in ((I, "input"), (O, "output")):
        g = ms.get(p + "_symbols")
        if g is None:
            continue
        r = S.sum(g).ret("T")
        if len(r) != 1 or not isinstance(next(iter(r)), tuple) or next(iter(r))[0] != "p":
            ctx.count("undecided"); ctx.sample("undecided_shapes", g.path)
            return
        slot[X] = next(iter(r))
    if len(slot) < 2:
        return
    ctx.count("table_obligations")
    g = ms["input_symbols"]
    if slot[I] == slot[O]:
        ctx.violation("%s:slots" % n, "%s and its output counterpart return the same table" % g.path, g.where())
        return
    if (slot[I][3] == O or slot[I][2][-1:] == ("osymt",)) or (slot[O][3] == I or slot[O][2][-1:] == ("isymt",)):
        ctx.violation("%s:slots" % n, "%s and its counterpart return each other's table" % g.path, g.where())
        return
    for X, p in ((I, "input"), (O, "output")):
        for verb in ("set", "take"):
            f = ms.get("%s_%s_symbols" % (verb, p))
            if f is None:
                continue
            s = S.sum(f)
            for Y in (I, O):
                ctx.count("table_obligations")
                r = set()
                for b in s.F.rets:
                    st = s.F.state_at_term(b)
                    c = ("m", flow.mk("param", 1))
                    if c not in st:
                        r.add(slot[Y])
                    else:
                        r |= s.down(b, st[c], slot[Y][2], slot[Y][3])
                want = slot[Y] if Y != X else ("p", 2, (), "T") if verb == "set" else symt.NONE
                if any(isinstance(x, str) for x in r):
                    ctx.count("undecided"); ctx.sample("undecided_shapes", f.path)
                elif want == symt.NONE and any(x[0] != "none" for x in r) or want != symt.NONE and judge(r, want) == "bad":
                    ctx.violation("%s:%s:%s" % (n, f.name, Y), "%s leaves %s as the %s table" % (
                        f.path, show(r), "input" if Y == I else "output"), f.where())
            if verb == "take":
                ctx.count("table_obligations")
                r = s.ret("T")
                if not any(isinstance(x, str) for x in r) and any(x[0] == "p" and not same(x, slot[X]) for x in r):
                    ctx.violation("%s:%s:ret" % (n, f.name), "%s returns %s" % (f.path, show(r)), f.where())


def swaps(ctx, S):
    """Nowhere in the workspace is one side's table given to the other side."""
    for f in sorted(S.prog.fns.values(), key=lambda f: f.path):
        if not f.bbs or f.kind == "Closure" or "::tests::" in f.path or f.name in ("invert", "project"):
            continue
        if not any(c and c["name"] in symt.SETTERS for b, t in f.calls() for c in [mir.callee_of(t)]):
            continue
        try:
            s = S.sum(f)
        except RecursionError:
            continue
        if s is None:
            continue
        for b, (c, args) in s.F.calls.items():
            if not c or c["name"] not in symt.SETTERS or len(args) < 2:
                continue
            ctx.count("setter_calls")
            X = symt.SETTERS[c["name"]]
            r = s.tab(b, args[1])
            for x in r:
                if isinstance(x, tuple) and x[0] == "p" and (
                        x[3] in (I, O) and x[3] != X or x[2] and x[2][-1] in ("isymt", "osymt") and x[2][-1] != symt.FIELD[X]):
                    ctx.violation("%s:setter:%s" % (f.path.split("rustfst::")[-1], X), "%s gives %s to %s" % (
                        f.path, show([x]), c["name"]), f.where())
