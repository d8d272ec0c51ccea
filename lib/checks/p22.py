import flow
import mir

EXPLANATION = """
Value-flow analysis of every method of every delegating type (lazy FSTs over their engine, shared pointers, FSTs with add-ons, matcher FSTs, wrapped
caches, queues, filters and matchers): what the method returns, and which method of which component it calls with which arguments. The component
a type delegates to is found from its own methods.
"""
RULE = """
Each method of a delegating type returns, on every path, exactly what the method of the same name (or its checked or unchecked twin) of the
delegated component answers for the same arguments in the same positions; a method without a result makes that one call on every path.
"""
LAZY = {"CoreFst": {"properties"}, "Fst": set(), "FstIterator": set(), "StateIterator": set()}
FULL = {"CoreFst": set(), "Fst": set(), "FstIterator": set(), "StateIterator": set(), "ExpandedFst": set(), "FstIntoIterator": set()}
WRAP = {
    "ClosureFst": LAZY, "ConcatFst": LAZY, "UnionFst": LAZY, "DeterminizeFsa": LAZY,
    "ComposeFst": FULL, "FactorWeightFst": FULL, "RandGenFst": FULL, "ReplaceFst": FULL, "RmEpsilonFst": FULL,
    "FstAddOn": FULL, "MatcherFst": FULL,
    "Arc": {"CoreFst": set(), "Fst": {"set_input_symbols", "set_output_symbols", "take_input_symbols", "take_output_symbols"}, "FstIterator": set(),
            "StateIterator": set(), "ExpandedFst": set(), "SerializableCache": {"read"}},
    "CP": {"FstCache": set(), "SerializableLazyFst": set()}, "FP": {"FstOp": set(), "FstOp2": set()}, "TP": {"TrMapper": set()},
    "NaturalShortestFirstQueue": {"Queue": {"queue_type"}}, "AutoQueue": {"Queue": {"queue_type"}},
    "FirstCache": {"FstCache": {"get_trs", "insert_trs", "get_final_weight"}},
    "LookAheadComposeFilter": {"ComposeFilter": {"filter_tr"}}, "MultiEpsFilter": {"ComposeFilter": {"filter_tr", "filter_final", "properties"}},
    "PushWeightsComposeFilter": {"ComposeFilter": {"start", "set_state", "filter_tr", "filter_final", "properties"}, "LookAheadComposeFilterTrait": set()},
    "LabelLookAheadMatcher": {"Matcher": {"new", "iter", "flags"}}, "TrLookAheadMatcher": {"Matcher": {"new", "fst", "iter", "flags"}},
    "TrivialLookAheadMatcher": {"Matcher": {"new", "iter", "flags"}}, "MultiEpsMatcher": {"Matcher": {"new", "iter"}},
}

ALTER = ("bitor", "bitand", "sub", "add", "not", "difference", "union", "intersection", "filter", "max", "min", "unwrap_or_default",
         "unwrap_or", "take", "skip", "or", "saturating_sub", "saturating_add")


def path(t):
    p = []
    while True:
        if t.op == "param":
            return t.a[0], tuple(reversed([x for x in p if x != "deref"]))
        if t.op in ("deref", "clone", "box"):
            t = t.a[0]
        elif t.op == "cast":
            t = t.a[1]
        elif t.op == "field":
            p.append(t.a[1])
            t = t.a[0]
        elif t.op == "ref" and not isinstance(t.a[0], int):
            for k in reversed(t.a[1]):
                if not isinstance(k, str):
                    return None
                p.append(k)
            t = t.a[0][1]
        elif t.op == "call" and t.a[2] in ("borrow", "deref", "as_ref", "borrow_mut", "deref_mut", "as_mut") and t.a[3]:
            t = t.a[3][0]
        else:
            return None


def short(tr):
    return (tr or "").split("<")[0].split("::")[-1]


def tname(f):
    s = mir.strip_refs(f.impl_self)
    return mir.ty_head(s)[0].split("::")[-1] or s


def twins(a, b):
    return a == b or a == b + "_unchecked" or b == a + "_unchecked"


class M:
    """One method: its flow, and the calls it makes on components of self."""

    def __init__(self, prog, f):
        self.f = f
        body = mir.inline(prog, f, lambda g, c, s: g.crate == "rustfst" and g.kind in ("Fn", "AssocFn") and not g.impl_trait and not g.in_trait
                          and len(g.bbs) < 12)
        self.F = flow.Flow(prog, body)
        self.cells = {}

    def arg(self, b, t):
        if t.op == "ref" and isinstance(t.a[0], int):
            try:
                t = self.F.read(self.F.state_at_term(b), t.a[0], t.a[1])
            except Exception:
                return None
        return path(t)

    def forwards(self):
        """block -> (trait, name, component, argument paths) of calls on a component of self."""
        out = {}
        for b, (c, a) in self.F.calls.items():
            if not c or not a or not (c.get("trait") or c["def"]).startswith("rustfst::"):
                continue
            p = self.arg(b, a[0])
            if p is not None and p[0] == 1:
                out[b] = (short(c.get("trait")), c["name"], p[1], tuple(self.arg(b, x) for x in a[1:]), a)
        return out


def leaves(F, b, t, seen=None):
    """The values a result can be, through joins and through taking a Result or Option apart and putting it together again."""
    seen = seen if seen is not None else set()
    if (b, t.id) in seen:
        return
    seen.add((b, t.id))
    if t.op == "phi":
        for p, v in F.phis.get(t.a, {}).items():
            yield from leaves(F, p, v, seen)
        return
    if t.op == "agg" and t.a[1] in ("Ok", "Some", "Err") and len(t.a[3]) == 1:
        x = t.a[3][0]
        v = t.a[1]
        if x.op == "vf" and (x.a[1] == v or x.a[1] == "Continue" and v == "Ok") and str(x.a[2]) == "0":
            y = x.a[0]
            if y.op == "call" and y.a[2] == "branch":
                y = y.a[3][0]
            yield from leaves(F, b, y, seen)
            return
        if v == "Err":
            return
    if t.op == "call" and t.a[2] == "from_residual":
        x = t.a[3][0]
        if x.op == "vf" and x.a[0].op == "call" and x.a[0].a[2] == "branch":
            yield from leaves(F, b, x.a[0].a[3][0], seen)
            return
    if t.op == "vf" and t.a[1] in ("Ok", "Some"):
        yield from leaves(F, b, t.a[0], seen)
        return
    if t.op == "clone":
        yield from leaves(F, b, t.a[0], seen)
        return
    if t.op == "call" and t.a[2] in ("into", "from", "unwrap", "expect", "unsafe_unwrap", "unwrap_unchecked", "map_err", "with_context", "context") and t.a[3]:
        yield from leaves(F, b, t.a[3][0], seen)
        return
    yield b, t


def run(ctx):
    prog = ctx.prog
    by = {}
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate != "rustfst" or not f.bbs or f.kind == "Closure" or not f.impl_trait or not f.impl_trait.startswith("rustfst::") or "::test" in f.path:
            continue
        n = tname(f)
        if n in WRAP and short(f.impl_trait) in WRAP[n]:
            by.setdefault((n, f.impl_self if n in ("Arc",) else ""), []).append(f)
    for (n, _), fs in sorted(by.items()):
        ms = [M(prog, f) for f in fs]
        votes = {}
        for m in ms:
            for b, (tr, name, comp, args, a) in m.forwards().items():
                if name == m.f.name:
                    votes[comp] = votes.get(comp, 0) + 1
        if not votes:
            ctx.count("undecided"); ctx.sample("undecided_shapes", n)
            continue
        comp = max(votes, key=lambda k: votes[k])
        ctx.count("delegating_types")
        for m in ms:
            if m.f.name in WRAP[n][short(m.f.impl_trait)]:
                continue
            method(ctx, prog, n, comp, m)
    ctx.floor("delegating_types", 12)
    ctx.floor("methods", 150)


def method(ctx, prog, n, comp, m):
    f = m.f
    ctx.count("methods")
    fw = m.forwards()
    key = "%s:%s::%s" % (n, short(f.impl_trait), f.name)
    unit = f.ret in ("()", "core::result::Result<(), anyhow::Error>")

    def good(b):
        tr, name, c, args, a = fw[b]
        return c == comp and twins(name, f.name) and args == tuple((i, ()) for i in range(2, f.argc + 1))

    def bad(msg):
        ctx.violation(key, "%s %s" % (f.path, msg), f.where())

    und = False
    F = m.F
    if f.ret == "()":
        # the call is made on every path
        gs = {b for b in fw if good(b)}
        others = [fw[b] for b in fw if not good(b)]
        if not gs:
            if others:
                return bad("calls %s instead of the %s of what it wraps" % (others[0][1], f.name))
            return bad("does not pass the call on")
        if skips(F, gs):
            return bad("passes the call on only on some paths")
        ctx.sample("forwards", key)
        return
    for b0, r in F.rets.items():
        for b, t in leaves(F, b0, r):
            ctx.count("results")
            if t.op == "agg" and t.a[1] in ("Ok", "Some") and len(t.a[3]) == 1 and (
                    t.a[3][0].op in ("const", "bin", "un", "field", "param", "cast") or t.a[3][0].op == "call" and t.a[3][0].a[2] in ALTER):
                t = t.a[3][0]
                if t.op == "param" or t.op == "cast" and not any(x.op == "call" for x in flow.subterms(t)):
                    return bad("answers %s on some path without asking what it wraps" % flow.show(t)[:40])
            if t.op == "call" and t.a[1] in fw:
                q = t.a[1]
                if good(q):
                    continue
                tr, name, c, args, a = fw[q]
                if name == f.name or twins(name, f.name):
                    if c != comp and c[:len(comp)] != comp and comp[:len(c)] != c:
                        return bad("asks %s of another component" % name)
                    if len(args) == f.argc - 1 and all(x is not None for x in args):
                        return bad("passes its arguments to %s in other places: %s" % (name, [flow.show(x)[:30] for x in a[1:]]))
                    if any(x.op in ("const", "bin") for x in a[1:]):
                        return bad("does not pass its own arguments to %s: %s" % (name, [flow.show(x)[:30] for x in a[1:]]))
                    und = True
                elif tr == short(f.impl_trait):
                    return bad("answers with %s of what it wraps" % name)
                else:
                    und = True
            elif t.op == "const":
                return bad("answers %s on some path without asking what it wraps" % flow.show(t)[:40])
            elif t.op == "agg" and t.a[1] in ("None",):
                if not absent(F, b, fw, good):
                    return bad("answers None on some path without asking what it wraps")
            elif t.op in ("bin", "un", "field") and any(x.op == "call" and x.a[1] in fw for x in flow.subterms(t)):
                return bad("alters what the wrapped %s answers: %s" % (f.name, flow.show(t)[:80]))
            elif t.op == "call" and t.a[2] in ALTER and \
                    any(x.op == "call" and x.a[1] in fw for x in flow.subterms(t)):
                return bad("alters what the wrapped %s answers (%s)" % (f.name, t.a[2]))
            else:
                und = True
    if und:
        ctx.count("undecided")
        ctx.sample("undecided_shapes", key)
    else:
        ctx.sample("forwards", key)


def absent(F, b, fw, good):
    """Is the path to b one on which a forwarded answer was taken apart?"""
    for q, s in F.dom_edges(b):
        c = F.conds.get(q)
        if c is not None and c.op == "discr" and any(x.op == "call" and x.a[1] in fw and good(x.a[1]) for x in flow.subterms(c)):
            return True
    return False


def skips(F, gs):
    seen, st = set(), [0]
    while st:
        b = st.pop()
        if b in seen or b in gs:
            continue
        seen.add(b)
        if b in F.rets:
            return True
        st += F.body.succ(b)
    return False
