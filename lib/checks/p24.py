import ffi
import flow
import mir
import spec_ffi as S
from tstate import TState, TooMany

EXPLANATION = """
Value-provenance analysis of every exported C entry point (FFI helpers and closures inlined): for the
core operation the entry point stands for, the set of the entry point's parameters each argument is
computed from is compared with the documented mapping, the operation is shown to be called on every path
that reports success (typestate), and each output parameter is shown to be computed from its result.
Field accessors, records built from parameters, boolean selectors, integer/enum conversions and the
crate's object-safe FST view are decided the same way.
"""
RULE = """
(1) for each entry point: on every success path the listed operation is called, its k-th argument
derives from exactly the listed parameters, and every out-parameter value derives from the call;
(2) accessors read/write the like-named field and no other; (3) config/drawing records take each field
from its parameter; (4) a boolean selector chooses the documented operation; (5) integer<->enum
conversions are total on the enum and inverse to each other; record conversions map like-named fields;
(6) every input parameter of every entry point influences something.
"""
CONV = ("AsRust", "CReprOf")


def ctl_deps(F, b, t, rt=None):
    """Parameters deciding which of several values a joined term is."""
    out = set()
    body = F.body
    for x in rt if rt is not None else flow.reach_terms(F, b, t):
        if x.op == "phi":
            for pb in F.phis.get((x.a[0], x.a[1]), {}):
                blk = pb if isinstance(pb, int) else pb[0]
                for s, _ in F.dom_edges(blk) + ([(blk, None)] if len(body.succ(blk)) > 1 else []):
                    out |= switch_deps(F, s)
    return out


def switch_deps(F, s):
    t = F.body.bbs[s]["term"]
    if t["t"] != "switch":
        return set()
    st = F.state_at_term(s)
    return flow.dep_params(F, s, F.op(st, t["op"]))


def live_calls(b, F):
    reach = b.reachable()
    for bb, (c, args) in sorted(F.calls.items()):
        if c and bb in reach:
            yield bb, c, args


def outside(c):
    return c["crate"] != "rustfst_ffi" or c.get("trait", "").startswith("rustfst_ffi")


def run(ctx):
    prog = ctx.prog
    exp = {f.name: f for f in ffi.exported(prog)}
    for n, f in sorted(exp.items()):
        ctx.count("entry_points")
        b, F = ffi.body(prog, f)
        for ops, want in S.OPS.get(n, []):
            check_op(ctx, prog, f, b, F, ops, want)
        if n in S.CHOICE:
            choice(ctx, f, b, F, *S.CHOICE[n])
        if n in S.FIELDS:
            accessor(ctx, f, b, F, *S.FIELDS[n])
        for rec, want in S.RECORDS.get(n, {}).items():
            record(ctx, f, b, F, rec, want)
        if "_iterator_" in n:
            iterator(ctx, f, b, F)
        inputs_used(ctx, f, b, F)
    for n in set(S.OPS) | set(S.FIELDS) | set(S.RECORDS):
        if n not in exp:
            ctx.violation("gone:" + n, "the C entry point %s is gone" % n, "rustfst-ffi")
    conversions(ctx, prog)
    dyn_view(ctx, prog)
    ctx.floor("entry_points", 100)
    ctx.floor("forwarded_operations", 70)
    ctx.floor("enum_conversions", 4)


def deps_match(F, bb, a, want):
    d = flow.dep_params(F, bb, a)
    if d == set(want):
        return True, d
    if d <= set(want):
        if set(want) <= d | ctl_deps(F, bb, a) | {p for s, _ in F.dom_edges(bb) for p in switch_deps(F, s)}:
            return True, d
    return False, d


ARITH = {"Add", "AddWithOverflow", "Sub", "SubWithOverflow", "Mul", "MulWithOverflow", "Div", "Rem", "Shl", "Shr",
         "BitXor", "BitAnd", "BitOr", "AddUnchecked", "SubUnchecked", "MulUnchecked"}
ADJUST = {"trim", "trim_start", "trim_end", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase",
          "min", "max", "clamp", "saturating_sub", "saturating_add", "wrapping_add", "wrapping_sub", "abs", "not", "neg",
          "replace", "trim_matches", "rev", "skip", "take", "step_by", "filter", "skip_while", "take_while", "sort",
          "dedup", "truncate", "reverse", "is_null"}


def adjusted(F, bb, t, allow=()):
    """An operation that alters a value on its way from a parameter, if there is one."""
    for x in flow.reach_terms(F, bb, t):
        if x.op == "bin" and x.a[0] in ARITH and any(y.op == "param" for y in flow.subterms(x)):
            return x.a[0]
        if x.op == "un" and x.a[0] in ("Not", "Neg") and any(y.op == "param" for y in flow.subterms(x)):
            return x.a[0]
        if x.op == "call" and x.a[2] in ADJUST and x.a[2] not in allow and x.a[0].split("::")[0] in ("core", "std", "alloc"):
            return x.a[2]
    return None


def check_op(ctx, prog, f, b, F, ops, want):
    names = ops.split("|")
    cand, good = [], {}
    for bb, c, args in live_calls(b, F):
        if c["name"] in names and (outside(c)):
            cand.append(bb)
            if len(args) < len(want):
                continue
            ok = all(w is None or deps_match(F, bb, a, w)[0] for w, a in zip(want, args))
            if ok:
                good[bb] = c
    ctx.count("forwarded_operations")
    pn = f.arg_names()
    nice = "(%s)" % ", ".join("…" if w is None else "+".join(pn[i - 1] for i in w) for w in want)
    if not good:
        if not cand:
            msg = "%s does not perform its operation %s" % (f.name, ops)
        else:
            got = [["+".join(pn[i - 1] for i in sorted(flow.dep_params(F, bb, a))) for a in F.calls[bb][1]]
                   for bb in cand]
            msg = "%s calls %s with arguments computed from %s, not %s" % (f.name, ops, got, nice)
        ctx.violation("op:%s:%s" % (f.name, ops), msg, f.where())
        return
    for bb in cand:
        if bb not in good and len(names) == 1 and f.name not in ("fst_optimize_in_log",) and names[0] not in (
                "clone", "new", "eq", "len", "zero", "one"):
            ctx.violation("op:%s:%s" % (f.name, ops), "%s calls %s with arguments other than %s" % (
                f.name, ops, nice), f.where())
    ctx.sample("operations", "%s -> %s%s" % (f.name, ops, nice))
    for bb in good:
        for w, a in zip(want, F.calls[bb][1]):
            if w is not None:
                x = adjusted(F, bb, a)
                if x:
                    ctx.violation("adjust:%s:%s" % (f.name, ops), "%s alters what it passes to %s (%s)" % (
                        f.name, ops, x), f.where())

    def on_term(u, bb, t):
        return True if bb in good else u
    try:
        ts = TState(prog, b, False, on_term=on_term)
    except TooMany:
        ctx.violation("toomany:" + f.name, "too large to decide", f.where())
        return
    for u, v, _ in ts.rets:
        if v and v.endswith("_OK") and not u:
            ctx.violation("skip:%s:%s" % (f.name, ops), "%s can report success without performing %s" % (
                f.name, ops), f.where())
    # outputs derive from the operation
    main = ops == S.OPS[f.name][0][0]
    if main:
        freed = set()
        for i in ffi.out_params(f):
            hits = []
            for (bb, k), ws in F.writes.items():
                for cell, path, v in ws:
                    if cell == ("m", flow.mk("param", i)) and not path and v is not None:
                        rt = flow.reach_terms(F, bb, v)
                        ok = any(x.op in ("call",) and x.a[1] in good for x in rt) or \
                            any(x.op == "mut" and x.a[0] in good for x in rt)
                        if names == ["clone"]:
                            ok = flow.dep_params(F, bb, v) == set(want[0])
                        x = adjusted(F, bb, v)
                        if x:
                            ctx.violation("adjust:%s:%s" % (f.name, pn[i - 1]), "%s alters its output `%s` (%s)" % (
                                f.name, pn[i - 1], x), f.where())
                        hits.append((ok, bb))
            if hits and not any(ok for ok, _ in hits):
                ctx.violation("out:%s:%s" % (f.name, pn[i - 1]), "the output `%s` of %s is not computed from %s" % (
                    pn[i - 1], f.name, ops), f.where())
            ctx.count("outputs")


def choice(ctx, f, b, F, p, yes, no):
    body = F.body
    for want, edge in ((yes, True), (no, False)):
        op, arg = (want, None) if isinstance(want, str) else want
        found = False
        for bb, c, args in live_calls(b, F):
            if c["name"] != op or c["crate"] == "rustfst_ffi":
                continue
            if arg is not None:
                ty = " ".join(c.get("args", []) if isinstance(c.get("args"), list) else [str(c.get("args"))])
                if arg not in ty:
                    continue
            found = True
            pol = set()
            for s, d in F.dom_edges(bb):
                if p in switch_deps(F, s):
                    pol.add(edge_true(F, s, d))
            if pol != {edge}:
                ctx.violation("choice:%s:%s" % (f.name, op), "%s performs %s%s when its parameter `%s` is %s" % (
                    f.name, op, "/" + arg if arg else "", f.arg_names()[p - 1],
                    "not consulted" if not pol else "false" if edge else "true"), f.where())
        ctx.count("choices")
        if not found:
            # a table-driven or combined form: the operation must at least be reachable under a name
            ctx.violation("choice:%s:%s" % (f.name, op), "%s never performs %s" % (f.name, op), f.where())


def edge_true(F, s, d):
    """Does taking the edge s->d mean that the tested parameter is nonzero/true? None: unknown."""
    t = F.body.bbs[s]["term"]
    st = F.state_at_term(s)
    term = F.op(st, t["op"])
    neg = False
    while True:
        if term.op == "un" and term.a[0] == "Not":
            neg = not neg
            term = term.a[1]
        elif term.op == "bin" and term.a[0] in ("Ne", "Eq", "Gt") and term.a[2].op == "const" and str(term.a[2].a[1]) == "0":
            if term.a[0] == "Eq":
                neg = not neg
            term = term.a[1]
        elif term.op == "cast":
            term = term.a[1]
        else:
            break
    if term.op != "param":
        return None
    zero = None
    for v, tgt in t["targets"]:
        if str(v) == "0" and tgt == d:
            zero = True
    val = not zero
    return val != neg


def accessor(ctx, f, b, F, fld, kind):
    allf = {"ilabel", "olabel", "weight", "nextstate"}
    ctx.count("accessors")
    if kind == "get":
        for (bb, k), ws in F.writes.items():
            for cell, path, v in ws:
                if cell == ("m", flow.mk("param", 2)) and not path and v is not None:
                    got = {x.a[1] for x in flow.reach_terms(F, bb, v) if x.op == "field" and x.a[1] in allf}
                    if got != {fld}:
                        ctx.violation("field:" + f.name, "%s returns %s instead of %s" % (
                            f.name, sorted(got) or "a constant", fld), f.where())
    else:
        got = {}
        for (bb, k), ws in F.writes.items():
            for cell, path, v in ws:
                if not isinstance(cell, int):
                    for x in path:
                        if x in allf:
                            got[x] = flow.dep_params(F, bb, v) if v is not None else set()
                            break
        if set(got) != {fld} or got[fld] != {2}:
            ctx.violation("field:" + f.name, "%s writes %s instead of setting %s from its parameter" % (
                f.name, sorted(got) or "nothing", fld), f.where())


def record(ctx, f, b, F, rec, want):
    found = False
    for bb in sorted(b.reachable()):
        st = F.state_at_term(bb)
        for key, v in list(st.items()):
            if not isinstance(v, flow.T):
                continue
            for x in flow.subterms(v):
                if x.op == "agg" and (x.a[0] or "").split("::")[-1].split("<")[0] == rec:
                    found = True
                    for fl, val in zip(x.a[2], x.a[3]):
                        if fl not in want:
                            continue
                        ok, d = deps_match(F, bb, val, want[fl])
                        ctx.count("record_fields_seen")
                        if val.op == "bin" and val.a[0] in ("Eq", "Lt", "Le", "Gt", "Ge", "Ne") and not truthy(val):
                            ctx.violation("record:%s:%s" % (f.name, fl), "%s sets %s.%s by the test %s" % (
                                f.name, rec, fl, flow.show(val)), f.where())
                        x_ = adjusted(F, bb, val)
                        if x_:
                            ctx.violation("adjust:%s:%s" % (f.name, fl), "%s alters its parameter for %s.%s (%s)" % (
                                f.name, rec, fl, x_), f.where())
                        if not ok:
                            pn = f.arg_names()
                            ctx.violation("record:%s:%s" % (f.name, fl), "%s sets %s.%s from %s, not from `%s`" % (
                                f.name, rec, fl, sorted(pn[i - 1] for i in d) or "a constant",
                                "+".join(pn[i - 1] for i in want[fl])), f.where())
                    for fl in want:
                        if fl not in x.a[2]:
                            ctx.violation("record:%s:%s" % (f.name, fl), "%s has no field %s" % (rec, fl), f.where())
        if found:
            break
    ctx.count("records")
    if not found:
        ctx.violation("record:%s" % f.name, "%s does not build a %s" % (f.name, rec), f.where())


def truthy(v):
    op, x, y = v.a
    if x.op == "const" and y.op != "const":
        op, x, y = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op), y, x
    return y.op == "const" and (op, str(y.a[1])) in (("Gt", "0"), ("Ne", "0"), ("Ge", "1"), ("Eq", "1"))


def iterator(ctx, f, b, F):
    """Cursor iterators: next moves on, reset goes back to the first, done compares the cursor with the length."""
    writes = []
    for (bb, k), ws in F.writes.items():
        for cell, path, v in ws:
            if not isinstance(cell, int) and v is not None and cell != ("m", flow.mk("param", 2)):
                writes.append((bb, path, v))
    calls = {c["name"] for _, c, _ in live_calls(b, F)}
    ctx.count("iterator_entry_points")
    if f.name.endswith("_next"):
        ok = "next" in calls or any(is_incr(v) for _, _, v in writes)
        if not ok:
            ctx.violation("iter:" + f.name, "%s does not advance by exactly one" % f.name, f.where())
        bad = [v for _, p, v in writes if v.op == "bin" and not is_incr(v)]
        if bad:
            ctx.violation("iter:" + f.name, "%s does not advance by exactly one" % f.name, f.where())
    elif f.name.endswith("_reset"):
        if not any(v.op == "const" and str(v.a[1]) == "0" for _, _, v in writes):
            ctx.violation("iter:" + f.name, "%s does not go back to the first element" % f.name, f.where())
    elif f.name.endswith("_done"):
        for (bb, k), ws in F.writes.items():
            for cell, path, v in ws:
                if cell == ("m", flow.mk("param", 2)) and not path and v is not None:
                    if not done_ok(F, bb, v):
                        ctx.violation("iter:" + f.name, "%s does not tell whether the end is reached" % f.name,
                                      f.where())


def is_incr(v):
    while v.op in ("field", "cast") or (v.op == "vf"):
        v = v.a[0] if v.op != "cast" else v.a[1]
    if v.op == "bin" and v.a[0] in ("Add", "AddWithOverflow", "AddUnchecked"):
        x, y = v.a[1], v.a[2]
        return (y.op == "const" and str(y.a[1]) == "1") or (x.op == "const" and str(x.a[1]) == "1")
    return v.op == "call" and v.a[2] in ("wrapping_add", "saturating_add") and str(v.a[3][1].a[-1]) == "1"


def done_ok(F, bb, v):
    neg = False
    while True:
        if v.op == "cast":
            v = v.a[1]
        elif v.op == "un" and v.a[0] == "Not":
            neg = not neg
            v = v.a[1]
        elif v.op == "call" and v.a[2] in ("from", "into"):
            v = v.a[3][0]
        else:
            break

    def is_len(t):
        return any(x.op == "call" and x.a[2] in ("len",) for x in flow.reach_terms(F, bb, t)) or t.op == "len" or \
            any(x.op in ("len", "un") and (x.op == "len" or x.a[0] in ("PtrMetadata", "Len")) for x in flow.subterms(t))
    if v.op == "bin":
        op, x, y = v.a
        if neg:
            op = {"Ge": "Lt", "Lt": "Ge", "Gt": "Le", "Le": "Gt", "Eq": "Ne", "Ne": "Eq"}.get(op, "?")
        if is_len(x) and not is_len(y):
            op = {"Ge": "Le", "Le": "Ge", "Gt": "Lt", "Lt": "Gt"}.get(op, op)
            x, y = y, x
        return is_len(y) and not is_len(x) and op in ("Ge", "Eq")
    if v.op == "call" and v.a[2] in ("is_none", "is_some"):
        return (v.a[2] == "is_none") != neg and any(
            x.op == "call" and x.a[2] in ("peek", "get", "peek_mut") for x in flow.reach_terms(F, bb, v))
    if v.op in ("phi", "top"):
        return True
    # matches!(peek(), None) and the like: a discriminant test
    return any(x.op == "call" and x.a[2] in ("peek", "get", "len") for x in flow.reach_terms(F, bb, v))


def inputs_used(ctx, f, b, F):
    outs = set(ffi.out_params(f))
    used = set()
    for bb in b.reachable():
        used |= switch_deps(F, bb)
    for bb, c, args in live_calls(b, F):
        for a in args:
            used |= flow.dep_params(F, bb, a)
    for (bb, k), ws in F.writes.items():
        for cell, path, v in ws:
            if not isinstance(cell, int):
                used |= {x.a[0] for x in flow.subterms(cell[1]) if x.op == "param"}
                if v is not None:
                    used |= flow.dep_params(F, bb, v)
    for i in range(1, f.argc + 1):
        ctx.count("parameters")
        if i not in used:
            ctx.violation("unused:%s:%s" % (f.name, f.arg_names()[i - 1]),
                          "%s ignores its parameter `%s`" % (f.name, f.arg_names()[i - 1]), f.where())


# ------------------------------------------------------------------ conversions
def conversions(ctx, prog):
    enums = {}
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate != "rustfst_ffi" or f.name not in ("as_rust", "c_repr_of") or f.kind == "Closure":
            continue
        tr = f.impl_trait or ""
        if not any(t in tr for t in CONV):
            continue
        b = mir.inline(prog, f, lambda g, c, st: g.crate == "rustfst_ffi" and g.name not in ("as_rust", "c_repr_of"))
        F = flow.Flow(prog, b)
        adt, mp = enum_map(prog, f, b, F)
        if mp is not None:
            key = adt
            enums.setdefault(key, {})[f.name] = (mp, f)
            continue
        struct_map(ctx, prog, f, b, F)
    for e, d in sorted(enums.items()):
        ctx.count("enum_conversions")
        if len(d) != 2:
            f = list(d.values())[0][1]
            ctx.violation("enum:" + e, "%s converts in one direction only" % e, f.where())
            continue
        to, f1 = d["as_rust"]
        fro, f2 = d["c_repr_of"]
        variants = [v["name"] for v in prog.adts[e]["variants"]]
        ctx.sample("enums", "%s: %s" % (e, sorted(to.items())))
        if sorted(to.values()) != sorted(variants):
            ctx.violation("enum:" + e, "the integers accepted for %s stand for %s; its values are %s" % (
                e, sorted(to.values()), sorted(variants)), f1.where())
        elif {v: k for k, v in to.items()} != fro:
            ctx.violation("enum:" + e, "the integer conversions of %s disagree: %s and %s" % (
                e, sorted(to.items()), sorted((v, k) for k, v in fro.items())), f2.where())


def edge_value(F, s, d):
    """(tested term, value) when the edge s->d means the term equals that value."""
    t = F.body.bbs[s]["term"]
    if t["t"] != "switch":
        return None
    term = F.op(F.state_at_term(s), t["op"])
    vals = [v for v, x in t["targets"] if x == d]
    other = t.get("otherwise") == d
    if len(vals) == 1 and not other:
        v = int(vals[0])
    elif other and not vals and len(t["targets"]) == 1 and str(t.get("opty")) == "bool":
        v = 1 - int(t["targets"][0][0])
    else:
        return None
    if term.op == "bin" and term.a[0] in ("Eq", "Ne") and term.a[2].op == "const":
        if (term.a[0] == "Eq") == (v == 1):
            return term.a[1], int(term.a[2].a[1])
        return None
    return term, v


def enum_map(prog, f, b, F):
    """{integer: variant} (as_rust) or {variant: integer} (c_repr_of), if the function is a choice of that kind."""
    m, en = {}, None
    if f.name == "as_rust":
        rt = f.ret
        for bb in sorted(b.reachable()):
            for s in b.bbs[bb]["st"]:
                if s["s"] == "=" and s["rv"]["r"] == "agg" and s["rv"].get("kind") == "adt" and not s["rv"]["ops"]:
                    adt = s["rv"]["adt"]
                    if adt in prog.adts and prog.adts[adt]["kind"] == "Enum" and ("<" + adt + ",") in rt:
                        for e in F.dom_edges(bb):
                            ev = edge_value(F, *e)
                            if ev and 1 in {x.a[0] for x in flow.subterms(ev[0]) if x.op == "param"}:
                                en = adt
                                m[ev[1]] = s["rv"]["variant"]
                                break
        return en, (m or None)
    a = mir.ty_head(f.args()[0])[0]
    if a not in prog.adts or prog.adts[a]["kind"] != "Enum" or any(v["fields"] for v in prog.adts[a]["variants"]):
        return None, None
    names = {int(v["discr"]): v["name"] for v in prog.adts[a]["variants"]}
    for bb in sorted(b.reachable()):
        for s in b.bbs[bb]["st"]:
            if s["s"] == "=" and s["rv"]["r"] == "use" and s["rv"]["op"].get("k") == "const" and \
                    s["rv"]["op"].get("ty") in ("usize", "u32", "u8", "i32", "u64", "i64") and "bits" in s["rv"]["op"]:
                for e in F.dom_edges(bb):
                    ev = edge_value(F, *e)
                    if ev:
                        m[names.get(ev[1], "?")] = int(s["rv"]["op"]["bits"])
                        break
    if not m:
        # `value as usize`: the discriminants themselves
        for v in F.rets.values():
            if any(x.op == "cast" for x in flow.subterms(v)):
                m = {n: k for k, n in names.items()}
    return a, (m or None)


def struct_map(ctx, prog, f, b, F):
    for v in F.rets.values():
        for x in flow.subterms(v, F.phis):
            if x.op == "agg" and x.a[0] in prog.adts and prog.adts[x.a[0]]["kind"] == "Struct" and \
                    len(x.a[2]) > 1:
                src = {fl["name"] for fl in fields(prog, f)}
                if not (set(x.a[2]) & src):
                    continue
                ctx.count("record_conversions")
                for fl, val in zip(x.a[2], x.a[3]):
                    got = set()
                    for bb in F.rets:
                        got |= touched(F, bb, val) & src
                    if got != {fl}:
                        ctx.violation("conv:%s:%s" % (f.path, fl), "the conversion fills %s.%s from %s" % (
                            x.a[0], fl, sorted(got) or "nothing"), f.where())


def touched(F, bb, val):
    """Names of the fields of the parameters' own records a value is computed from."""
    got = set()
    for y in flow.reach_terms(F, bb, val):
        if y.op == "field" and y.a[0].op in ("param", "deref", "mem"):
            got.add(y.a[1])
        elif y.op == "ref" and isinstance(y.a[0], tuple) and y.a[0][1].op == "param":
            for k in y.a[1]:
                if isinstance(k, str):
                    got.add(k)
                    break
    return got


def fields(prog, f):
    t = mir.ty_head(mir.strip_refs(f.args()[0]))[0] if f.argc else ""
    a = prog.adts.get(t)
    return a["variants"][0]["fields"] if a else []


def dyn_view(ctx, prog):
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate != "rustfst_ffi" or f.name not in S.DYN or f.d.get("exported") or f.kind == "Closure":
            continue
        if f.d.get("exported"):
            continue
        ops, want = S.DYN[f.name]
        b = mir.inline(prog, f, lambda g, c, st: g.crate == "rustfst_ffi" and g.kind == "Closure")
        F = flow.Flow(prog, b)
        ctx.count("view_methods")
        good = []
        for bb, c, args in live_calls(b, F):
            if c["name"] in ops.split("|") and len(args) >= len(want) and all(
                    flow.dep_params(F, bb, a) == set(w) for a, w in zip(args, want)):
                good.append(bb)
        if not good:
            ctx.violation("view:" + f.name, "%s does not forward to %s" % (f.path, ops), f.where())
            continue
        if "Option<" in f.ret or "Result<" in f.ret or f.ret in ("usize", "bool"):
            for bb, v in F.rets.items():
                if not any(x.op == "call" and x.a[1] in good for x in flow.reach_terms(F, bb, v)):
                    ctx.violation("view:" + f.name, "%s does not return the result of %s" % (f.path, ops), f.where())
    ctx.floor("view_methods", 10)
