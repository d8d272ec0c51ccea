import ffi
import flow
import mir
import panics
from checks.p24 import edge_value, switch_deps, live_calls
from tstate import TState, TooMany

EXPLANATION = """
Analysis of every exported C function (helpers, closures and combinators inlined): signature and calling
convention from the type-checked program; every dereference of a caller's pointer, every transfer of
ownership to or from a raw pointer and every panicking construct is located and judged by a dominating
null or bounds test (control dependence) or by the null-checking accessor it goes through.
"""
RULE = """
(1) every exported function uses the C calling convention and is not overridable by a Rust-only type by value;
(2) a caller's pointer is read only through an accessor that reports null, or below a test that it is not null;
(3) a handle is freed only by a function whose only parameter it is, at most once per path, below a null test,
and on every success path where it is not null; (4) a pointer handed out owns its target (it comes from
into_raw and the like, or is null): never the address of a local or a borrow of a temporary; (5) no
panicking construct (unwrap, expect, indexing, element removal, panic!, subtraction that can wrap) is reachable
in the C layer unless a dominating test excludes the failing case.
"""
BORROW = ("raw_borrow", "raw_borrow_mut")
OWN = ("into_raw", "into_raw_pointer", "into_raw_pointer_mut", "convert_into_raw_pointer", "convert_into_raw_pointer_mut",
       "null", "null_mut")
FREE = ("from_raw", "drop_raw_pointer", "from_raw_pointer", "from_raw_pointer_mut", "take_back_from_raw_pointer",
        "take_back_from_raw_pointer_mut")


def run(ctx):
    prog = ctx.prog
    for f in ffi.exported(prog):
        ctx.count("entry_points")
        abi(ctx, prog, f)
        b, F = ffi.body(prog, f)
        derefs(ctx, f, b, F)
        frees(ctx, prog, f, b, F)
        owned_out(ctx, f, b, F)
        no_panic(ctx, prog, f, b, F)
    conv(ctx, prog)
    ctx.floor("entry_points", 60)
    ctx.floor("releases", 5)
    ctx.assume("a non-null pointer given by the caller points to a live object of the declared type (the documented "
               "safety contract); out-pointers are valid")


def abi(ctx, prog, f):
    a = f.d.get("abi", "")
    if "C" not in a.replace("Cdecl", "C") or "Rust" in a:
        ctx.violation("abi:" + f.name, "%s is exported with the %s calling convention" % (f.name, a), f.where())
    for i, t in enumerate(f.args()):
        h = mir.ty_head(t)[0]
        if t.startswith("&") or t.startswith("alloc::") or t.startswith("core::option::") or t in ("&str", "str"):
            ctx.violation("argtype:%s:%d" % (f.name, i), "%s takes a %s, which C cannot pass" % (f.name, t), f.where())
        elif h in prog.adts and not prog.adts[h].get("reprc") and prog.adts[h]["kind"] == "Struct":
            ctx.violation("argtype:%s:%d" % (f.name, i), "%s takes a %s by value, whose layout is not C's" % (
                f.name, h), f.where())
        ctx.count("parameters")
    h = mir.ty_head(f.ret)[0]
    if h in prog.adts and not prog.adts[h].get("reprc"):
        ctx.violation("rettype:" + f.name, "%s returns %s, whose layout is not C's" % (f.name, h), f.where())


def null_tested(F, bb, term, want_null=False):
    """Is block bb only reached when `term` is known (not) null?"""
    for s, d in F.dom_edges(bb):
        t = F.body.bbs[s]["term"]
        if t["t"] != "switch":
            continue
        x = F.op(F.state_at_term(s), t["op"])
        vals = [int(v) for v, y in t["targets"] if y == d]
        other = t.get("otherwise") == d
        truth = (vals == [1]) or (other and not vals and [int(v) for v, _ in t["targets"]] == [0])
        false = vals == [0] and not other
        neg = False
        while x.op == "un" and x.a[0] == "Not":
            neg = not neg
            x = x.a[1]
        if x.op == "call" and x.a[2] == "is_null" and same_ptr(x.a[3][0], term):
            isnull = (truth and not neg) or (false and neg)
            notnull = (false and not neg) or (truth and neg)
            if (notnull and not want_null) or (isnull and want_null):
                return True
    return False


def same_ptr(a, b):
    while a.op == "cast":
        a = a.a[1]
    while b.op == "cast":
        b = b.a[1]
    return a is b


def derefs(ctx, f, b, F):
    outs = set(ffi.out_params(f))
    for bb in sorted(b.reachable()):
        x = b.bbs[bb]
        for i, s in enumerate(x["st"]):
            if s["s"] != "=":
                continue
            for pl in places(s["rv"]):
                if not (pl.get("p") and pl["p"][0] == "*"):
                    continue
                ty = b.locals[pl["l"]]
                if not ty.startswith("*"):
                    continue
                st = F.state_at_term(bb)
                t = st.get(pl["l"])
                ctx.count("pointer_reads")
                if t is None:
                    continue
                if t.op == "param" and t.a[0] not in outs and not null_tested(F, bb, t):
                    ctx.violation("deref:%s:%s" % (f.name, f.arg_names()[t.a[0] - 1]),
                                  "%s reads through its parameter `%s` without a null test" % (
                                      f.name, f.arg_names()[t.a[0] - 1]), f.where())
    for bb, c, args in live_calls(b, F):
        if c["name"] in BORROW:
            ctx.count("checked_borrows")
        if c["name"] in ("from_raw_parts", "from_raw_parts_mut", "from_ptr", "read", "as_ref_unchecked", "copy_nonoverlapping",
                         "as_ref", "as_mut") and ("slice::raw" in c["def"] or "c_str" in c["def"] or "::ptr::" in c["def"]):
            if c["name"] in ("as_ref", "as_mut"):
                continue  # these report null
            roots = {y.a[0] for y in flow.subterms(args[0]) if y.op == "param"}
            ctx.count("raw_views")
            if roots and not null_tested(F, bb, args[0]):
                ctx.violation("view:%s" % f.name, "%s builds a view of the caller's memory with %s without a null test"
                              % (f.name, c["name"]), f.where())


def places(rv):
    out = []
    k = rv["r"]
    if "pl" in rv and k not in ("rawptr",):
        out.append(rv["pl"])
    for key in ("op", "a", "b"):
        o = rv.get(key)
        if isinstance(o, dict) and o.get("k") in ("copy", "move"):
            out.append(o["pl"])
    for o in rv.get("ops", []):
        if o.get("k") in ("copy", "move"):
            out.append(o["pl"])
    return out


def frees(ctx, prog, f, b, F):
    sites = {}
    for bb, c, args in live_calls(b, F):
        if c["name"] in FREE and args:
            t = args[0]
            if t.op == "param":
                sites[bb] = t.a[0]
            elif any(y.op in ("param",) for y in flow.reach_terms(F, bb, t)) and c["name"] != "from_raw_pointer":
                ctx.violation("free-through:" + f.name, "%s frees memory it reached through its parameter" % f.name,
                              f.where())
    dest = f.name.endswith("_destroy") or f.name.endswith("_delete") or "destroy" in f.name
    if not sites:
        if dest:
            ctx.violation("nofree:" + f.name, "%s does not release its handle" % f.name, f.where())
        return
    ctx.count("releases")
    if f.argc != 1 or not dest:
        ctx.violation("free:" + f.name, "%s frees its parameter although callers keep using it" % f.name, f.where())
        return
    for bb, p in sites.items():
        if F.calls[bb][0]["name"] == "from_raw" and not null_tested(F, bb, flow.mk("param", p)):
            ctx.violation("freenull:" + f.name, "%s frees its parameter without a null test" % f.name, f.where())

    nulls = set()  # blocks entered only when the parameter is null
    for bb in b.reachable():
        if null_tested(F, bb, flow.mk("param", 1), True):
            nulls.add(bb)

    def on_term(u, bb, t):
        if bb in sites:
            return (min(u[0] + 1, 2), u[1])
        if bb in nulls:
            return (u[0], True)
        return u
    ts = TState(prog, b, (0, False), on_term=on_term)
    for (n, isnull), v, rb in ts.rets:
        if n > 1:
            ctx.violation("double:" + f.name, "%s frees its parameter twice" % f.name, f.where())
        if n == 0 and v and v.endswith("_OK") and not isnull and rb not in nulls:
            ctx.violation("leak:" + f.name, "%s can report success without releasing the handle" % f.name, f.where())
    # what is freed has the type it was allocated with
    for bb in sites:
        c, args = F.calls[bb]
        ty = f.args()[0]
        tgt = (c.get("args") or [""])[0]
        if c["name"] == "from_raw" and mir.strip_refs(ty).split("<")[0].split("::")[-1] != tgt.split("<")[0].split("::")[-1]:
            ctx.violation("freetype:" + f.name, "%s frees a %s as a %s" % (f.name, ty, tgt), f.where())


def owned_out(ctx, f, b, F):
    for i, t in enumerate(f.args(), 1):
        if i not in ffi.out_params(f) or not t[5:].strip().startswith("*"):
            continue
        for (bb, k), ws in F.writes.items():
            for cell, path, v in ws:
                if cell != ("m", flow.mk("param", i)) or path or v is None:
                    continue
                ctx.count("handles_out")
                for y in alts(F, v):
                    y = strip(y)
                    if y.op == "call" and y.a[2] in OWN:
                        continue
                    if y.op == "call" and y.a[2] in ("as_ptr", "as_mut_ptr", "as_ref", "borrow", "as_raw_ptr"):
                        ctx.violation("out-borrow:%s" % f.name, "%s hands out a pointer (%s) to memory that it does not "
                                      "give away" % (f.name, y.a[2]), f.where())
                    elif y.op == "ref":
                        ctx.violation("out-borrow:%s" % f.name, "%s hands out the address of its own memory" % f.name,
                                      f.where())
                    elif y.op == "vf" or y.op in ("phi", "top"):
                        # the payload of a Result: what produced it must be an ownership transfer
                        if not any(z.op == "call" and z.a[2] in OWN for z in flow.reach_terms(F, bb, y)):
                            ctx.violation("out-borrow:%s" % f.name, "%s hands out a pointer of unknown ownership" % f.name,
                                          f.where())


def alts(F, v, seen=None):
    seen = seen if seen is not None else set()
    if v.id in seen:
        return
    seen.add(v.id)
    if v.op == "phi":
        for x in F.phis.get((v.a[0], v.a[1]), {}).values():
            yield from alts(F, x, seen)
    else:
        yield v


def strip(y):
    while y.op == "cast":
        y = y.a[1]
    return y


def no_panic(ctx, prog, f, b, F):
    for bb in sorted(b.reachable()):
        t = b.bbs[bb]["term"]
        if t["t"] == "assert":
            k = t["kind"]
            if k in ("bounds", "div0", "rem0"):
                ctx.violation("panic:%s:%s" % (f.name, k), "%s can abort: unguarded %s" % (
                    f.name, "indexing" if k == "bounds" else "division"), f.where())
            elif k == "overflow" and t.get("op", "").startswith("Sub"):
                ctx.violation("panic:%s:%s" % (f.name, k), "%s can abort: a subtraction can wrap" % f.name, f.where())
            continue
        if t["t"] != "call":
            continue
        c = mir.callee_of(t)
        if c is None:
            continue
        ctx.count("calls_judged")
        what = panics.panics(c) or panics.unchecked(c)
        if what is None and c["name"] == "remove" and c["crate"] == "rustfst":
            what = "remove"
        if what == "remove":
            args = F.calls.get(bb, (None, ()))[1]
            if len(args) > 1 and bounded(F, bb, args[1]):
                ctx.count("bounded_removals")
                continue
        if what == "exit" or what:
            ctx.violation("panic:%s:%s" % (f.name, what), "%s can abort the process: %s at line %s" % (
                f.name, what, t.get("ln")), f.where())


def bounded(F, bb, idx):
    """Is `idx < len` known in block bb?"""
    for s, d in F.dom_edges(bb):
        t = F.body.bbs[s]["term"]
        if t["t"] != "switch":
            continue
        x = F.op(F.state_at_term(s), t["op"])
        vals = [int(v) for v, y in t["targets"] if y == d]
        true = not vals
        while x.op == "un" and x.a[0] == "Not":
            true = not true
            x = x.a[1]
        if x.op == "bin":
            op, l, r = x.a
            if not true:
                op = {"Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt"}.get(op, "?")
            if (op == "Lt" and l is idx) or (op == "Gt" and r is idx):
                return True
    return False


def conv(ctx, prog):
    """The C layer's own conversion and helper functions, outside the exported bodies."""
    for f in prog.fns.values():
        if f.crate != "rustfst_ffi" or f.d.get("exported") or f.d.get("derived"):
            continue
        if not (f.impl_trait or (f.kind == "Closure" and "as " in f.path)):
            continue  # plain helpers are judged inside the exported functions that use them
        ctx.count("helper_functions")
        for bb, t in f.calls():
            c = mir.callee_of(t)
            if c is None:
                continue
            what = panics.panics(c) or panics.unchecked(c)
            if what and what != "indexing":
                ctx.violation("panic:%s:%s" % (f.path, what), "%s can abort the process: %s" % (f.path, what), f.where())
