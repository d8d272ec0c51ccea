import flow
import mir
from checks.p14 import used
from tstate import TState, TooMany

EXPLANATION = """
Variant-tracking typestate over every function and closure of the core library that handles a Result. The fact carried along a
path is the first Result found to be an error on it; at every return the returned variant is compared with it. A scan of all call
sites adds the combinators that replace an error by a value, iterator adapters that skip failed elements, and Results that are never
looked at.
"""
RULE = """
(1) no function returns anything but an error on a path on which a Result it examined was an error; (2) no Result is
dropped unexamined; (3) no Result is turned into an Option or a default (ok, unwrap_or*, or, or_else, map_or*, is_ok/is_err used
as a value), and no iterator adapter skips failed elements (flatten / filter_map / flat_map over Results).
"""
HIDE = {"ok", "unwrap_or", "unwrap_or_else", "unwrap_or_default", "or", "or_else", "map_or", "map_or_else", "is_ok_and",
        "iter", "into_iter"}
CR = ("rustfst",)


def run(ctx):
    prog = ctx.prog
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate not in CR or f.kind not in ("Fn", "AssocFn", "Closure"):
            continue
        ctx.count("functions")
        if not any("core::result::Result" in l for l in f.locals):
            continue
        b = mir.inline(prog, f, lambda g, c, s: False)
        sites(ctx, f, b)
        paths(ctx, prog, f, b)
    ctx.floor("functions", 2000)
    ctx.floor("functions_handling_results", 700)


def is_res(ty):
    return ty.startswith("core::result::Result") or ty.startswith("core::ops::control_flow::ControlFlow<core::result::Result")


def paths(ctx, prog, f, b):
    def on_refine(u, bb, l, v, known):
        if v in ("Err", "Break") and known is None and is_res(b.locals[l]):
            return u or str(b.bbs[bb]["term"].get("ln", "?"))
        return u
    F = []

    def on_term(u, bb, t):
        # the returned Result computed by a call from the failure is the failure handed on
        if u and t["t"] == "call" and t["dst"]["l"] == 0 and is_res(f.ret):
            if not F:
                F.append(flow.Flow(prog, b))
            for a in F[0].calls.get(bb, (None, ()))[1]:
                if any(x.op == "vf" and x.a[1] in ("Err", "Break") for x in flow.subterms(a)):
                    return ""
        return u
    ts = None
    for bools in (True, False):
        try:
            ts = TState(prog, b, "", on_term=on_term, on_refine=on_refine, bools=bools, only=None if bools else is_res)
            break
        except TooMany:
            continue
    if ts is None:
        ctx.violation("toomany:" + f.path, "%s is too large to decide" % f.path, f.where())
        return
    ctx.count("functions_handling_results")
    ctx.sample("functions", f.path, cap=1500)
    for u, v, rb in ts.rets:
        ctx.count("return_facts")
        if u and v != "Err":
            if not is_res(f.ret) and f.ret.startswith("core::option::Option<core::result::Result"):
                continue  # an iterator handing the error on
            ctx.violation("swallow:" + f.path, "%s goes on as if nothing happened when a call fails (line %s)" % (
                f.path, u), f.where())


def sites(ctx, f, b):
    for bb in sorted(b.reachable()):
        t = b.bbs[bb]["term"]
        if t["t"] != "call":
            continue
        c = mir.callee_of(t)
        if not c:
            continue
        if not t["dst"].get("p") and b.locals[t["dst"]["l"]].startswith("core::result::Result"):
            ctx.count("fallible_calls")
            if not used(b, t["dst"]["l"]):
                ctx.violation("dropped:%s:%s" % (f.path, c["name"]), "%s drops the result of %s unexamined" % (
                    f.path, c["def"]), f.where(t.get("ln")))
        if c["name"] in HIDE and (c["def"].startswith("core::result::Result") or
                                  (c.get("self") or "").startswith("core::result::Result")):
            ctx.violation("hide:%s:%s" % (f.path, c["name"]), "%s replaces a failure by a value (%s)" % (f.path, c["name"]),
                          f.where(t.get("ln")))
        if c["name"] in ("flatten", "filter_map", "flat_map", "map_while") and c.get("trait", "").endswith("Iterator"):
            tys = [b.locals[a["pl"]["l"]] for a in t["args"] if a["k"] in ("copy", "move")]
            dst = b.locals[t["dst"]["l"]] if not t["dst"].get("p") else ""
            fns = [a["fn"].get("res") or a["fn"]["def"] for a in t["args"] if a["k"] == "const" and "fn" in a]
            bad = any(x.startswith("core::result::Result") for x in fns)
            if c["name"] == "flatten":
                item = c.get("assoc_item") or ""
                bad = bad or "Result<" in last_closure_ret(ctx.prog, tys)
            if bad:
                ctx.violation("flatten:%s" % f.path, "%s skips the failed elements of a sequence" % f.path, f.where(t.get("ln")))


def last_closure_ret(prog, tys):
    out = ""
    for ty in tys:
        if ty.startswith("core::iter::adapters::map::Map<"):
            args = mir.split_args(ty[len("core::iter::adapters::map::Map<"):-1])
            cl = prog.closure_of_type(args[-1]) if args else None
            if cl is not None:
                out += " " + cl.ret
    return out
