import cli
import flow
import mir
from tstate import TState, TooMany

EXPLANATION = """
Typestate analysis of the CLI's main() and command handler, everything in the CLI crate inlined down to the
library calls. In main, the outcome of the command handler is followed to the process exit status; in the
handler, a library call that fails is followed to the returned Result.
"""
RULE = """
(1) when the handler fails, main ends in process::exit with a non-zero constant (or returns an error/failure code)
and never returns normally or exits 0; (2) when it succeeds, main does not exit with a failure; (3) on every
path on which the handler returns Ok, no fallible call on that path has failed; (4) no Result is dropped unexamined
in the CLI crate.
"""


def run(ctx):
    prog = ctx.prog
    b, F = cli.main_body(prog)
    h = cli.handler(prog)
    hb = [bb for bb, (c, a) in F.calls.items() if c and (c.get("res") or c["def"]) == h.path]
    if not hb:
        raise mir.Missing("main() calls the command handler")
    ctx.count("handler_calls", len(hb))
    bad = []

    def on_term(u, bb, t):
        if bb in hb:
            return "pending"
        if t["t"] == "call":
            c = mir.callee_of(t)
            if c and c["name"] in ("exit", "abort") and "process" in c["def"]:
                code = F.calls[bb][1][0] if F.calls[bb][1] else None
                ctx.count("exit_sites")
                k = cli.const(code) if code is not None else "abort"
                bad.append((u, k, bb))
        return u

    def on_refine(u, bb, l, v, known):
        if u == "pending" and known is None and "Result" in b.locals[l]:
            return "failed" if v in ("Err", "Break") else "ok"
        return u
    ts = TState(prog, b, "start", on_term=on_term, on_refine=on_refine)
    for u, v, rb in ts.rets:
        ctx.count("return_facts")
        ret = b.locals[0]
        if u == "pending":
            if not ret.startswith("core::result::Result"):
                ctx.violation("main:unexamined", "main does not examine the outcome of the command", b.fn.where())
        if u == "failed" and v not in ("Err", "FAILURE") and not (ret.startswith("core::result::Result") and v is None):
            if "ExitCode" in ret:
                continue_ok = exit_code_failure(F, rb)
                if continue_ok:
                    continue
            ctx.violation("main:returns", "main returns normally (status 0) when the command failed", b.fn.where())
    for u, k, bb in bad:
        if u in ("failed", "pending") and k in ("0", 0, None):
            ctx.violation("main:exit0", "main exits with status %s when the command failed" % k, b.fn.where())
        if u == "ok" and k not in ("0", 0):
            ctx.violation("main:exitnz", "main exits with status %s although the command succeeded" % k, b.fn.where())
    if not any(u == "failed" for u, _, _ in ts.rets) and not any(u == "failed" for u, _, _ in bad) and \
            not any(u == "pending" for u, _, _ in ts.rets):
        ctx.violation("main:nofail", "main has no continuation for a failed command", b.fn.where())
    handler_errors(ctx, prog)
    ctx.floor("handler_calls", 1)
    ctx.floor("fallible_calls", 60)


def exit_code_failure(F, rb):
    for x in flow.reach_terms(F, rb, F.rets[rb]):
        if x.op == "const" and "FAILURE" in str(x.a[1]):
            return True
        if x.op == "const" and str(x.a[1]).isdigit() and int(x.a[1]) != 0:
            return True
    return False


def handler_errors(ctx, prog):
    roots = [cli.handler(prog)] + [g for g in prog.fns.values() if g.crate == "rustfst_cli" and g.kind in (
        "Fn", "AssocFn", "Closure") and g.ret.startswith("core::result::Result")]
    seen = set()
    for f in roots:
        if f.path in seen:
            continue
        seen.add(f.path)
        b = mir.inline(prog, f, lambda g, c, s: False)

        def on_refine(u, bb, l, v, known, b=b):
            ty = b.locals[l]
            if v in ("Err", "Break") and known is None and (ty.startswith("core::result::Result") or (
                    v == "Break" and "core::result::Result" in ty)):
                return u or str(b.bbs[bb]["term"].get("ln", "?"))
            return u
        try:
            ts = TState(prog, b, "", on_refine=on_refine)
        except TooMany:
            ctx.violation("toomany:" + f.path, "too large to decide", f.where())
            continue
        ctx.count("cli_functions")
        for u, v, _ in ts.rets:
            if u and v == "Ok":
                ctx.violation("swallow:" + f.path, "%s reports success although a call failed (line %s)" % (
                    f.path, u), f.where())
    for f in prog.fns.values():
        if f.crate != "rustfst_cli" or f.path.split("::")[-1] == "fmt":
            continue
        b = mir.inline(prog, f, lambda g, c, s: False)
        for bb in sorted(b.reachable()):
            t = b.bbs[bb]["term"]
            if t["t"] != "call":
                continue
            c = mir.callee_of(t)
            if t["dst"].get("p"):
                continue
            ty = b.locals[t["dst"]["l"]]
            if ty.startswith("core::result::Result") and c:
                ctx.count("fallible_calls")
                if not used(b, t["dst"]["l"]):
                    ctx.violation("dropped:%s:%s" % (f.path, c["name"]), "%s drops the result of %s unexamined" % (
                        f.path, c["def"]), f.where(t.get("ln")))
            if c and c["name"] in ("ok", "unwrap_or", "unwrap_or_else", "unwrap_or_default", "is_ok", "is_err", "or",
                                   "or_else", "map_or", "map_or_else") and c["def"].startswith("core::result::Result"):
                if c["name"] in ("is_ok", "is_err"):
                    continue
                ctx.violation("hide:%s:%s" % (f.path, c["name"]), "%s replaces a failure by a value (%s)" % (
                    f.path, c["name"]), f.where(t.get("ln")))


def used(b, l):
    from tstate import rv_locals, op_locals
    if l == 0:
        return True
    for bb in b.reachable():
        for s in b.bbs[bb]["st"]:
            if s["s"] == "=" and l in rv_locals(s["rv"]):
                return True
        t = b.bbs[bb]["term"]
        if t["t"] == "call" and any(l in op_locals(a) for a in t["args"]):
            return True
        if t["t"] == "switch" and l in op_locals(t["op"]):
            return True
    return False
