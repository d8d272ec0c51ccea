import ffi
import flow
import mir
from tstate import TState, TooMany

EXPLANATION = """
Typestate analysis of every exported C entry point, with the FFI crate's own helpers (the error
wrapper, its closures, Option/Result combinators) inlined. The fact carried along each path is which
out-parameters have been written and whether a fallible call has failed; Result/Option variants are
tracked so the success and failure continuations stay apart. At every return the status variant is
known and compared with the fact.
"""
RULE = """
(1) every exported function returns a status; (2) at a return with the OK status, every parameter that
is a pointer to a scalar or to a pointer has been written and no Result on the path was an error;
(3) at a return with the KO status, the last-error slot has been set; (4) no Result produced inside an entry
point is dropped unexamined.
"""


def run(ctx):
    prog = ctx.prog
    exp = ffi.exported(prog)
    for f in exp:
        ctx.count("entry_points")
        ctx.sample("entry_points", f.name)
        check(ctx, prog, f)
    ctx.floor("entry_points", 60)


def check(ctx, prog, f):
    if "RUSTFST_FFI_RESULT" not in f.ret:
        ctx.violation("status:" + f.name, "%s does not return a status" % f.name, f.where())
        return
    b, F = ffi.body(prog, f)
    outs = ffi.out_params(f)
    freed = freed_params(F)
    outs = [o for o in outs if o not in freed]
    names = f.arg_names()
    ev = {}
    for (bb, i), ws in F.writes.items():
        for cell, path, v in ws:
            if isinstance(cell, tuple) and cell[0] == "m" and cell[1].op == "param" and not path and v is not None:
                ev.setdefault((bb, i), set()).add(cell[1].a[0])
    for o in outs:
        ctx.count("out_parameters")

    errset = last_error_blocks(b)

    def on_stmt(u, bb, i, s):
        e = ev.get((bb, i))
        return u if not e else (u[0] | e, u[1], u[2])

    def on_term(u, bb, t):
        e = ev.get((bb, "T"))
        if e:
            u = (u[0] | e, u[1], u[2])
        if t["t"] == "call":
            c = mir.callee_of(t)
            if c is not None and c["name"] in ("write", "copy_nonoverlapping", "copy") and "ptr" in c["def"]:
                args = F.calls.get(bb, (None, ()))[1]
                k = 1 if c["name"] != "write" else 0
                if len(args) > k and args[k].op == "param":
                    u = (u[0] | {args[k].a[0]}, u[1], u[2])
            if bb in errset:
                u = (u[0], u[1], True)
        return u

    def on_refine(u, bb, l, v, known):
        ty = b.locals[l]
        if v in ("Err", "Break") and known is None and (ty.startswith("core::result::Result") or (
                v == "Break" and "core::result::Result" in ty)):
            if not any(x.startswith("?") for x in b.bbs[bb]["stack"]):
                return (u[0], u[1] or where(b, bb), u[2])
        return u

    try:
        ts = TState(prog, b, (frozenset(), None, False), on_stmt, on_term, on_refine)
    except TooMany:
        ctx.violation("toomany:" + f.name, "%s is too large to decide" % f.name, f.where())
        return
    ok = 0
    for (w, err, le), v, rb in ts.rets:
        ctx.count("return_facts")
        if v is None:
            ctx.violation("unknown-status:" + f.name, "%s returns a status that does not come from its "
                          "outcome" % f.name, f.where())
            continue
        if v.endswith("_OK"):
            ok += 1
            if err:
                ctx.violation("swallow:%s" % f.name, "%s reports success although a call failed (%s)" % (f.name, err),
                              f.where())
            for o in outs:
                if o not in w:
                    ctx.violation("out:%s:%s" % (f.name, names[o - 1]),
                                  "%s can report success without writing its out-parameter `%s`" % (
                                      f.name, names[o - 1]), f.where())
        else:
            if not le:
                ctx.violation("lasterror:" + f.name, "%s can report failure without recording an error message"
                              % f.name, f.where())
    if not ok:
        ctx.violation("never-ok:" + f.name, "%s never reports success" % f.name, f.where())
    for cl in inner_closures(prog, b):
        check_closure(ctx, prog, f, cl)
    for bb, (c, args) in F.calls.items():
        if c and c["name"] in ("flatten", "filter_map", "flat_map") and c.get("trait", "").endswith("Iterator"):
            ty = " ".join(b.locals[a["pl"]["l"]] for a in b.bbs[bb]["term"]["args"] if a["k"] in ("copy", "move"))
            if any(a.op == "fnref" and a.a[0].startswith("core::result::Result") for a in args) or \
                    (c["name"] == "flatten" and any("Result<" in cl.ret for cl in inner_closures(prog, b))):
                ctx.violation("flatten:" + f.name, "%s skips the failed elements of a sequence" % f.name, where(b, bb))
    # dropped results
    for bb, t in calls(b):
        d = t["dst"]
        if d.get("p"):
            continue
        ty = b.locals[d["l"]]
        if ty.startswith("core::result::Result") and not used(b, d["l"]):
            ctx.violation("dropped:%s:%s" % (f.name, mir.callee_of(t)["name"] if mir.callee_of(t) else "?"),
                          "%s drops the result of %s unexamined" % (
                              f.name, mir.callee_of(t)["def"] if mir.callee_of(t) else "a call"), where(b, bb))


def calls(b):
    for bb in sorted(b.reachable()):
        t = b.bbs[bb]["term"]
        if t["t"] == "call":
            yield bb, t


def where(b, bb):
    t = b.bbs[bb]["term"]
    return "%s line %s" % (t.get("fn", b.fn.path), t.get("ln", "?"))


def freed_params(F):
    out = set()
    for bb, (c, args) in F.calls.items():
        if c and c["name"] in ("from_raw", "drop_raw_pointer", "from_raw_pointer", "from_raw_pointer_mut"):
            for a in args:
                if a.op == "param":
                    out.add(a.a[0])
    return out


def used(b, l):
    import tstate
    for bb in b.reachable():
        x = b.bbs[bb]
        for s in x["st"]:
            if s["s"] == "=" and l in tstate.rv_locals(s["rv"]):
                return True
        t = x["term"]
        if t["t"] == "call" and any(l in tstate.op_locals(a) for a in t["args"]):
            return True
        if t["t"] == "return" and l == 0:
            return True
    return False


def inner_closures(prog, b):
    """Closures handed to code outside the workspace (iterator adaptors): decided as functions of
    their own, whose caller sees their return value."""
    out = {}
    for bb in b.reachable():
        for x in b.bbs[bb]["stack"]:
            if x.startswith("?"):
                out[x[1:]] = prog.fns[x[1:]]
    return list(out.values())


def check_closure(ctx, prog, f, cl):
    b = mir.inline(prog, cl, lambda g, c, st: g.crate == "rustfst_ffi")

    def on_refine(u, bb, l, v, known):
        ty = b.locals[l]
        if v in ("Err", "Break") and known is None and (ty.startswith("core::result::Result") or (
                v == "Break" and "core::result::Result" in ty)):
            return True
        return u

    ts = TState(prog, b, False, on_refine=on_refine)
    ctx.count("inner_closures")
    for err, v, rb in ts.rets:
        if err and v != "Err":
            ctx.violation("swallow:%s" % cl.path.split("rustfst_ffi::")[-1],
                          "a closure of %s goes on after a failed call" % f.name, cl.where())


def last_error_blocks(b):
    """Calls that reach the last-error slot: LocalKey::with on the crate's error cell."""
    out = set()
    for bb, t in calls(b):
        c = mir.callee_of(t)
        if c is not None and c["def"].startswith("std::thread::local::LocalKey") and c["name"] in ("with", "with_borrow_mut", "set", "replace"):
            out.add(bb)
    return out
