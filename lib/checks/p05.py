import flow
import mir
from checks.p14 import used
from tstate import TState, TooMany

EXPLANATION = """
Typestate over every function of the workspace that owns a buffering writer (BufWriter / LineWriter) or writes through io::Write: the
state of each writer local (unflushed / flushed) is followed along every path together with the returned variant; helpers that
take or return such a writer are inlined or summarised. A scan of all call sites covers partial writes and unexamined results.
"""
RULE = """
(1) no function returns success while a buffering writer it owns over anything but memory is unflushed (flush or into_inner
must have succeeded after the last write); (2) the Result of every io::Write / serialisation call is examined; (3) io::Write::write,
which may write less than asked, is not used without looking at the count; (4) the library writes files only through a writer (1)
covers or an unbuffered File.
"""


def is_writer(ty):
    if ty[0] in "&*":
        return False
    h = mir.ty_head(ty)[0].split("::")[-1]
    return h in ("BufWriter", "LineWriter") and "Vec<u8>" not in ty


def holds_writer(ty):
    return ("BufWriter<" in ty or "LineWriter<" in ty) and "Vec<u8>" not in ty


def run(ctx):
    prog = ctx.prog
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate not in ("rustfst", "rustfst_ffi", "rustfst_cli") or f.kind not in ("Fn", "AssocFn", "Closure"):
            continue
        ctx.count("functions")
        sites(ctx, f)
        if any(is_writer(l) for l in f.locals) or any(holds_writer(l) for l in f.locals[1:]):
            owner(ctx, prog, f)
    ctx.floor("writers", 6)
    ctx.floor("io_calls", 60)


def sites(ctx, f):
    b = None
    for bb, t in f.calls():
        c = mir.callee_of(t)
        if not c:
            continue
        tr = c.get("trait", "")
        if tr.endswith("io::Write") or tr.split("::")[-1] in ("Write", "SerializeBinary") or \
                (c["name"].startswith("write_") and c["crate"] == "rustfst"):
            ctx.count("io_calls")
            if not t["dst"].get("p") and f.locals[t["dst"]["l"]].startswith("core::result::Result"):
                if b is None:
                    b = mir.inline(ctx.prog, f, lambda g, c, s: False)
                if not used(b, t["dst"]["l"]):
                    ctx.violation("dropped:%s:%s" % (f.path, c["name"]), "%s does not look at the outcome of %s" % (
                        f.path, c["def"]), f.where(t.get("ln")))
        if c["name"] in ("write", "write_vectored") and tr.split("::")[-1] == "Write" and "fmt" not in tr:
            ctx.violation("partial:" + f.path, "%s uses io::Write::write, which may write only part of the data" % f.path,
                          f.where(t.get("ln")))


def owner(ctx, prog, f):
    if holds_writer(f.ret):
        return  # hands the writer to its caller, which is analysed with this function inlined
    b = mir.inline(prog, f, lambda g, c, s: holds_writer(g.ret) and g.crate == f.crate)
    F = flow.Flow(prog, b)
    ls = {i for i, t in enumerate(b.locals) if is_writer(t) and i > b.argc}
    if not ls:
        return
    ctx.count("writers")
    ctx.sample("writers", f.path)

    def moved(o):
        return o["pl"]["l"] if o["k"] == "move" and not o["pl"].get("p") and o["pl"]["l"] in ls else None

    def on_stmt(u, bb, i, s):
        if s["s"] != "=":
            return u
        d = dict(u)
        src = None
        for o in ops(s["rv"]):
            m = moved(o)
            if m is not None and m in d:
                src = d.pop(m)
        if not s["pl"].get("p") and s["pl"]["l"] in ls:
            d[s["pl"]["l"]] = src or "unflushed"
        return frozenset(d.items())

    def on_term(u, bb, t):
        if t["t"] != "call":
            return u
        d = dict(u)
        c = mir.callee_of(t)
        args = F.calls.get(bb, (None, ()))[1]
        name = c["name"] if c else ""
        con = name in ("new", "with_capacity") and c and ("BufWriter" in c["def"] or "LineWriter" in c["def"])
        for k, (o, a) in enumerate(zip(t["args"], args)):
            m = moved(o)
            if m is not None and m in d:
                if con or name == "into_inner" or (c and flushes(prog, c, k)):
                    d.pop(m)
                elif name == "into_parts":
                    d[m] = "lost"
                else:
                    d[m] = "given to %s, which does not flush it" % (name or "a function")
                continue
            if a.op == "ref" and isinstance(a.a[0], int) and a.a[0] in d and F.is_mut_ref(o):
                if name == "flush" and used(b, t["dst"]["l"]):
                    d[a.a[0]] = "flushed"
                elif name in ("get_ref", "get_mut", "buffer"):
                    pass
                else:
                    d[a.a[0]] = "unflushed"
        if not t["dst"].get("p") and t["dst"]["l"] in ls:
            d[t["dst"]["l"]] = "unflushed"
        return frozenset(d.items())
    try:
        ts = TState(prog, b, frozenset(), on_stmt, on_term)
    except TooMany:
        try:
            ts = TState(prog, b, frozenset(), on_stmt, on_term, bools=False,
                        only=lambda ty: ty.startswith("core::result::Result") or "ControlFlow" in ty)
        except TooMany:
            ctx.violation("toomany:" + f.path, "%s is too large to decide" % f.path, f.where())
            return
    for u, v, _ in ts.rets:
        ctx.count("return_facts")
        if v == "Err":
            continue
        for l, st in u:
            if st != "flushed":
                ctx.violation("flush:" + f.path, "%s can report success with its %s %s: an error of the final write is lost" % (
                    f.path, mir.ty_head(b.locals[l])[0].split("::")[-1], st), f.where())


def ops(rv):
    out = [rv[k] for k in ("op", "a", "b") if isinstance(rv.get(k), dict) and "k" in rv[k]]
    return out + list(rv.get("ops", []))


_fl = {}


def flushes(prog, c, k):
    """Does every candidate callee flush its k-th (by-value) argument before it reports success?"""
    fs = prog.candidates(c)
    if not fs:
        return False
    for g in fs:
        key = (g.path, k)
        if key not in _fl:
            _fl[key] = False
            b = mir.inline(prog, g, lambda h, cc, s: False)
            F = flow.Flow(prog, b)
            p = k + 1

            def on_term(u, bb, t):
                if t["t"] == "call":
                    cc = mir.callee_of(t)
                    for o, a in zip(t["args"], F.calls.get(bb, (None, ()))[1]):
                        if a.op == "ref" and a.a[0] == p and F.is_mut_ref(o):
                            u = cc is not None and cc["name"] == "flush"
                return u
            ts = TState(prog, b, False, on_term=on_term, bools=False)
            _fl[key] = all(u or v == "Err" for u, v, _ in ts.rets)
        if not _fl[key]:
            return False
    return True
