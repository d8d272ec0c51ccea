import ffi
import flow
import mir
import order

EXPLANATION = """
Taint analysis of hash-iteration order over the value flow of every function of the core library and the C interface (lib/order.py): iterators of
HashMap/HashSet/BiHashMap are the sources; sequences filled from them, containers appended to in a loop driven by them, and numbers given inside
such a loop depend on the order; sorting and keyed collections remove the dependence; private helpers are followed through summaries. A call-graph
analysis finds every source of entropy (operating-system randomness, thread-local generators, clocks) and who can reach it.
"""
RULE = """
(1) No function visible outside its module returns, or leaves in a parameter it edits, a value that depends on the iteration order of a hash
container. (2) Entropy is drawn only in functions that are given neither a seed nor a generator. (3) A seed parameter reaches the generator
unchanged.
"""
ENTROPY = ("from_entropy", "thread_rng", "getrandom", "try_from_os_rng", "from_os_rng", "from_rng_entropy")
CLOCK = ("std::time::SystemTime::now", "std::time::Instant::now", "std::process::id", "rand::random", "std::thread::current::current",
         "std::thread::current", "rand::rngs::thread::rng", "rand::rng", "std::hash::random::RandomState::new")
SEEDED = ("seed_from_u64", "from_seed")


def run(ctx):
    prog = ctx.prog
    O = order.Order(prog)
    fns = [f for f in prog.fns.values() if f.crate in ("rustfst", "rustfst_ffi") and f.bbs and "tests_openfst" not in f.path
           and "::tests::" not in f.path and "::test::" not in f.path]
    callers = {}
    work = []
    for f in fns:
        for b, t in f.calls():
            c = mir.callee_of(t)
            if not c:
                continue
            ctx.count("call_sites")
            if order.is_hash_iter(c):
                work.append(f)
                ctx.count("hash_iterations")
                ctx.sample("hash_iterations", "%s in %s" % (c["name"], f.where(t.get("ln"))))
            r = prog.resolve(c)
            if r is not None:
                callers.setdefault(r[0].path, set()).add(f.path)
    ctx.count("functions", len(fns))
    done = set()
    while work:
        f = work.pop()
        if f.path in done:
            continue
        done.add(f.path)
        s = O.sum(f)
        if s is None:
            continue
        hits = [("its result", s.ret)] if s.ret and f.kind != "Closure" else []
        hits += [("what it leaves in parameter %d" % k, w) for k, w in sorted(s.outs.items())]
        hits = [(a, w) for a, w in hits if w and not w.startswith("parameter")]
        ctx.count("functions_decided")
        if not hits:
            ctx.sample("order_does_not_escape", f.path)
            continue
        up = callers.get(f.path, ())
        if any(not mir.strip_refs(f.locals[k]).startswith(("alloc::vec::Vec<", "[", "alloc::string::String")) for k in s.outs):
            up = ()
        if f.pub or f.impl_trait or f.kind == "Closure" or not up:
            what, w = hits[0]
            ctx.violation("order:%s" % f.path.split("rustfst::")[-1], "%s: %s depends on hash iteration order: %s" % (f.path, what, w), f.where())
        else:
            work += [prog.fns[x] for x in up if x in prog.fns]
    for u in O.undecided:
        ctx.count("undecided")
        ctx.sample("undecided_shapes", u)
    ctx.count("functions_summarised", O.nfn)
    entropy(ctx, prog, fns, callers)
    ctx.floor("seed_sites", 1)
    ctx.floor("functions", 1000)


def carries_seed(prog, f):
    """Is the function given a seed, or something that holds a generator?"""
    names = f.arg_names()
    for i, ty in enumerate(f.args()):
        n = names[i] if i < len(names) else ""
        if n and "seed" in n.lower():
            return n
        t = mir.strip_refs(ty)
        if "RandGenConfig" in t or "TrSelector" in t or "Rng" in mir.ty_head(t)[0]:
            return n or t
        h = mir.ty_head(t)[0]
        a = prog.adts.get(h) if hasattr(prog, "adts") else None
        if a and any("seed" in str(x).lower() or "Rng" in str(x) for x in str(a.get("variants", "")).split(",")):
            return n or t
    return None


def entropy(ctx, prog, fns, callers):
    tainted = {}
    work = []
    for f in fns:
        for b, t in f.calls():
            c = mir.callee_of(t)
            if not c:
                continue
            d = c.get("res") or c["def"]
            src = None
            if c["name"] in ENTROPY and not d.startswith(("rustfst",)):
                src = c["name"]
            elif any(d == x or c["def"] == x for x in CLOCK[:-1]):
                src = d
            elif c["name"] == "build_hasher" or c["name"] == "hash_one":
                st = mir.strip_refs(c.get("self") or "")
                src = "the process's hash seed" if "RandomState" in st else None
            elif "SeedableRng" in c["def"] and c["name"] in SEEDED:
                seed(ctx, prog, f, b, c)
            if src:
                ctx.count("entropy_sites")
                ctx.sample("entropy_sites", "%s at %s" % (src, f.where(t.get("ln"))))
                if f.path not in tainted:
                    tainted[f.path] = src
                    work.append(f)
    for f in ffi.exported(prog):
        if any("seed" in (n or "").lower() for n in f.arg_names()):
            seed(ctx, prog, f, None, None)
    while work:
        f = work.pop()
        g = f
        s = carries_seed(prog, f)
        ctx.count("entropy_functions")
        if s and not guarded(prog, f, tainted):
            ctx.violation("entropy:%s" % f.path.split("rustfst::")[-1], "%s is given %s but draws from %s" % (f.path, s, tainted[f.path]), f.where())
            continue
        if f.name in ("fmt",):
            continue
        up = callers.get(f.path, ())
        if f.kind == "Closure":
            up = set(up) | {f.path.rsplit("::{closure", 1)[0]}
        for x in up:
            if x not in tainted and x in prog.fns:
                tainted[x] = tainted[f.path]
                work.append(prog.fns[x])


def guarded(prog, f, tainted):
    """Every draw is under a test of whether an optional seed is there."""
    body = mir.inline(prog, f, lambda g, c, s: False)
    F = flow.Flow(prog, body)
    for b, (c, args) in F.calls.items():
        d = (c.get("res") or c["def"]) if c else ""
        r = prog.resolve(c) if c else None
        hit = c and (c["name"] in ENTROPY or d in CLOCK or r is not None and r[0].path in tainted)
        if hit and not any(q in F.conds and F.conds[q].op == "discr" or F.conds[q].op == "call" and F.conds[q].a[2] in ("is_none", "is_some")
                           for q, s in F.dom_edges(b) if q in F.conds):
            return False
    return True


def seed(ctx, prog, f, b0, c):
    """The seed handed on is the parameter itself."""
    names = f.arg_names()
    k = [i + 1 for i, n in enumerate(names) if n and "seed" in n.lower()]
    if f.kind == "Closure" or not k:
        return
    F = ffi.body(prog, f)[1] if c is None else flow.Flow(prog, mir.inline(prog, f, lambda g, c, s: False))
    n = 0
    for b, (c2, args) in F.calls.items():
        if c2 and c2["name"] in SEEDED and args:
            n += 1
            ctx.count("seed_sites")
            t = args[0]
            while t.op == "cast":
                if t.a[0] not in ("u64", "usize", "u128"):
                    break
                t = t.a[1]
            key = "seed:%s" % f.path.split("rustfst::")[-1]
            if t.op == "param" and t.a[0] in k:
                ctx.sample("seeds_forwarded", f.path)
            elif t.op == "cast":
                ctx.violation(key, "%s narrows the seed to %s" % (f.path, t.a[0]), f.where())
            elif t.op in ("bin", "const", "param") or not any(x.op == "param" and x.a[0] in k for x in flow.subterms(t)):
                ctx.violation(key, "%s seeds the generator with %s, not with the seed it is given" % (f.path, flow.show(t)[:80]), f.where())
            else:
                ctx.count("undecided")
    if not n and c is None and any(x.op == "param" and x.a[0] in k for c2, args in F.calls.values() for a in args
                                   for x in flow.subterms(a) if a.op != "agg"):
        ctx.count("undecided")
    elif not n and c is None:
        ctx.violation("seed:%s" % f.path.split("rustfst::")[-1], "%s does not use the seed it is given" % f.path, f.where())
