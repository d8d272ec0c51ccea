import mir
from locks import Locks, is_acquire, is_mutex, lock_class

EXPLANATION = """
Lock-order and guard-liveness analysis over the MIR of every workspace function. Each acquisition of
a Mutex, RwLock or RefCell is classed by the field that holds the lock. For every call made while a
guard is alive, the locks the call may take (transitively over the call graph, class hierarchy
analysis for trait methods) are compared with the ones held; the union of held->acquired pairs must
be acyclic and irreflexive. For every function, acquisitions of one lock reached on one path are
counted after inlining its workspace callees: an operation on a shared table is one critical section.
"""
RULE = """
(1) no lock class is acquired while a guard of the same class is alive; (2) the held-before relation
between lock classes has no cycle; (3) on no path does one operation acquire the same lock of the same
object twice (a table count and the table data, or a lookup and an insertion, are one critical section).
"""


def run(ctx):
    prog = ctx.prog
    L = Locks(prog)
    may = L.may()
    for f, b, t, k in L.sites:
        ctx.count("acquisition_sites")
        ctx.sample("locks", k)
    edges = {}
    for f in prog.fns.values():
        if f.path not in may:
            continue
        ctx.count("functions_that_may_lock")
        for b, t, held in L.held(f):
            if t["t"] != "call":
                continue
            hs = set().union(*held.values()) if held else set()
            if not hs:
                continue
            c = mir.callee_of(t)
            acq = {}
            htys = [f.locals[l] for l in held]
            if is_acquire(c):
                acq[L.cls(f, f.locals, f.bbs, b, t)] = (f.path,)
            else:
                for g in L.targets(f, t, htys):
                    for k, p in may.get(g.path, {}).items():
                        acq.setdefault(k, (f.path,) + p)
                for a in t["args"]:
                    if a["k"] in ("copy", "move") and not a["pl"].get("p"):
                        cl = prog.closure_of_type(f.locals[a["pl"]["l"]])
                        if cl is not None:
                            for k, p in may.get(cl.path, {}).items():
                                acq.setdefault(k, (f.path,) + p)
            ctx.count("calls_made_holding_a_lock")
            for h in hs:
                for k, p in acq.items():
                    if h.endswith("(shared)") and k.endswith("(shared)"):
                        continue
                    h, k = h.replace(" (shared)", ""), k.replace(" (shared)", "")
                    edges.setdefault((h, k), []).append((f, t, p))
    for (h, k), ws in sorted(edges.items()):
        f, t, p = ws[0]
        if h == k:
            for f, t, p in ws:
                ctx.violation("relock:%s:%s" % (short(f.path), k),
                              "%s acquires lock %s while a guard of %s is alive (path %s)" % (
                                  short(f.path), k, h, " -> ".join(short(x) for x in p)), f.where(t["ln"]))
        ctx.sample("order", "%s before %s (%s)" % (h, k, short(f.path)))
    # cycles
    g = {}
    for h, k in edges:
        if h != k:
            g.setdefault(h, set()).add(k)
    cyc = find_cycle(g)
    if cyc:
        pair = (cyc[0], cyc[1])
        f, t, p = edges[pair][0]
        ctx.violation("cycle:" + ">".join(sorted(set(cyc))),
                      "locks are taken in opposite orders: %s" % " -> ".join(
                          "%s (in %s)" % (x, short(edges[(x, y)][0][0].path)) for x, y in zip(cyc, cyc[1:])),
                      f.where(t["ln"]))
    ctx.count("order_edges", len(edges))
    # one critical section per operation
    owners = {}
    for f in prog.fns.values():
        if f.path not in may or f.kind == "Closure":
            continue
        if not any(own_type(k, f) for k in may[f.path]):
            continue
        twice, n = double_acquire(prog, L, f)
        if n:
            ctx.count("operations_checked_for_single_section")
        for k, inst, where in twice:
            ctx.violation("twice:%s:%s" % (short(f.path), k),
                          "%s acquires lock %s of the same object twice on one path: the parts it reads or writes "
                          "can come from different moments" % (short(f.path), k), where)
    ctx.floor("acquisition_sites", 20)
    ctx.floor("operations_checked_for_single_section", 20)
    ctx.assume("element types stored in a locked table (tuples, weights, labels) do not lock that table in their "
               "Eq/Hash/Clone/Debug implementations")


def short(p):
    import re
    m = re.search(r"<impl ([^>]*?)(<.*?>)? for ([\w:]+).*>::(\w+)$", p)
    if m:
        return m.group(3).split("::")[-1] + "::" + m.group(4)
    p = re.sub(r"<([\w:]+)(<[^>]*>)? as [^>]*>+", lambda x: x.group(1).split("::")[-1], p)
    return "::".join(p.split("::")[-2:])


def find_cycle(g):
    col, st = {}, []

    def dfs(u):
        col[u] = 1
        st.append(u)
        for v in sorted(g.get(u, ())):
            if col.get(v) == 1:
                return st[st.index(v):] + [v]
            if v not in col:
                r = dfs(v)
                if r:
                    return r
        st.pop()
        col[u] = 2
        return None
    for u in sorted(g):
        if u not in col:
            r = dfs(u)
            if r:
                return r
    return None


def own_type(k, f):
    """Some parameter is (a reference to) the type that owns lock class k."""
    owner = k.split(".")[0]
    return any(mir.ty_head(mir.strip_refs(a))[0].split("::")[-1] == owner for a in f.args())


def double_acquire(prog, L, f):
    may = L.may()

    def want(g, c, stack):
        return g.path in may
    try:
        body = mir.inline(prog, f, want, max_blocks=1500, closures=True)
    except RecursionError:
        return [], 0
    import flow
    fl = flow.Flow(prog, body)
    acq = {}
    for b, (c, args) in fl.calls.items():
        if is_acquire(c) and is_mutex(c):
            inst = args[0] if args else None
            if not own_lock(inst):
                continue
            k = lock_class(f, body.locals, body.bbs, b, body.bbs[b]["term"])
            acq[b] = (k, inst)
    out = []
    bs = sorted(acq)
    for i, b in enumerate(bs):
        reach = reachable_from(body, b)
        for q in bs:
            if q in reach and acq[q] == acq[b] and (q != b or loop_const(fl, acq[b][1])):
                t = body.bbs[q]["term"]
                out.append((acq[b][0], acq[b][1], "%s:%s" % (f.file, t["ln"])))
    return out, len(acq)


def own_lock(inst):
    """&(*param).field: the operation is one of the object that owns the lock."""
    return inst is not None and inst.op == "ref" and isinstance(inst.a[0], tuple) and \
        inst.a[0][1].op == "param" and len(inst.a[1]) == 1


def loop_const(fl, inst):
    """b reaches itself: the same object only if its term does not vary in the loop."""
    import flow
    for x in flow.subterms(inst):
        if x.op in ("phi", "call", "vf", "payload"):
            return False
    return True


def reachable_from(body, b):
    seen, st = set(), list(body.succ(b))
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(body.succ(x))
    return seen
