import bits
import flow
import mir

EXPLANATION = """
Every function of the type-checked MIR that changes the transitions of a state, or stores an epsilon counter, is analysed with guarded
counter effects: each change of a counter is an event (+1, -1, reset to 0, or the total of a loop) with the condition under which it
happens, described as a decision diagram over label tests. The events are compared with the transitions that the same path adds,
removes or relabels. Accessors and copies are followed to the field they take.
"""
RULE = """
The input counter changes by one exactly when a transition whose input label is 0 is added, removed or relabelled (and the output counter
likewise with output labels); a recount starts at 0 and visits every transition; each accessor answers its own side's counter.
"""
OTHER = {"niepsilons": "noepsilons", "noepsilons": "niepsilons"}
LABEL = {"niepsilons": "ilabel", "noepsilons": "olabel"}
CALLEE = {"niepsilons": "num_input_epsilons", "noepsilons": "num_output_epsilons"}


def want(g, c, s):
    return g.crate == "rustfst" and "::_::" not in g.path and "_properties" not in g.path


def run(ctx):
    prog = ctx.prog
    editors(ctx, prog)
    vector(ctx, prog)
    others(ctx, prog)
    accessors(ctx, prog)
    ctx.floor("editing_methods", 15)
    ctx.floor("accessors", 20)


class M:
    """A method body with counter events."""

    def __init__(self, prog, f, inl=want):
        self.f = f
        self.body = mir.inline(prog, f, inl)
        self.F = flow.Flow(prog, self.body)
        self.B = bits.Bits(prog, self.body, F=self.F)
        self.d = self.B.d
        self.loops = {}
        for b, h in self.B.back:
            self.loops.setdefault(h, set()).update(natural(self.body, h, [b]))
        self.ev = {}
        for (b, i), ws in self.F.writes.items():
            for cell, path, v in ws:
                n = place_counter(cell, path)
                if n:
                    self.ev.setdefault(n, []).append((b, v, effect(v)))

    def loop_of(self, b):
        best = None
        for h, l in self.loops.items():
            if b in l and (best is None or len(l) < len(self.loops[best])):
                best = h
        return best

    def ok(self):
        """When does the method succeed?"""
        d, r = self.d, 0
        for rb, rt in self.F.rets.items():
            e = self.B.variant(rt, "1") if self.f.ret.startswith("core::result::Result") else 0
            r = d.OR(r, d.AND(self.B.rc[rb], d.NOT(e)))
        return r


def place_counter(cell, path):
    k = [x for x in path if isinstance(x, str) and x != "deref"]
    if k:
        return k[-1] if k[-1] in OTHER else None
    if isinstance(cell, tuple):
        t = cell[1]
        while t.op in ("deref",) or (t.op == "field" and t.a[1] == "deref"):
            t = t.a[0]
        if t.op == "field" and t.a[1] in OTHER:
            return t.a[1]
    return None


def effect(v):
    if v is None:
        return None
    if v.op == "const":
        return ("set", v.a[1])
    if v.op == "bin" and v.a[0].startswith(("Add", "Sub")) and v.a[2].op == "const" and v.a[2].a[1] == "1":
        return ("+" if v.a[0].startswith("Add") else "-", v.a[1])
    if v.op == "field" and v.a[0].op == "bin":
        return effect(v.a[0])
    return ("value", v)


def natural(body, h, backs):
    preds = body.preds()
    seen, st = {h}, list(backs)
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st += preds[x]
    return seen


def cond(m, evs, sign):
    """When does an event of this sign happen (in one iteration of its loop)?"""
    return m.d.OR(*[m.B.rc[b] for b, v, e in evs if e and e[0] == sign])


def viol(ctx, m, key, msg):
    ctx.violation("%s:%s" % (m.f.name, key), "%s %s" % (m.f.path, msg), m.f.where())


# ---- the transition editor
OLD = "p1.trs[p2]."
EDIT = {"set_ilabel": {"niepsilons": "p3"}, "set_olabel": {"noepsilons": "p3"},
        "set_labels": {"niepsilons": "p3", "noepsilons": "p4"},
        "set_tr": {"niepsilons": "p3.ilabel", "noepsilons": "p3.olabel"}, "set_weight": {}, "set_nextstate": {}}


def editors(ctx, prog):
    seen = set()
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.kind == "Closure" or not f.path.startswith("rustfst::trs_iter_mut::TrsIterMut"):
            continue
        base = f.name.replace("_unchecked", "")
        if base not in EDIT:
            continue
        seen.add(base)
        ctx.count("editing_methods")
        ctx.sample("functions", f.path)
        m = M(prog, f)
        d = m.d
        ok = m.ok()
        for n in OTHER:
            evs = m.ev.get(n, [])
            new = EDIT[base].get(n)
            ctx.count("counter_obligations")
            if any(e is None or e[0] not in "+-" for b, v, e in evs):
                ctx.count("undecided")
                continue
            up, down = d.AND(ok, cond(m, evs, "+")), d.AND(ok, cond(m, evs, "-"))
            if new is None:
                wup, wdown = 0, 0
            else:
                wup = d.AND(ok, d.var("0==" + new))
                wdown = d.AND(ok, d.var("0==" + OLD + LABEL[n]))
            # only the net change counts
            net_up, net_down = d.AND(up, d.NOT(down)), d.AND(down, d.NOT(up))
            if net_up != d.AND(wup, d.NOT(wdown)) or net_down != d.AND(wdown, d.NOT(wup)):
                viol(ctx, m, n, "does not change the %s epsilon counter by what the change of the transition's %s calls for" % (
                    side(n), LABEL[n]))
    for n in EDIT:
        if n not in seen:
            raise mir.Missing("TrsIterMut::" + n)


def side(n):
    return "input" if n == "niepsilons" else "output"


# ---- the vector FST
METHODS = {"add_tr": "add", "set_trs": "recount", "delete_trs": "clear", "pop_trs": "clear", "del_trs_id_sorted": "remove",
           "del_states": "remove", "unique_trs": "recount", "sum_trs": "remove", "del_state": "remove"}


def vector(ctx, prog):
    seen = set()
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.kind != "AssocFn" or not f.path.endswith("VectorFst<W>>::" + f.name) or "MutableFst<W> for" not in f.path:
            continue
        base = f.name.replace("_unchecked", "").replace("tr_iter_mut", "tr_iter")
        m = M(prog, f)
        if base in ("tr_iter",):
            handout(ctx, m)
            seen.add(base)
            continue
        kind = METHODS.get(base)
        if kind is None:
            if m.ev and not f.name.startswith("new"):
                for n, evs in m.ev.items():
                    if any(e and e[0] in "+-" for b, v, e in evs):
                        viol(ctx, m, n, "changes the %s epsilon counter although it does not change transitions" % side(n))
            continue
        seen.add(base)
        ctx.count("editing_methods")
        ctx.sample("functions", f.path)
        for n in OTHER:
            ctx.count("counter_obligations")
            if not m.ev.get(n):
                viol(ctx, m, n, "changes the transitions of a state and leaves the %s epsilon counter as it was" % side(n))
        if len(m.ev) == 2:
            {"add": add, "clear": clear, "recount": recount, "remove": remove}[kind](ctx, m)
    for n in METHODS:
        if n not in seen:
            raise mir.Missing("VectorFst::" + n)


def handout(ctx, m):
    """The editor gets the counters of the state whose transitions it edits."""
    ctx.count("counter_obligations")
    for rb, rt in m.F.rets.items():
        for t in flow.subterms(rt, m.F.phis):
            if t.op == "agg" and "TrsIterMut" in str(t.a[0]):
                vals = agg_fields(m, t)
                for n in OTHER:
                    s = m.B.name(vals.get(n)) if n in vals else ""
                    if OTHER[n] in s:
                        viol(ctx, m, n, "hands the %s epsilon counter to the editor as the %s one" % (side(OTHER[n]), side(n)))


def agg_fields(m, t):
    a = m.B.prog.adts.get(t.a[0])
    fs = a["variants"][0]["fields"] if a else []
    return {f["name"]: x for f, x in zip(fs, t.a[3])}


def add(ctx, m):
    d, ok = m.d, m.ok()
    for n, evs in m.ev.items():
        if any(e is None or e[0] not in "+-" for b, v, e in evs):
            ctx.count("undecided")
            continue
        if d.AND(ok, cond(m, evs, "+")) != d.AND(ok, d.var("0==p3." + LABEL[n])) or d.AND(ok, cond(m, evs, "-")) != 0:
            viol(ctx, m, n, "does not count an added transition in the %s epsilon counter exactly when its %s is 0" % (side(n), LABEL[n]))


def clear(ctx, m):
    d, ok = m.d, m.ok()
    for n, evs in m.ev.items():
        if any(m.loop_of(b) is not None or e is None or e[0] not in ("set",) for b, v, e in evs):
            ctx.count("undecided")
            continue
        if any(e[1] != "0" for b, v, e in evs) or d.AND(ok, d.NOT(cond(m, evs, "set"))) != 0:
            viol(ctx, m, n, "removes all transitions of a state without resetting the %s epsilon counter to 0" % side(n))


def split(m, c, lab):
    """c as a test of one transition's label and the rest: (element, rest)."""
    d = m.d
    for a in d.support(c):
        if a.startswith("0==") and a.endswith("." + lab):
            r = d.restrict(c, a, 1)
            if d.AND(r, d.var(a)) == c:
                return a[3:-len(lab) - 1], r
    return None


def every(m, h):
    """Condition of one full iteration of the loop."""
    return m.d.OR(*[m.d.AND(m.B.rc[b], m.B.edge(b, x)) for b, x in m.B.back if x == h])


def recount(ctx, m):
    d = m.d
    for n, evs in m.ev.items():
        loops = [(b, v, e) for b, v, e in evs if e and e[0] == "+"]
        sets = [(b, v, e) for b, v, e in evs if e and e[0] == "set"]
        vals = [(b, v, e) for b, v, e in evs if e and e[0] == "value"]
        if vals and not loops and not sets:
            for b, v, e in vals:
                total(ctx, m, n, v, m.B.rc[b], m.ok())
            continue
        if not loops:
            ctx.count("undecided")
            continue
        h = m.loop_of(loops[0][0])
        if h is None or any(m.loop_of(b) != h for b, v, e in loops):
            ctx.count("undecided")
            continue
        step(ctx, m, n, h, cond(m, loops, "+"))
        # reset before, on every path that reaches the loop; a path that skips the loop had no epsilons
        if any(e[1] != "0" for b, v, e in sets) or d.AND(m.B.rc[h], d.NOT(cond(m, sets, "set"))) != 0:
            viol(ctx, m, n, "recounts the %s epsilons without starting at 0" % side(n))
        skip = d.AND(m.ok(), d.NOT(m.B.rc[h]))
        if skip != 0:
            z = [a for a in d.support(skip) if a.startswith("0==") and a.endswith(n) or a.endswith(n + "<1")]
            if not z or d.AND(skip, d.NOT(d.OR(*[d.var(a) for a in z]))) != 0:
                viol(ctx, m, n, "can skip the recount of %s epsilons although there were some" % side(n))


def step(ctx, m, n, h, c):
    d = m.d
    s = split(m, c, LABEL[n])
    ctx.count("counter_obligations")
    if s is None or s[1] != every(m, h):
        viol(ctx, m, n, "does not count every transition whose %s is 0 in the %s epsilon counter" % (LABEL[n], side(n)))
        return None
    return s[0]


def deltas(m, v, base, depth=0):
    """{change of a running total over one iteration: condition}, or None."""
    d = m.d
    if v is base:
        return {0: 1}
    e = effect(v)
    if e and e[0] in "+-":
        x = deltas(m, e[1], base, depth + 1)
        return x and {k + (1 if e[0] == "+" else -1): c for k, c in x.items()}
    if v.op == "phi" and depth < 40:
        b, key = v.a
        if b in m.B.headers or b not in m.B.rc:
            return None
        out = {}
        for p, x in m.F.phis.get(v.a, {}).items():
            if p not in m.B.rc:
                continue
            y = deltas(m, x, base, depth + 1)
            if y is None:
                return None
            for k, c in y.items():
                out[k] = d.OR(out.get(k, 0), d.AND(m.B.rc[p], m.B.edge(p, b), c))
        return out
    return None


def captured(m, local):
    """Closures that hold a reference to the local: (closure, capture index)."""
    out = []
    for b, (c, a) in m.F.calls.items():
        for t in a:
            for u in flow.subterms(t, m.F.phis):
                if u.op == "agg" and str(u.a[0]).startswith("closure:"):
                    g = m.B.prog.fns.get(u.a[0][8:])
                    for k, x in enumerate(u.a[3]):
                        if g and x.op == "ref" and x.a[0] == local and (g, k) not in out:
                            out.append((g, k))
    return out


def in_closure(ctx, m, n, g, k):
    """A closure counts for the function around it."""
    c = M(m.B.prog, g)
    d = c.d
    up, other = 0, False
    for (b, i), ws in c.F.writes.items():
        for cell, path, v in ws:
            nm = cell_name(c, cell, path)
            if nm is None or nm.lstrip("*") != "p1.%d" % k:
                continue
            e = effect(v)
            if e and e[0] == "+" and c.loop_of(b) is None:
                up = d.OR(up, c.B.rc[b])
            else:
                other = True
    if other:
        ctx.count("undecided")
        return
    if up == 0:
        return
    s = split(c, up, LABEL[n])
    ctx.count("counter_obligations")
    if s is None or s[1] != d.OR(*[c.B.rc[b] for b in c.F.rets]):
        viol(ctx, m, n, "does not count every transition whose %s is 0 in the %s epsilon counter" % (LABEL[n], side(n)))


def cell_name(c, cell, path):
    if isinstance(cell, tuple):
        return c.B.name(cell[1]) + "".join("." + str(x) for x in path if x != "deref")
    return None


def total(ctx, m, n, v, rc, ok=None):
    """A counter set to the total of a loop."""
    d = m.d
    if v.op != "phi" or v.a[0] not in m.B.headers:
        if v.op == "const" and v.a[1] != "0":
            viol(ctx, m, n, "sets the %s epsilon counter to a constant" % side(n))
            return
        ctx.count("undecided") if v.op != "const" else None
        return
    h = v.a[0]
    cap = []
    for u in flow.subterms(v, m.F.phis):
        if u.op == "phi" and len(u.a[1]) == 1:
            new = captured(m, u.a[1][0])
            cap += [x for x in new if x not in cap]
            if new and u.a[0] in m.B.headers and any(
                    x.op == "const" and x.a[1] != "0" for p, x in m.F.phis[u.a].items()):
                viol(ctx, m, n, "counts the %s epsilons of a state without starting at 0" % side(n))
        elif u.op in ("opaque", "mem", "cell") and isinstance(u.a[0], int):
            cap += [x for x in captured(m, u.a[0]) if x not in cap]
    if cap:
        for g, k in cap:
            in_closure(ctx, m, n, g, k)
        return
    if len(v.a[1]) > 1:
        ctx.count("undecided")
        return
    for p, x in m.F.phis[v.a].items():
        if (p, h) not in m.B.back:
            if x.op == "const" and x.a[1] != "0":
                viol(ctx, m, n, "recounts the %s epsilons without starting at 0" % side(n))
            continue
        ds = deltas(m, x, v)
        if ds is None:
            ctx.count("undecided")
            return
        full = d.AND(m.B.rc[p], m.B.edge(p, h))
        for k in ds:
            if k not in (0, 1) and d.AND(ds[k], full) != 0:
                viol(ctx, m, n, "counts a transition more than once in the %s epsilon counter" % side(n))
        c = d.AND(ds.get(1, 0), full)
        s = split(m, c, LABEL[n])
        ctx.count("counter_obligations")
        if s is None or s[1] != full:
            viol(ctx, m, n, "does not count every transition whose %s is 0 in the %s epsilon counter" % (LABEL[n], side(n)))


def remove(ctx, m):
    d = m.d
    for n, evs in m.ev.items():
        loops = [(b, v, e) for b, v, e in evs if e and e[0] == "-"]
        if not loops:
            if any(e and e[0] in ("value", "+") for b, v, e in evs):
                ctx.count("undecided")
                continue
            viol(ctx, m, n, "removes transitions without lowering the %s epsilon counter" % side(n))
            continue
        h = m.loop_of(loops[0][0])
        if h is None or any(m.loop_of(b) != h for b, v, e in loops) or len(evs) != len(loops):
            ctx.count("undecided")
            continue
        c = cond(m, loops, "-")
        s = split(m, c, LABEL[n])
        ctx.count("counter_obligations")
        if s is None:
            viol(ctx, m, n, "lowers the %s epsilon counter on a condition other than the removed transition's %s being 0" % (
                side(n), LABEL[n]))
            continue
        gone = removed(m, h)
        if gone is None:
            ctx.count("undecided")
            continue
        if s[1] != gone:
            viol(ctx, m, n, "does not lower the %s epsilon counter for exactly the transitions it removes" % side(n))


def removed(m, h):
    """When is the transition visited in this iteration one that goes?"""
    d = m.d
    inner = [b for b in m.loops[h] if m.loop_of(b) == h]
    push = [b for b in inner if (m.F.calls.get(b, (None,))[0] or {}).get("name") in ("push", "push_back", "insert")]
    rem = [b for b in inner if (m.F.calls.get(b, (None,))[0] or {}).get("name") in ("remove", "swap_remove")]
    if rem or push:
        return d.OR(*[m.B.rc[b] for b in rem or push])
    # compaction: the number kept, later used to truncate
    for b, (c, a) in m.F.calls.items():
        if c and c["name"] == "truncate" and len(a) == 2 and a[1].op == "phi" and a[1].a[0] == h:
            out = 0
            for p, x in m.F.phis[a[1].a].items():
                if (p, h) in m.B.back:
                    ds = deltas(m, x, a[1])
                    if ds is None:
                        return None
                    out = d.OR(out, d.AND(m.B.rc[p], m.B.edge(p, h), ds.get(0, 0)))
            # the element's counter is lowered before a step that may fail half way: judge by the branch alone
            return widen(m, h, out)
    return None


def widen(m, h, c):
    return c


# ---- totals and copies elsewhere
def others(ctx, prog):
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate != "rustfst" or f.kind == "Closure" or "epsilons" not in str(f.bbs):
            continue
        if "MutableFst<W> for" in f.path or "TrsIterMut" in f.path or f.name.endswith("epsilons"):
            continue
        if (f.impl_trait or "").startswith("core::"):
            continue
        m = M(prog, f, lambda *a: False)
        terms = set()
        for st in m.F.out.values():
            for t in st.values():
                if isinstance(t, flow.T):
                    terms.update(flow.subterms(t, m.F.phis))
        for b, (c, a) in m.F.calls.items():
            for t in a:
                terms.update(flow.subterms(t, m.F.phis))
        for t in sorted(terms, key=lambda t: t.id):
            if t.op != "agg" or not t.a[0] or not str(t.a[0]).startswith("rustfst"):
                continue
            vals = agg_fields(m, t)
            if not set(OTHER) <= set(vals):
                continue
            ctx.count("copies")
            ctx.sample("functions", f.path)
            for n in OTHER:
                v = vals[n]
                if v.op == "phi" and v.a[0] in m.B.headers:
                    total(ctx, m, n, v, 1)
                else:
                    s = sides(prog, m, v)
                    ctx.count("counter_obligations")
                    if s == {OTHER[n]}:
                        viol(ctx, m, n, "stores the number of %s epsilons as the number of %s epsilons" % (side(OTHER[n]), side(n)))


def sides(prog, m, v):
    out = set()
    for t in flow.subterms(v, m.F.phis):
        if t.op == "field" and t.a[1] in OTHER:
            out.add(t.a[1])
        if t.op == "agg" and isinstance(t.a[0], str) and t.a[0] in prog.fns:
            out |= closure_sides(prog.fns[t.a[0]])
        for x in t.a:
            if isinstance(x, str) and x in prog.fns and prog.fns[x].kind == "Closure":
                out |= closure_sides(prog.fns[x])
    return out


def closure_sides(g):
    s = str(g.bbs)
    return {n for n, l in LABEL.items() if "'%s'" % l in s}


# ---- accessors
def accessors(ctx, prog):
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate != "rustfst" or f.kind == "Closure":
            continue
        n = next((k for k, v in CALLEE.items() if f.name in (v, v + "_unchecked")), None)
        if n is None or not f.bbs:
            continue
        ctx.count("accessors")
        ctx.sample("functions", f.path)
        body = mir.inline(prog, f, lambda g, c, s: False)
        bad = good = 0
        todo = [f] + [g for g in prog.fns.values() if g.kind == "Closure" and g.path.startswith(f.path + "::")]
        for g in todo:
            s = str(g.bbs)
            bad += "'%s'" % OTHER[n] in s or CALLEE[OTHER[n]] in s
            good += "'%s'" % n in s or CALLEE[n] in s
        ctx.count("counter_obligations")
        if bad and not good:
            ctx.violation("accessor:" + f.path, "%s answers the number of %s epsilons" % (f.path, side(OTHER[n])), f.where())
