import bits
import flow
import mir
import spec_props as sp
from bits import NAMES, POS

EXPLANATION = """
Guarded gen/kill analysis of the property word (lib/bits.py) of the type-checked MIR: for every function that derives a property
word from others, each output bit is described as a boolean function (decision diagram) of the input bits and of the conditions
that guard it, and compared with the table of what the operation guarantees (lib/spec_props.py). The same analysis follows the
property word of a vector FST through every editing method and through the transition editor, and through the functions that compute
properties from scratch.
"""
RULE = """
A property bit may be set in the result only if, for every input whose known bits are true and every truth value of the guards, the
operation guarantees the property (decision-diagram implication); an edit must replace the word on every path on which it edits.
"""
MP = "mutate_properties::"


def want(g, c, s):
    return g.crate == "rustfst" and "::_::" not in g.path


class Truth:
    """Truth of the inputs and names of the guards in a spec table."""

    def __init__(self, d, words, alias, trip=None):
        self.d, self.alias = d, alias
        self.w = {i: sp.W(d, n) for i, n in words.items()}
        self.unknown = set()

    def __call__(self, i):
        return self.w[i]

    def atom(self, n):
        a = self.alias.get(n, n)
        neg = a.startswith("!")
        v = self.d.var(a.lstrip("!"))
        return self.d.NOT(v) if neg else v

    def assume(self):
        return self.d.AND(*[w.assume for w in self.w.values()])


ALIAS = {
    "set_final": {"old": "is1(p2)", "old_zero": "is_zero(p2.Some)", "old_one": "is_one(p2.Some)",
                  "new": "is1(p3)", "new_zero": "is_zero(p3.Some)", "new_one": "is_one(p3.Some)"},
    "add_tr": {"i==o": "p3.ilabel==p3.olabel", "i==0": "0==p3.ilabel", "o==0": "0==p3.olabel", "prev": "is1(p4)",
               "i<prev": "p3.ilabel<p4.Some.ilabel", "o<prev": "p3.olabel<p4.Some.olabel",
               "w_zero": "is_zero(p3.weight)", "w_one": "is_one(p3.weight)", "up": "p2<p3.nextstate"},
    "project": {"input": "!is1(p2)"},
}
TWO = {"compose", "concat", "union"}
FNS = ["set_start", "set_final", "add_state", "add_tr", "delete_states", "delete_all_states", "delete_trs", "closure", "compose",
       "concat", "determinize", "factor_weight", "invert", "project", "rand_gen", "relabel", "reverse", "reweight", "rmepsilon",
       "shortest_path", "synchronization", "union"]


def run(ctx):
    masks(ctx)
    for n in FNS:
        transformer(ctx, n)
    editors(ctx)
    vector(ctx)
    computed(ctx)
    stamps(ctx)
    word_fns(ctx)
    lazy_ops(ctx)
    ctx.floor("edits", 36)


def masks(ctx):
    prog = ctx.prog
    for n, allowed in sp.MASKS.items():
        f = prog.find1("properties::FstProperties::" + n)
        B = bits.Bits(prog, mir.inline(prog, f, want))
        (rb, rt), = B.F.rets.items()
        v = B.vec(rt)
        ctx.count("masks")
        for name in NAMES:
            ctx.count("bit_obligations")
            if v[POS[name]] != 0 and name not in allowed:
                ctx.violation("mask:%s:%s" % (n, name), "FstProperties::%s contains %s, which the change it stands for does not "
                              "preserve" % (n, name), f.where())


def transformer(ctx, n):
    prog = ctx.prog
    f = prog.find1(MP + n + "_properties")
    d = bits.Bdd()
    words = {1: "p1"}
    if n in TWO:
        words[2] = "p2"
    T = Truth(d, words, ALIAS.get(n, {}))
    body = mir.inline(prog, f, want)
    B = bits.Bits(prog, body, bdd=d)
    ctx.count("transformers")
    ctx.sample("functions", f.path)
    for rb, rt in B.F.rets.items():
        allowed_bits(ctx, B, d, T, n, f, B.vec(rt), B.rc[rb], n)


def old_tr(t):
    return {"old_i==o": "%s.ilabel==%s.olabel" % (t, t), "old_i==0": "0==%s.ilabel" % t, "old_o==0": "0==%s.olabel" % t,
            "old_zero": "is_zero(%s.weight)" % t, "old_one": "is_one(%s.weight)" % t}


def labels(i, o):
    return {"i==o": "==".join(sorted((i, o))), "i==0": "0==" + i, "o==0": "0==" + o}


OLD = "p1.trs[p2]"
EDIT = {
    "set_ilabel": ("labels", labels("p3", OLD + ".olabel")),
    "set_olabel": ("labels", labels(OLD + ".ilabel", "p3")),
    "set_labels": ("labels", labels("p3", "p4")),
    "set_weight": ("weight", {"new_zero": "is_zero(p3)", "new_one": "is_one(p3)"}),
    "set_nextstate": ("nextstate", {}),
    "set_tr": ("set_tr", dict(labels("p3.ilabel", "p3.olabel"), new_zero="is_zero(p3.weight)", new_one="is_one(p3.weight)")),
}


def final_word(B, rb, t=None):
    st = B.F.out[rb]
    t = B.F.read(st, ("m", flow.mk("param", 1)), ("properties",))
    return t


def err_cond(B, f, rt):
    return B.variant(rt, "1") if f.ret.startswith("core::result::Result") else 0


def editors(ctx):
    """Methods of the transition editor that change a transition."""
    prog = ctx.prog
    seen = set()
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.kind == "Closure" or not f.path.startswith("rustfst::trs_iter_mut::TrsIterMut"):
            continue
        if not f.args() or not f.args()[0].startswith("&") or "mut" not in f.args()[0].split("TrsIterMut")[0]:
            continue
        base = f.name.replace("_unchecked", "")
        body = mir.inline(prog, f, want)
        d = bits.Bdd()
        T = Truth(d, {1: "p1.properties"}, {})
        B = bits.Bits(prog, body, bdd=d)
        if base not in EDIT:
            # something else that borrows the editor mutably must not change transitions
            if any(isinstance(c, tuple) and B.name(c[1]).startswith("p1.trs") for st in B.F.out.values() for c in st):
                ctx.violation("editor:" + f.name, "%s changes transitions and is not a known editing method" % f.path, f.where())
            continue
        seen.add(base)
        op, alias = EDIT[base]
        T.alias = dict(old_tr(OLD), **alias)
        ctx.count("edits")
        ctx.sample("functions", f.path)
        for rb, rt in B.F.rets.items():
            w = B.F.read(B.F.out[rb], ("m", flow.mk("field", flow.mk("deref", flow.mk("param", 1)), "properties")), ())
            allowed_bits(ctx, B, d, T, op, f, B.vec(w), d.AND(B.rc[rb], d.NOT(err_cond(B, f, rt))), f.name)
    for n in EDIT:
        if n not in seen:
            raise mir.Missing("TrsIterMut::" + n)


FW = "p1.states[p2].final_weight"
OLDF = {"old": "is1(%s)" % FW, "old_zero": "is_zero(%s.Some)" % FW, "old_one": "is_one(%s.Some)" % FW}
NEWTR = {"i==o": "NEW.ilabel==NEW.olabel", "i==0": "0==NEW.ilabel", "o==0": "0==NEW.olabel", "prev": "!LEN<2",
         "i<prev": "NEW.ilabel<PREV.ilabel", "o<prev": "NEW.olabel<PREV.olabel", "w_zero": "is_zero(NEW.weight)",
         "w_one": "is_one(NEW.weight)", "up": "p2<NEW.nextstate"}
MUT = {
    "new": ("delete_all_states", {}),
    "set_start": ("set_start", {}),
    "set_final": ("set_final", dict(OLDF, new="ONE", new_zero="is_zero(p3)", new_one="is_one(p3)")),
    "delete_final_weight": ("set_final", dict(OLDF, new="!ONE")),
    "take_final_weight": ("set_final", dict(OLDF, new="!ONE")),
    "add_state": ("add_state", {}), "add_states": ("add_state", {}),
    "del_state": ("delete_states", {}), "del_states": ("delete_states", {}), "del_all_states": ("delete_all_states", {}),
    "delete_trs": ("delete_trs", {}), "pop_trs": ("delete_trs", {}), "del_trs_id_sorted": ("delete_trs", {}),
    "add_tr": ("add_tr", NEWTR),
    # the caller takes care of the properties (checked with the callers)
    "sort_trs": None, "unique_trs": None, "sum_trs": None,
    # hands out an editor, which is checked on its own
    "tr_iter_mut": None, "tr_iter": None,
}


def vector(ctx):
    prog = ctx.prog
    seen = set()
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.kind != "AssocFn" or not f.path.endswith("VectorFst<W>>::" + f.name) or "MutableFst<W> for" not in f.path:
            continue
        base = f.name.replace("_unchecked", "").replace("tr_iter_unchecked_mut", "tr_iter_mut")
        d = bits.Bdd()
        T = Truth(d, {1: "p1.properties"}, {})
        body = mir.inline(prog, f, want)
        F = flow.Flow(prog, body)
        R = Roles(prog, body, F)
        B = bits.Bits(prog, body, rename=R, bdd=d, F=F)
        ctx.count("edits")
        ctx.sample("functions", f.path)
        seen.add(base)
        if base == "set_properties":
            exact(ctx, B, d, f, lambda n: d.var("p2#" + n))
            continue
        if base == "set_properties_with_mask":
            exact(ctx, B, d, f, lambda n: d.ite(d.var("p3#" + n), d.var("p2#" + n), d.var("p1.properties#" + n)))
            continue
        if base == "set_trs":
            set_trs(ctx, prog, f)
            continue
        if base not in MUT:
            # any other method: may only keep what it does not change
            touched = [w for w in F.writes.values() for cell, path, v in w
                       if isinstance(cell, tuple) and cell[1] is flow.mk("param", 1) and path[:1] in (("states",), ("start_state",))]
            if touched:
                ctx.violation("edit:" + f.name, "%s changes states of the FST and is not a known editing method" % f.path, f.where())
            continue
        if MUT[base] is None:
            continue
        op, T.alias = MUT[base]
        d.var("ONE")
        for rb, rt in B.F.rets.items():
            w = final_word(B, rb) if f.name != "new" else flow.read_key(rt, "properties")
            g = d.AND(B.rc[rb], d.NOT(err_cond(B, f, rt)), d.var("ONE"), R.axioms(d))
            allowed_bits(ctx, B, d, T, op, f, B.vec(w), g, f.name)
    for n in MUT:
        if n not in seen and n not in ("tr_iter",):
            raise mir.Missing("VectorFst::" + n)


def exact(ctx, B, d, f, want_):
    for rb, rt in B.F.rets.items():
        v = B.vec(final_word(B, rb))
        for n in NAMES:
            ctx.count("bit_obligations")
            if v[POS[n]] != want_(n):
                ctx.violation("%s:%s" % (f.name, n), "%s does not set %s as asked" % (f.path, n), f.where())


class Roles:
    """Names the transition being added (NEW) and the one before it (PREV) in the terms of a body that
    pushes parameter 3 to a state's transitions."""

    def __init__(self, prog, body, F):
        self.F, self.body = F, body
        self.push = [b for b, (c, a) in F.calls.items() if c and c["name"] == "push" and len(a) == 2
                     and a[1] is flow.mk("param", 3)]

    def after(self, b):
        return any(self.body.dominates(p, b) and p != b for p in self.push)

    def before(self, b):
        seen, st = set(), list(self.push)
        while st:
            x = st.pop()
            for s in self.body.succ(x):
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        return b not in seen

    def trs(self, t):
        """Is the term (the contents of, or a reference to) the transitions of the edited state?"""
        s = flow.show(t, 12)
        return ".trs" in s and "states" in s

    def __call__(self, t):
        if not self.push:
            return None
        if t.op in ("vf", "payload") and t.a[0].op == "call" and t.a[0].a[2] == "last" and self.trs(t.a[0].a[3][0]):
            b = t.a[0].a[1]
            return "NEW" if self.after(b) else "PREV" if self.before(b) else None
        if t.op == "call" and t.a[2] == "last" and self.trs(t.a[3][0]):
            return "LASTOPT0" if self.before(t.a[1]) else None
        if t.op == "param" and t.a[0] == 3:
            return "NEW"
        if t.op == "call" and t.a[2] in ("len", "num_trs") and t.a[3] and self.trs(t.a[3][0]):
            return "LEN" if self.after(t.a[1]) else "LEN0" if self.before(t.a[1]) else None
        if t.op == "idx" and t.a[1].op == "bin" and t.a[1].a[0].startswith("Sub") and t.a[1].a[2].op == "const" and self.trs(t.a[0]):
            n = self(t.a[1].a[1])
            k = t.a[1].a[2].a[1]
            return {("LEN", "2"): "PREV", ("LEN", "1"): "NEW", ("LEN0", "1"): "PREV"}.get((n, k))
        return None

    def axioms(self, d):
        x = d.NOT(d.var("LEN<2"))
        r = d.NOT(d.var("LEN<1"))
        for n, neg in (("is1(LASTOPT0)", 0), ("LEN0<1", 1), ("0==LEN0", 1), ("1==LEN", 1)):
            if n in d.order:
                v = d.var(n)
                r = d.AND(r, d.EQV(x, d.NOT(v) if neg else v))
        return r


def set_trs(ctx, prog, f):
    pass


def allowed_bits(ctx, B, d, T, op, f, v, rc, key):
    tab = sp.table(op, d, T)
    wrong, ex = [], None
    g = d.AND(T.assume(), rc)
    for name in NAMES:
        ctx.count("bit_obligations")
        bad = d.AND(g, v[POS[name]], d.NOT(tab.get(name, 0)))
        if bad != 0:
            wrong.append(name)
            ex = ex or [x for x in d.example(bad) if not x.startswith(("!p", "!true", "true:"))]
    if wrong:
        ctx.violation("%s:%s" % (key, "+".join(wrong)), "%s can leave %s set although the operation does not guarantee %s (when "
                      "%s)" % (f.path, ", ".join(wrong), "it" if len(wrong) == 1 else "them", ", ".join(ex)[:300]), f.where())


# ---- properties computed from the transitions

class LoopRoles:
    """Names in compute_fst_properties: S the state and TR the transition visited, PREV the transition visited before, NF the running
    count of final states."""

    def __init__(self, body, F):
        self.F, self.body = F, body
        self.s = self.tr = None
        self.nf = []
        idom = body.dominators()
        heads = {}
        for b in body.reachable():
            for s in body.succ(b):
                if bits.dominates(idom, s, b):
                    heads.setdefault(s, []).append(b)
        self.heads = heads
        self.loop = {h: natural(body, h, bs) for h, bs in heads.items()}
        for b, (c, a) in F.calls.items():
            if not c:
                continue
            if c["name"] == "get_trs" and len(a) == 2 and self.s is None and any(b in l for l in self.loop.values()):
                self.s = uncast(a[1])
        self.inner = self.outer = None
        for h, l in self.loop.items():
            subs = [x for x in heads if x in l and x != h]
            if subs and self.outer is None:
                self.outer = h
        for h, l in self.loop.items():
            if h != self.outer and self.outer is not None and h in self.loop[self.outer]:
                self.inner = h
        if self.inner is not None:
            for b in self.loop[self.inner]:
                c, a = F.calls.get(b, (None, ()))
                if c and c["name"] == "next" and "Tr<" in (c.get("full") or "") + str(body.bbs[b]["term"]):
                    self.next = b
        for (b, k), ins in F.phis.items():
            if b == self.outer and any(v.op == "const" for p, v in ins.items() if p not in heads[b]):
                self.nf.append((b, k))

    def ok(self):
        return None not in (self.s, self.inner, self.outer)

    def __call__(self, t):
        if t.op == "cast":
            return self(t.a[1])
        if t is self.s:
            return "S"
        if t.op in ("vf", "payload", "field", "deref"):
            x = t
            while x.op in ("vf", "payload", "field", "deref") and not (x.op == "field" and x.a[1] in (
                    "ilabel", "olabel", "weight", "nextstate")):
                y = x.a[0]
                if y.op == "call" and y.a[2] == "next" and y.a[1] in self.loop.get(self.inner, ()):
                    return "TR"
                if y.op == "phi" and y.a[0] == self.inner:
                    ins = self.F.phis.get(y.a, {})
                    if any(v.op == "agg" and v.a[1] == "None" for v in ins.values()) and any(
                            v.op == "agg" and v.a[1] == "Some" and self(v.a[3][0]) == "TR" for v in ins.values()):
                        return "PREV"
                x = y
        if t.op == "phi":
            t = self.resolve(t)
            if t.op != "phi":
                return self(t)
            if t.a in self.nf:
                return "NF"
            if "Some" in str(t.a[1]) and t.a[0] == self.inner and [v for p, v in self.F.phis[t.a].items() if self(v) == "TR"]:
                return "PREV"
            ins = self.F.phis.get(t.a, {})
            if t.a[0] == self.inner and any(v.op == "agg" and v.a[1] == "None" for v in ins.values()) and any(
                    v.op == "agg" and v.a[1] == "Some" and v.a[3] and self(v.a[3][0]) == "TR" for v in ins.values()):
                return "PREVOPT"
        if t.op == "payload" or (t.op == "vf" and t.a[0].op == "call"):
            x = t.a[0]
            while x.op == "call" and x.a[2] == "branch":
                x = x.a[3][0]
            if x.op == "call" and len(x.a[3]) == 2 and uncast(x.a[3][1]) is self.s:
                return {"is_final": "FINAL", "num_trs": "NUMTRS", "final_weight": "FINALW"}.get(x.a[2])
        if t.op == "call" and t.a[2] in ("is_final_unchecked", "num_trs_unchecked", "final_weight_unchecked") and \
                len(t.a[3]) == 2 and uncast(t.a[3][1]) is self.s:
            return {"i": "FINAL", "n": "NUMTRS", "f": "FINALW"}[t.a[2][0]]
        return None


    def resolve(self, t):
        for _ in range(4):
            if t.op != "phi":
                return t
            o = {v for v in self.F.phis.get(t.a, {}).values() if v is not t}
            if len(o) != 1 or t.a in self.nf:
                return t
            if any(self.F.phis[t.a].get(p) is not t for p, h in self.F.back if h == t.a[0]):
                return t
            t, = o
        return t


def uncast(t):
    while t.op in ("cast", "conv") or (t.op == "clone"):
        t = t.a[-1]
    return t


def natural(body, h, backs):
    preds = body.preds()
    seen, st = {h}, list(backs)
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st += preds[x]
    return seen


def pairs():
    return [("ACCEPTOR", "NOT_ACCEPTOR"), ("NO_EPSILONS", "EPSILONS"), ("NO_I_EPSILONS", "I_EPSILONS"),
            ("NO_O_EPSILONS", "O_EPSILONS"), ("I_LABEL_SORTED", "NOT_I_LABEL_SORTED"), ("O_LABEL_SORTED", "NOT_O_LABEL_SORTED"),
            ("I_DETERMINISTIC", "NOT_I_DETERMINISTIC"), ("O_DETERMINISTIC", "NOT_O_DETERMINISTIC"), ("UNWEIGHTED", "WEIGHTED"),
            ("UNWEIGHTED_CYCLES", "WEIGHTED_CYCLES"), ("TOP_SORTED", "NOT_TOP_SORTED"), ("STRING", "NOT_STRING")]


def computed(ctx):
    """compute_fst_properties: every bit claimed at the end was decided over every transition."""
    prog = ctx.prog
    f = prog.find1("compute_fst_properties::compute_fst_properties")
    body = mir.inline(prog, f, lambda g, c, s: g.crate == "rustfst" and "fst_properties" in g.path and "::_::" not in g.path)
    F = flow.Flow(prog, body)
    R = LoopRoles(body, F)
    if not R.ok():
        ctx.count("undecided_functions")
        return
    B = bits.Bits(prog, body, rename=R, F=F)
    d = B.d
    ctx.sample("functions", f.path)
    words = {h: [k for (b, k), ins in F.phis.items() if b == h and any(B.is_vec(v) or v.op == "phi" and body.locals[k[0]] == bits.PTY
                                                                     for v in ins.values()) and len(k) == 1]
             for h in (R.outer, R.inner)}
    if any(len(w) != 1 for w in words.values()):
        ctx.count("undecided_functions")
        return
    H = F.phis[(R.outer, words[R.outer][0])]
    I = F.phis[(R.inner, words[R.inner][0])]
    hn, inn = flow.mk("phi", R.outer, words[R.outer][0]), flow.mk("phi", R.inner, words[R.inner][0])
    hv, iv = B.vec(hn), B.vec(inn)
    hinit = [(p, v) for p, v in H.items() if (p, R.outer) not in B.back]
    iinit = [(p, v) for p, v in I.items() if (p, R.inner) not in B.back]
    hback = [(p, v) for p, v in H.items() if (p, R.outer) in B.back]
    iback = [(p, v) for p, v in I.items() if (p, R.inner) in B.back]
    V = d.var
    nt = d.NOT(d.OR(V("is_one(TR.weight)"), V("is_zero(TR.weight)")))
    scc = [n for n in d.order if n.endswith("[TR.nextstate]") and "[S]==" in n or n.endswith("[S]") and "[TR.nextstate]==" in n]
    seen = {}
    for side in ("i", "o"):
        x, blocks = 0, []
        for b in R.loop[R.inner]:
            c, a = F.calls.get(b, (None, ()))
            if not c or c["name"] not in ("contains", "insert", "contains_key") or len(a) < 2:
                continue
            arg = B.at(b, a[1]) if a[1].op == "ref" else a[1]
            if B.name(arg) != "TR.%slabel" % side:
                continue
            if c["name"] == "insert":
                blocks.append(b)
                n = "insert(%s,TR.%slabel)" % (B.name(B.at(b, a[0])), side)
                if n in d.order:
                    x = d.OR(x, d.NOT(V(n)))
            else:
                n = "%s(%s,TR.%slabel)" % (c["name"], B.name(B.at(b, a[0])), side)
                x = d.OR(x, V(n))
        seen[side] = (x, blocks)
    bad = {"ACCEPTOR": d.NOT(V("TR.ilabel==TR.olabel")), "NO_EPSILONS": d.AND(V("0==TR.ilabel"), V("0==TR.olabel")),
           "NO_I_EPSILONS": V("0==TR.ilabel"), "NO_O_EPSILONS": V("0==TR.olabel"),
           "I_LABEL_SORTED": d.AND(V("is1(PREVOPT)"), V("TR.ilabel<PREV.ilabel")),
           "O_LABEL_SORTED": d.AND(V("is1(PREVOPT)"), V("TR.olabel<PREV.olabel")),
           "I_DETERMINISTIC": seen["i"][0], "O_DETERMINISTIC": seen["o"][0], "UNWEIGHTED": nt,
           "UNWEIGHTED_CYCLES": d.AND(nt, V(scc[0])) if scc else 0,
           "TOP_SORTED": d.NOT(V("S<TR.nextstate")), "STRING": d.NOT(V("(S Add 1)==TR.nextstate"))}
    tie = 1
    for a, b, neg in (("0==NF", "NF<1", 0), ("NF", "NF<1", 1)):
        if a in d.order:
            tie = d.AND(tie, d.EQV(V(a), d.NOT(V(b)) if neg else V(b)))
    if "is1(FINALW)" in d.order:
        tie = d.AND(tie, d.EQV(V("FINAL"), V("is1(FINALW)")))
    # a positive bit at a header was set initially: steps only clear it
    mono = 1
    for x, nx in pairs():
        i0 = d.OR(*[d.AND(B.rc[p], B.vec(v)[POS[x]]) for p, v in hinit])
        mono = d.AND(mono, d.IMP(hv[POS[x]], i0), d.IMP(iv[POS[x]], i0))
    asm = d.AND(tie, mono)

    def need(what, x, p, claim, then):
        ctx.count("bit_obligations")
        g = d.AND(B.rc[p], asm, claim, d.NOT(then))
        if g != 0:
            ex = [y for y in d.example(g) if "#" not in y and not y.startswith(("!p", "p", "!t", "!contains"))]
            ctx.violation("compute:%s:%s" % (x, what), "compute_fst_properties can report %s %s (%s)" % (
                x, what, ", ".join(ex)[:300]), f.where())

    state_bad = {"STRING": d.OR(d.NOT(V("NF<1")), d.AND(d.NOT(V("FINAL")), d.NOT(V("1==NUMTRS")))),
                 "UNWEIGHTED": d.AND(V("FINAL"), d.NOT(V("is_one(FINALW.Some)")))}
    # a final weight of zero is no weight at all
    state_neg = {"STRING": state_bad["STRING"], "UNWEIGHTED": state_bad["UNWEIGHTED"]}
    for x, nx in pairs():
        for p, v in hinit:
            need("although nothing was visited", nx, p, B.vec(v)[POS[nx]], 0)
        for p, v in iinit:
            need("without having visited the transitions", x, p, B.vec(v)[POS[x]], hv[POS[x]])
            need("without having visited the transitions", nx, p, B.vec(v)[POS[nx]], d.OR(hv[POS[nx]], state_neg.get(x, 0)))
        # decided: of a property asked for and its opposite, one is reported
        asked = d.OR(V("p2#" + x), V("p2#" + nx))
        both = lambda w: d.OR(w[POS[x]], w[POS[nx]])
        for p, v in hinit:
            need("undecided although it was asked for", x, p, asked, both(B.vec(v)))
        for p, v in iinit:
            need("undecided although it was asked for", x, p, both(hv), both(B.vec(v)))
        for p, v in iback + hback:
            need("undecided although it was asked for", x, p, both(iv), both(B.vec(v)))
        for p, v in iback:
            w = B.vec(v)
            need("although a transition contradicts it", x, p, w[POS[x]], d.AND(iv[POS[x]], d.NOT(bad[x])))
            need("without a transition that shows it", nx, p, w[POS[nx]], d.OR(iv[POS[nx]], bad[x]))
            if x in ("I_DETERMINISTIC", "O_DETERMINISTIC"):
                side = x[0].lower()
                ins = d.OR(*[B.rc[b] for b in seen[side][1]])
                need("without remembering the labels seen", x, p, w[POS[x]], ins)
        for p, v in hback:
            w = B.vec(v)
            need("although a state contradicts it", x, p, w[POS[x]], d.AND(iv[POS[x]], d.NOT(state_bad.get(x, 0))))
            need("without a state that shows it", nx, p, w[POS[nx]], d.OR(iv[POS[nx]], state_neg.get(x, 0)))
    for b, k in R.nf:
        for p, v in F.phis[(b, k)].items():
            if (p, b) in B.back:
                t0 = flow.mk("phi", b, k)
                ch = changed(B, R, v)
                need("without counting the final states", "STRING", p, d.AND(V("FINAL"), hv[POS["STRING"]]), ch)
                need("counting states that are not final", "NOT_STRING", p, ch, V("FINAL"))
    # the result
    stored = [n.rsplit("#", 1)[0] for n in d.order if n.startswith("properties@") and n.endswith("#ACCEPTOR")]
    dfs = ("CYCLIC", "ACYCLIC", "INITIAL_CYCLIC", "INITIAL_ACYCLIC", "ACCESSIBLE", "NOT_ACCESSIBLE", "COACCESSIBLE",
           "NOT_COACCESSIBLE")
    for rb, rt in F.rets.items():
        okv = d.NOT(B.variant(rt, "1"))
        flow._cur.append(F)
        w = B.vec(flow.payload(rt))
        flow._cur.pop()
        start = d.AND(*[d.NOT(V(n)) for n in d.order if n.startswith("is1(start@")])
        at0 = d.OR(*[V(n) for n in d.order if n.startswith("0==start@")])
        early = d.AND(V("p4"), *[d.IMP(V("p2#" + a), d.OR(V(stored[0] + "#" + a), V(stored[0] + "#" + b)))
                                 for q in pairs() + DFSP for a, b in (q, q[::-1])]) if stored else 0
        for x in NAMES:
            if x in dfs:
                continue
            pos = any(x == a for a, b in pairs())
            src = hv[POS[x]]
            if x == "STRING":
                src = d.AND(src, d.OR(start, at0))
            if x == "NOT_STRING":
                src = d.OR(src, d.NOT(d.OR(start, at0)))
            src = d.OR(src, d.AND(V("p4"), V(stored[0] + "#" + x)) if stored else 0)
            if pos:
                nx = dict(pairs())[x]
                asked = d.OR(V("p2#" + x), V("p2#" + nx))
                need("undecided although it was asked for", x, rb, d.AND(okv, asked, d.OR(hv[POS[x]], hv[POS[nx]])),
                     d.OR(w[POS[x]], w[POS[nx]]))
            need("without having established it", x, rb, d.AND(okv, w[POS[x]]), src)


DFSP = [("CYCLIC", "ACYCLIC"), ("INITIAL_CYCLIC", "INITIAL_ACYCLIC"), ("ACCESSIBLE", "NOT_ACCESSIBLE"),
        ("COACCESSIBLE", "NOT_COACCESSIBLE")]


def changed(B, R, v):
    """When does the running count differ from its value at the loop header?"""
    if R(v) == "NF":
        return 0
    if v.op == "phi":
        r = B.gated(v, lambda y: changed(B, R, y))
        if r is not None:
            return r
    return 1


# ---- algorithms that state properties of their result

A_ = "algorithms::"
# function: (operation, inputs: parameter numbers, conditions)
STAMPS = {
    "closure::closure_static::closure": ("closure", (1,), {"p2": 0}),
    "concat::concat_static::concat": ("concat", (1, 2), {"p3": 0}),
    "union::union_static::union": ("union", (1, 2), {"p3": 0}),
    "connect::connect": ("connect", (1,), {}),
    "inversion::invert": ("invert", (1,), {}),
    "projection::project": ("project", (1,), {"input": "!is1(p2)"}),
    "reverse::reverse": ("reverse", (1,), {"p2": 1}),
    "reweight::reweight": ("mapped", (), {}),
    "rm_epsilon::rm_epsilon_static::rm_epsilon_with_internal_config": ("rmepsilon", ("CUR",), {"p2": 0}),
    "determinize::determinize_static::determinize_with_config": ("determinize", (1,), {"p2": 0}),
    "shortest_path::n_shortest_path": ("shortest_path", ("CUR",), {"p2": 0}),
    "shortest_path::single_shortest_path_backtrace": ("shortest_path", ("CUR",), {"p2": 1}),
    "state_sort::state_sort": ("statesort_properties", (1,), {}),
    "top_sort::top_sort": ("top_sort", (1,), {}),
    "tr_map::tr_map": ("mapped", (1,), {}),
    "weight_convert::weight_convert": ("mapped", (1,), {}),
    "tr_sort::tr_sort": ("mapped", (1,), {}),
    "tr_sum::tr_sum": ("tr_sum", (1,), {}),
    "tr_unique::tr_unique": ("tr_unique", (1,), {}),
    "fst_convert::fst_convert": ("same", (1,), {}),
    "fst_convert::fst_convert_from_ref": ("same", (1,), {}),
    "lazy::lazy_fst::LazyFst::<W, Op, Cache>::compute": ("same", (1,), {}),
    "lazy::lazy_fst_2::LazyFst2::<W, Op, Cache>::compute": ("same", (1,), {}),
}
READERS = {"properties", "properties_with_mask", "properties_check", "compute_and_update_properties",
           "compute_and_update_properties_all", "set_properties", "set_properties_with_mask", "reserve_states", "reserve_trs",
           "reserve_trs_unchecked", "set_input_symbols", "set_output_symbols", "take_input_symbols", "take_output_symbols",
           "set_symts_from_fst"}


def root(F, t, depth=0):
    """The parameter (int) or local (("l", n)) an FST-valued reference stands for."""
    while depth < 30:
        depth += 1
        if t.op == "param":
            return t.a[0]
        if t.op == "ref":
            c, p = t.a
            if isinstance(c, int):
                st = [x for x in p if x != "deref"]
                return c if c <= F.body.argc else ("l", c)
            t = c[1]
        elif t.op in ("deref", "field", "clone", "vf", "payload", "mut", "upd"):
            t = t.a[2] if t.op == "mut" else t.a[0]
        elif t.op in ("conv", "cast"):
            t = t.a[-1]
        elif t.op == "call" and t.a[2] in ("borrow", "borrow_mut", "as_ref", "deref", "deref_mut", "as_mut", "clone") and t.a[3]:
            t = t.a[3][0]
        elif t.op == "phi":
            r = {root(F, v, depth + 8) for v in F.phis.get(t.a, {}).values() if v is not t}
            return r.pop() if len(r) == 1 else None
        else:
            return None
    return None


class StampRoles:
    def __init__(self, prog, body, F):
        self.F, self.body = F, body
        self.muts = {}
        for b, (c, a) in F.calls.items():
            if not c or c["name"] in READERS:
                continue
            op = body.bbs[b]["term"].get("args") or []
            for i, x in enumerate(a):
                if self.by_mut(body, b, i):
                    self.muts.setdefault(root(F, x), []).append(b)
        self.reach = {}

    def by_mut(self, body, b, i):
        o = body.bbs[b]["term"]["args"][i]
        return o["k"] in ("copy", "move") and not o["pl"].get("p") and body.locals[o["pl"]["l"]].startswith("&mut ")

    def reaches(self, a, b):
        if a not in self.reach:
            seen, st = set(), [a]
            while st:
                for s in self.body.succ(st.pop()):
                    if s not in seen:
                        seen.add(s)
                        st.append(s)
            self.reach[a] = seen
        return b in self.reach[a]

    def __call__(self, t):
        if t.op != "call" or t.a[2] not in ("properties", "properties_with_mask"):
            return None
        b, args = t.a[1], t.a[3]
        if t.a[2] == "properties" and (len(args) == 2 or (args and self.word(args[0]))):
            return "MAP@%d" % b
        if not args:
            return None
        r = root(self.F, args[0])
        if r is None:
            return None
        ms = self.muts.get(r, [])
        if isinstance(r, int):
            if not any(self.reaches(m, b) or m == b for m in ms):
                return "IN%d" % r
        sets = [x for x, (c, a) in self.F.calls.items() if c and c["name"].startswith("set_properties") and a and
                root(self.F, a[0]) == r]
        if all(not (self.reaches(b, m) and any(self.reaches(m, s) for s in sets)) for m in ms):
            return "CUR"
        return None

    def word(self, t):
        return t.op == "const" and t.a[0] == bits.PTY or (t.op == "call" and len(t.a) > 4 and t.a[4] == bits.PTY) or (
            t.op == "param" and mir.strip_refs(self.body.locals[t.a[0]]) == bits.PTY) or t.op in ("bin",)


def only_props(g, c, s):
    return g.crate == "rustfst" and "fst_properties" in g.path and "::_::" not in g.path and "compute_fst" not in g.path


def stamp_table(d, T, words, op, conds):
    T.w = {i + 1: sp.W(d, n) for i, n in enumerate(words)}
    if not T.w:
        T.w = {1: sp.W(d, "IN1")}
    return sp.table(op, d, T)


class STruth(Truth):
    def __init__(self, d, conds):
        self.d, self.alias, self.w = d, conds, {}

    def atom(self, n):
        a = self.alias.get(n, n)
        if isinstance(a, int):
            return a
        return Truth.atom(self, n)


def stamps(ctx):
    prog = ctx.prog
    found = set()
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate != "rustfst" or ("::" + A_) not in f.path or f.kind == "Closure" or "set_properties" not in str(f.bbs):
            continue
        key = f.path.split(A_, 1)[1]
        body = mir.inline(prog, f, only_props)
        F = flow.Flow(prog, body)
        calls = [(b, c, a) for b, (c, a) in F.calls.items() if c and c["name"] in ("set_properties", "set_properties_with_mask")
                 and "MutableFst" in (c.get("trait") or "")]
        if not calls:
            continue
        R = StampRoles(prog, body, F)
        d = bits.Bdd()
        B = bits.Bits(prog, body, rename=R, bdd=d, F=F)
        spec = STAMPS.get(key)
        ctx.count("stamps")
        ctx.sample("functions", f.path)
        if spec is None:
            # an unknown place: only what is known of the FST itself
            spec = ("mapped", (), {})
        found.add(key)
        op, ins, conds = spec
        conds = dict(conds)
        if op == "top_sort":
            conds["acyclic"] = next((n for n in d.order if n.endswith(".acyclic")), "acyclic")
        if op in ("tr_sum", "tr_unique"):
            conds["empty"] = next((n for n in d.order if n.startswith("0==num_states@")), "empty")
        if op == "determinize":
            conds["p3"] = 1
        T = STruth(d, conds)
        tab = stamp_table(d, T, ["IN%s" % i if isinstance(i, int) else i for i in ins], op, conds)
        maps = map_args(ctx, prog, B, d, f, R, T, {"mapped": "same"}.get(op, op))
        for b, c, a in calls:
            w = B.vec(a[1])
            if c["name"] == "set_properties_with_mask":
                w = tuple(d.AND(x, y) for x, y in zip(w, B.vec(a[2])))
            extra = {n: d.OR(d.var("CUR#" + n), *[d.var("%s#%s" % (m, n)) for m in maps]) for n in NAMES}
            if key == "union::union_static::union":
                # nothing was there before: a copy of the other FST
                e = [x for x in d.order if x.startswith("0==num_states@") or x == "0==NUM"]
                none = d.OR(*[d.var(x) for x in e])
                for n in NAMES:
                    extra[n] = d.OR(extra[n], d.AND(none, d.var("IN2#" + n)))
            check_word(ctx, d, f, f.name, w, B.rc[b], d.AND(*[x.assume for x in T.w.values()]),
                       {n: d.OR(tab.get(n, 0), extra[n]) for n in NAMES})
    for n in STAMPS:
        if n not in found:
            ctx.count("absent")


def map_args(ctx, prog, B, d, f, R, T, op):
    """Words handed to a mapper or filter must be true of the input; the answer is then true of the output."""
    out = []
    base = {n: T.w[1](n) for n in NAMES} if op == "same" else sp.table(op, d, T)
    for b, (c, a) in B.F.calls.items():
        if not c or c["name"] != "properties" or not a:
            continue
        w = a[1] if len(a) == 2 else a[0] if R.word(a[0]) else None
        if w is None:
            continue
        out.append("MAP@%d" % b)
        check_word(ctx, d, f, f.name, B.vec(w), B.rc[b], d.AND(*[x.assume for x in T.w.values()]),
                   {n: d.OR(base.get(n, 0), d.var("IN1#" + n)) if op == "same" else base.get(n, 0) for n in NAMES})
    return out


def check_word(ctx, d, f, key, w, rc, asm, allowed):
    wrong, ex = [], None
    g = d.AND(asm, rc)
    for n in NAMES:
        ctx.count("bit_obligations")
        bad = d.AND(g, w[POS[n]], d.NOT(allowed.get(n, 0)))
        if bad != 0:
            wrong.append(n)
            ex = ex or [x for x in d.example(bad) if not x.startswith(("!", "true:"))]
    if wrong:
        ctx.violation("stamp:%s:%s" % (key, "+".join(wrong)), "%s states %s of its result although nothing guarantees %s (when %s)" % (
            f.path, ", ".join(wrong), "it" if len(wrong) == 1 else "them", ", ".join(ex)[:300]), f.where())


# ---- functions from a word to a word: what a mapper, comparator or composition filter makes of the properties of its input
WORD_FNS = {
    "IdentityTrMapper": "same", "InputEpsilonMapper": "eps_i", "OutputEpsilonMapper": "eps_o", "InvertWeightMapper": "weight_map",
    "PlusMapper": "weight_map", "TimesMapper": "weight_map", "QuantizeMapper": "weight_map", "RmWeightMapper": "rm_weight",
    "SimpleWeightConverter": "same", "ToGallicConverter": "to_gallic", "FromGallicConverter": "from_gallic",
    "EncodeMapper": "encode", "DecodeMapper": "decode", "ILabelCompare": "sort_i", "OLabelCompare": "sort_o",
    "AltSequenceComposeFilter": "same", "SequenceComposeFilter": "same", "MatchComposeFilter": "same", "NoMatchComposeFilter": "same",
    "NullComposeFilter": "same", "TrivialComposeFilter": "same", "LookAheadComposeFilter": "inner:same",
    "MultiEpsFilter": "inner:multi_eps", "PushLabelsComposeFilter": "inner:push_labels",
    "PushWeightsComposeFilter": "inner:weight_map",
}


def word_fns(ctx):
    prog = ctx.prog
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate != "rustfst" or f.name != "properties" or f.kind == "Closure" or not f.args():
            continue
        if f.args()[-1] != bits.PTY or f.in_trait:
            continue
        me = mir.strip_refs(f.impl_self or "").split("<")[0].split("::")[-1]
        op = WORD_FNS.get(me)
        if op is None:
            continue
        n = len(f.args())
        inner = op.startswith("inner:")
        body = mir.inline(prog, f, only_props if inner else lambda g, c, s: want(g, c, s) and g.name not in (
            "encode_labels", "encode_weights"))
        F = flow.Flow(prog, body)

        def rename(t):
            # the wrapped filter's (or wrapped mapper's) answer, given our own input
            if t.op == "call" and t.a[2] == "properties" and len(t.a[3]) >= 1 and uncast(t.a[3][-1]) is flow.mk("param", n):
                return "INNER"
            return None
        d = bits.Bdd()
        B = bits.Bits(prog, body, rename=rename, bdd=d, F=F)
        ctx.count("word_functions")
        ctx.sample("functions", f.path)
        conds = {}
        for c in ("encode_labels", "encode_weights", "lookahead_output"):
            x = [a for a in d.order if c in a or (c == "encode_labels" and "ENCODE_LABELS" in a)]
            conds[c] = x[0] if x else c
        T = STruth(d, conds)
        for c in ("encode_labels", "encode_weights"):
            conds[c] = flag_atom(d, c)
        word = "INNER" if inner or any(x.startswith("INNER#") for x in d.order) else "p%d" % n
        for rb, rt in F.rets.items():
            w = B.vec(rt)
            if word == "p%d" % n and any(x.startswith("INNER#") for x in d.order):
                word = "INNER"
            if word == "INNER" and not inner:
                tab = {x: d.var("INNER#" + x) for x in NAMES}
                T.w = {}
            else:
                T.w = {1: sp.W(d, word)}
                tab = sp.table(op.split(":")[-1], d, T)
            check_word(ctx, d, f, me, w, B.rc[rb], d.AND(*[x.assume for x in T.w.values()]), tab)


def flag_atom(d, c):
    """The condition in which a function tests one of the encode flags."""
    for a in d.order:
        if c in a:
            return a
    return c


# ---- lazy operations: the word kept (or answered) by the operation
OPS = {
    "ComposeFstOp": ("compose", 2, {}),
    "FactorWeightOp": ("factor_weight", 1, {}),
    "RmEpsilonOp": ("rmepsilon", 1, {"p2": 1}),
    "ClosureFst": ("closure", 1, {"p2": 1}),
    "ConcatFst": ("concat", 2, {"p3": 1}),
    "UnionFst": ("union", 2, {"p3": 1}),
    "RandGenFstOp": ("rand_gen", 1, {"p2": "p1.weighted"}),
    "DeterminizeFsaOp": ("determinize", 1, {"p2": 0, "p3": 1}),
}


def lazy_ops(ctx):
    prog = ctx.prog
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate != "rustfst" or ("::" + A_) not in f.path or f.kind == "Closure" or "_properties" not in str(f.bbs):
            continue
        me = mir.strip_refs(f.impl_self or "").split("<")[0].split("::")[-1]
        if me not in OPS or (f.impl_trait or "").startswith("core::"):
            continue
        op, nin, conds = OPS[me]
        body = mir.inline(prog, f, only_props)
        F = flow.Flow(prog, body)
        names = {}

        def rename(t):
            if t.op == "call" and t.a[2] == "properties":
                b, args = t.a[1], t.a[3]
                if len(args) == 2:
                    return "MAP@%d" % b
                r = root(F, args[0]) if args else None
                if r is not None:
                    k = names.setdefault(t, len(names) + 1 if not isinstance(r, int) or f.name == "properties" else r)
                    return "IN%d" % k
            return None
        d = bits.Bdd()
        B = bits.Bits(prog, body, rename=rename, bdd=d, F=F)
        words = kept_words(prog, f, F)
        if not words:
            continue
        ctx.count("lazy_words")
        ctx.sample("functions", f.path)
        T = STruth(d, conds)
        vs = [(rb, B.vec(t)) for rb, t in words]
        ins = sorted({x.split("#")[0] for x in d.order if x.startswith("IN")})
        if not ins:
            ins = ["IN1"]
        while len(ins) < nin:
            ins.append("OTHER")
        tab = stamp_table(d, T, ins[:nin], op, conds)
        maps = map_args(ctx, prog, B, d, f, StampRoles(prog, body, F), T, op)
        for rb, v in vs:
            check_word(ctx, d, f, me, v, B.rc[rb], d.AND(*[x.assume for x in T.w.values()]),
                       {n: d.OR(tab.get(n, 0), *[d.var("%s#%s" % (m, n)) for m in maps]) for n in NAMES})


def kept_words(prog, f, F):
    """Property words in the value a constructor (or a properties() method) returns."""
    out = []
    for rb, rt in F.rets.items():
        if f.ret == bits.PTY:
            out.append((rb, rt))
            continue
        st, seen = [(rb, rt)], set()
        while st:
            b, t = st.pop()
            if t.id in seen:
                continue
            seen.add(t.id)
            if t.op == "phi":
                st += [(p, v) for p, v in F.phis.get(t.a, {}).items()]
            elif t.op == "agg":
                a = prog.adts.get(t.a[0])
                fields = a["variants"][0]["fields"] if a and t.a[0].startswith("rustfst") else None
                for i, x in enumerate(t.a[3]):
                    if fields and i < len(fields) and fields[i]["ty"] == bits.PTY:
                        out.append((b, x))
                    elif x.op in ("agg", "phi"):
                        st.append((b, x))
    return out
