"""What each operation guarantees about the machine it yields, as a condition on what is true of its
inputs: for every property bit, the weakest condition under which the bit is certainly true of the
result. A bit may be set only where its condition holds. Written from the meaning of the
operations (the property definitions in fst_properties/properties.rs and OpenFst's documented
rules), not from the code."""
from bits import NAMES

NEG = {}
for i in range(0, 32, 2):
    NEG[NAMES[i]] = NAMES[i + 1]
    NEG[NAMES[i + 1]] = NAMES[i]


class W:
    """What is true of one machine: W('ACCEPTOR') is the condition that it is an acceptor."""

    def __init__(self, d, prefix):
        self.d, self.prefix = d, prefix
        self.assume = 1
        vs = []
        for i in range(0, 32, 2):
            a, b = d.var("%s#%s" % (prefix, NAMES[i])), d.var("%s#%s" % (prefix, NAMES[i + 1]))
            t = d.var("true:%s:%s" % (prefix, NAMES[i]))
            vs.append((i, a, b, t))
        for i, a, b, t in vs:
            self.assume = d.AND(self.assume, d.IMP(a, t), d.IMP(b, d.NOT(t)))
        s = self
        for a, b in (("TOP_SORTED", "ACYCLIC"), ("ACYCLIC", "INITIAL_ACYCLIC"), ("ACYCLIC", "UNWEIGHTED_CYCLES"),
                     ("UNWEIGHTED", "UNWEIGHTED_CYCLES"), ("NO_I_EPSILONS", "NO_EPSILONS"), ("NO_O_EPSILONS", "NO_EPSILONS"),
                     ("STRING", "TOP_SORTED")):
            self.assume = d.AND(self.assume, d.IMP(s(a), s(b)))
        for a, b in (("I_DETERMINISTIC", "O_DETERMINISTIC"), ("I_LABEL_SORTED", "O_LABEL_SORTED"), ("I_EPSILONS", "O_EPSILONS"),
                     ("EPSILONS", "I_EPSILONS")):
            self.assume = d.AND(self.assume, d.IMP(s("ACCEPTOR"), d.EQV(s(a), s(b))))

    def __call__(self, name):
        i = NAMES.index(name)
        t = self.d.var("true:%s:%s" % (self.prefix, NAMES[i - i % 2]))
        return t if i % 2 == 0 else self.d.NOT(t)


def B(s):
    return s.split()


LABELS = B("ACCEPTOR NOT_ACCEPTOR I_DETERMINISTIC NOT_I_DETERMINISTIC O_DETERMINISTIC NOT_O_DETERMINISTIC EPSILONS NO_EPSILONS "
           "I_EPSILONS NO_I_EPSILONS O_EPSILONS NO_O_EPSILONS I_LABEL_SORTED NOT_I_LABEL_SORTED O_LABEL_SORTED NOT_O_LABEL_SORTED")
WEIGHTS = B("WEIGHTED UNWEIGHTED WEIGHTED_CYCLES UNWEIGHTED_CYCLES")
SHAPE = B("CYCLIC ACYCLIC INITIAL_CYCLIC INITIAL_ACYCLIC TOP_SORTED NOT_TOP_SORTED ACCESSIBLE NOT_ACCESSIBLE COACCESSIBLE "
          "NOT_COACCESSIBLE STRING NOT_STRING")
REMOVAL = B("ACCEPTOR I_DETERMINISTIC O_DETERMINISTIC NO_EPSILONS NO_I_EPSILONS NO_O_EPSILONS I_LABEL_SORTED O_LABEL_SORTED "
            "UNWEIGHTED ACYCLIC INITIAL_ACYCLIC TOP_SORTED UNWEIGHTED_CYCLES")
NULL = B("ACCEPTOR I_DETERMINISTIC O_DETERMINISTIC NO_EPSILONS NO_I_EPSILONS NO_O_EPSILONS I_LABEL_SORTED O_LABEL_SORTED UNWEIGHTED "
         "ACYCLIC INITIAL_ACYCLIC TOP_SORTED ACCESSIBLE COACCESSIBLE STRING UNWEIGHTED_CYCLES")


def minus(xs, s):
    return [x for x in xs if x not in B(s)]


SIDE = {"I": ("I_DETERMINISTIC NOT_I_DETERMINISTIC I_EPSILONS NO_I_EPSILONS I_LABEL_SORTED NOT_I_LABEL_SORTED"),
        "O": ("O_DETERMINISTIC NOT_O_DETERMINISTIC O_EPSILONS NO_O_EPSILONS O_LABEL_SORTED NOT_O_LABEL_SORTED")}
OTHER = dict(list(zip(B(SIDE["I"]), B(SIDE["O"]))) + list(zip(B(SIDE["O"]), B(SIDE["I"]))))

# constant masks: the properties a kind of change leaves as they are
MASKS = {
    "null_properties": NULL,
    "copy_properties": NAMES,
    "set_start_properties": minus(NAMES, "INITIAL_CYCLIC INITIAL_ACYCLIC ACCESSIBLE NOT_ACCESSIBLE STRING NOT_STRING"),
    "set_final_properties": minus(NAMES, "WEIGHTED UNWEIGHTED COACCESSIBLE NOT_COACCESSIBLE STRING NOT_STRING"),
    "add_state_properties": minus(NAMES, "ACCESSIBLE COACCESSIBLE STRING"),
    "add_arc_properties": B("NOT_ACCEPTOR NOT_I_DETERMINISTIC NOT_O_DETERMINISTIC EPSILONS I_EPSILONS O_EPSILONS NOT_I_LABEL_SORTED "
                            "NOT_O_LABEL_SORTED WEIGHTED CYCLIC INITIAL_CYCLIC NOT_TOP_SORTED ACCESSIBLE COACCESSIBLE WEIGHTED_CYCLES"),
    "set_arc_properties": [],
    "delete_states_properties": REMOVAL,
    "delete_arcs_properties": REMOVAL + B("NOT_ACCESSIBLE NOT_COACCESSIBLE"),
    "statesort_properties": minus(NAMES, "TOP_SORTED NOT_TOP_SORTED STRING NOT_STRING"),
    "arcsort_properties": minus(NAMES, "I_LABEL_SORTED NOT_I_LABEL_SORTED O_LABEL_SORTED NOT_O_LABEL_SORTED"),
    "i_label_invariant_properties": minus(NAMES, "ACCEPTOR NOT_ACCEPTOR EPSILONS NO_EPSILONS " + SIDE["I"]),
    "o_label_invariant_properties": minus(NAMES, "ACCEPTOR NOT_ACCEPTOR EPSILONS NO_EPSILONS " + SIDE["O"]),
    "weight_invariant_properties": minus(NAMES, "WEIGHTED UNWEIGHTED WEIGHTED_CYCLES UNWEIGHTED_CYCLES"),
    "add_super_final_properties": minus(NAMES, "ACCEPTOR I_DETERMINISTIC O_DETERMINISTIC NO_EPSILONS NO_I_EPSILONS NO_O_EPSILONS "
                                        "I_LABEL_SORTED O_LABEL_SORTED TOP_SORTED ACCESSIBLE STRING"),
    "rm_super_final_properties": minus(NAMES, "NOT_I_DETERMINISTIC NOT_O_DETERMINISTIC EPSILONS I_EPSILONS O_EPSILONS "
                                       "NOT_I_LABEL_SORTED NOT_O_LABEL_SORTED NOT_TOP_SORTED NOT_ACCESSIBLE NOT_STRING"),
}


def table(fn, d, c):
    """Conditions per bit for operation fn; c(i) is the truth of input i, c.atom(text) a condition."""
    A, O, N, at = d.AND, d.OR, d.NOT, c.atom
    out = {}
    t = c(1)

    def keep(names, when=1, w=t):
        for n in names:
            out[n] = O(out.get(n, 0), A(w(n), when))

    def put(n, x):
        out[n] = O(out.get(n, 0), x)

    if fn == "set_start":
        keep(LABELS + WEIGHTS + B("CYCLIC ACYCLIC TOP_SORTED NOT_TOP_SORTED COACCESSIBLE NOT_COACCESSIBLE"))
        put("INITIAL_ACYCLIC", t("ACYCLIC"))
    elif fn == "set_final":
        old, new = at("old"), at("new")
        ont, nnt = A(old, N(at("old_zero")), N(at("old_one"))), A(new, N(at("new_zero")), N(at("new_one")))
        keep(LABELS + B("WEIGHTED_CYCLES UNWEIGHTED_CYCLES CYCLIC ACYCLIC INITIAL_CYCLIC INITIAL_ACYCLIC TOP_SORTED NOT_TOP_SORTED "
                        "ACCESSIBLE NOT_ACCESSIBLE"))
        put("WEIGHTED", O(nnt, A(t("WEIGHTED"), N(ont))))
        put("UNWEIGHTED", A(t("UNWEIGHTED"), N(nnt)))
        put("COACCESSIBLE", A(t("COACCESSIBLE"), new, N(at("new_zero"))))
        put("NOT_COACCESSIBLE", A(t("NOT_COACCESSIBLE"), O(N(new), at("new_zero"))))
    elif fn == "add_state":
        keep(MASKS["add_state_properties"])
    elif fn == "add_tr":
        eq, i0, o0 = at("i==o"), at("i==0"), at("o==0")
        nt = A(N(at("w_zero")), N(at("w_one")))
        up = at("up")
        keep(B("NOT_I_DETERMINISTIC NOT_O_DETERMINISTIC CYCLIC INITIAL_CYCLIC ACCESSIBLE COACCESSIBLE WEIGHTED_CYCLES"))
        put("ACCEPTOR", A(t("ACCEPTOR"), eq))
        put("NOT_ACCEPTOR", O(t("NOT_ACCEPTOR"), N(eq)))
        put("EPSILONS", O(t("EPSILONS"), A(i0, o0)))
        put("NO_EPSILONS", A(t("NO_EPSILONS"), N(A(i0, o0))))
        put("I_EPSILONS", O(t("I_EPSILONS"), i0))
        put("NO_I_EPSILONS", A(t("NO_I_EPSILONS"), N(i0)))
        put("O_EPSILONS", O(t("O_EPSILONS"), o0))
        put("NO_O_EPSILONS", A(t("NO_O_EPSILONS"), N(o0)))
        for s in "io":
            bad = A(at("prev"), at(s + "<prev"))
            put("%s_LABEL_SORTED" % s.upper(), A(t("%s_LABEL_SORTED" % s.upper()), N(bad)))
            put("NOT_%s_LABEL_SORTED" % s.upper(), O(t("NOT_%s_LABEL_SORTED" % s.upper()), bad))
        put("WEIGHTED", O(t("WEIGHTED"), nt))
        put("UNWEIGHTED", A(t("UNWEIGHTED"), N(nt)))
        put("TOP_SORTED", A(t("TOP_SORTED"), up))
        put("NOT_TOP_SORTED", O(t("NOT_TOP_SORTED"), N(up)))
        for x in B("ACYCLIC INITIAL_ACYCLIC UNWEIGHTED_CYCLES"):
            put(x, A(t("TOP_SORTED"), up))
        put("UNWEIGHTED_CYCLES", A(t("UNWEIGHTED"), N(nt)))
    elif fn == "delete_states":
        keep(REMOVAL)
    elif fn == "delete_trs":
        keep(REMOVAL + B("NOT_ACCESSIBLE NOT_COACCESSIBLE"))
    elif fn == "delete_all_states":
        for x in NULL:
            put(x, 1)
    elif fn == "labels":  # one transition's labels replaced
        keep(WEIGHTS + SHAPE)
        eq, i0, o0, oeq, oi0, oo0 = at("i==o"), at("i==0"), at("o==0"), at("old_i==o"), at("old_i==0"), at("old_o==0")
        put("ACCEPTOR", A(t("ACCEPTOR"), eq))
        put("NOT_ACCEPTOR", O(N(eq), A(t("NOT_ACCEPTOR"), oeq)))
        put("EPSILONS", O(A(i0, o0), A(t("EPSILONS"), N(A(oi0, oo0)))))
        put("NO_EPSILONS", A(t("NO_EPSILONS"), N(A(i0, o0))))
        put("I_EPSILONS", O(i0, A(t("I_EPSILONS"), N(oi0))))
        put("NO_I_EPSILONS", A(t("NO_I_EPSILONS"), N(i0)))
        put("O_EPSILONS", O(o0, A(t("O_EPSILONS"), N(oo0))))
        put("NO_O_EPSILONS", A(t("NO_O_EPSILONS"), N(o0)))
    elif fn == "weight":  # one transition's weight replaced
        keep(LABELS + SHAPE)
        ont, nnt = A(N(at("old_zero")), N(at("old_one"))), A(N(at("new_zero")), N(at("new_one")))
        put("WEIGHTED", O(nnt, A(t("WEIGHTED"), N(ont))))
        put("UNWEIGHTED", A(t("UNWEIGHTED"), N(nnt)))
    elif fn == "nextstate":
        keep(LABELS + B("WEIGHTED UNWEIGHTED"))
    elif fn == "set_tr":
        l, w, n = table("labels", d, c), table("weight", d, c), table("nextstate", d, c)
        for x in NAMES:
            put(x, A(l.get(x, 0) if x in LABELS else 1, w.get(x, 0) if x in WEIGHTS else 1, n.get(x, 0) if x in SHAPE else 1,
                     0 if x in SHAPE or x.endswith("CYCLES") else 1))
    elif fn == "closure":
        delayed = at("p2")
        keep(B("ACCEPTOR UNWEIGHTED ACCESSIBLE"))
        put("UNWEIGHTED_CYCLES", t("UNWEIGHTED"))
        keep(B("COACCESSIBLE NOT_TOP_SORTED NOT_STRING"), N(delayed))
        g = O(N(delayed), t("ACCESSIBLE"))
        keep(B("NOT_ACCEPTOR NOT_I_DETERMINISTIC NOT_O_DETERMINISTIC NOT_I_LABEL_SORTED NOT_O_LABEL_SORTED WEIGHTED WEIGHTED_CYCLES "
               "NOT_ACCESSIBLE NOT_COACCESSIBLE EPSILONS I_EPSILONS O_EPSILONS CYCLIC"), g)
        put("WEIGHTED_CYCLES", A(t("WEIGHTED"), t("ACCESSIBLE"), t("COACCESSIBLE")))
    elif fn == "compose":
        u = c(2)
        both = lambda n: A(t(n), u(n))
        put("ACCESSIBLE", 1)
        for n in B("ACCEPTOR ACYCLIC INITIAL_ACYCLIC NO_I_EPSILONS"):
            put(n, both(n))
        acc = both("ACCEPTOR")
        for n in B("NO_EPSILONS NO_O_EPSILONS"):
            put(n, A(acc, both(n)))
        put("I_DETERMINISTIC", A(both("NO_I_EPSILONS"), both("I_DETERMINISTIC")))
        put("O_DETERMINISTIC", A(acc, both("NO_I_EPSILONS"), both("O_DETERMINISTIC")))
    elif fn == "concat":
        u, delayed = c(2), at("p3")
        for n in B("ACCEPTOR UNWEIGHTED UNWEIGHTED_CYCLES ACYCLIC"):
            put(n, A(t(n), u(n)))
        for n in B("NOT_TOP_SORTED NOT_STRING"):
            put(n, A(N(delayed), O(t(n), u(n))))
        keep(B("INITIAL_ACYCLIC INITIAL_CYCLIC"), N(delayed))
        ex = B("NOT_ACCEPTOR NOT_I_DETERMINISTIC NOT_O_DETERMINISTIC EPSILONS I_EPSILONS O_EPSILONS NOT_I_LABEL_SORTED "
               "NOT_O_LABEL_SORTED WEIGHTED WEIGHTED_CYCLES CYCLIC NOT_ACCESSIBLE NOT_COACCESSIBLE")
        keep(ex, O(N(delayed), t("ACCESSIBLE")))
        trim = A(t("ACCESSIBLE"), t("COACCESSIBLE"), N(delayed))
        keep(B("ACCESSIBLE COACCESSIBLE"), trim, u)
        keep(ex, trim, u)
    elif fn == "determinize":
        has, distinct = at("p2"), at("p3")
        put("ACCESSIBLE", 1)
        put("I_DETERMINISTIC", O(t("ACCEPTOR"), A(t("NO_I_EPSILONS"), distinct), A(has, distinct)))
        keep(B("ACCEPTOR ACYCLIC INITIAL_ACYCLIC COACCESSIBLE STRING"))
        keep(B("NO_EPSILONS"), O(A(t("NO_I_EPSILONS"), distinct), t("ACCEPTOR")))
        keep(B("I_EPSILONS O_EPSILONS CYCLIC"), t("ACCESSIBLE"))
        keep(B("NO_I_EPSILONS NO_O_EPSILONS"), t("ACCEPTOR"))
        put("NO_I_EPSILONS", A(t("NO_I_EPSILONS"), has))
    elif fn == "factor_weight":
        keep(B("ACCEPTOR ACYCLIC ACCESSIBLE COACCESSIBLE"))
        keep(B("NOT_ACCEPTOR NOT_I_DETERMINISTIC NOT_O_DETERMINISTIC EPSILONS I_EPSILONS O_EPSILONS CYCLIC NOT_I_LABEL_SORTED "
               "NOT_O_LABEL_SORTED"), t("ACCESSIBLE"))
    elif fn == "invert":
        keep(B("ACCEPTOR NOT_ACCEPTOR EPSILONS NO_EPSILONS") + WEIGHTS + SHAPE)
        for a, b in OTHER.items():
            put(b, t(a))
    elif fn == "project":
        put("ACCEPTOR", 1)
        keep(WEIGHTS + SHAPE)
        inp = at("input")
        for s, g in (("I", inp), ("O", N(inp))):
            for n in B(SIDE[s]):
                put(n, A(g, t(n)))
                put(OTHER[n], A(g, t(n)))
            put("EPSILONS", A(g, t(s + "_EPSILONS")))
            put("NO_EPSILONS", A(g, t("NO_%s_EPSILONS" % s)))
    elif fn == "rand_gen":
        wt = at("p2")
        for n in B("ACYCLIC INITIAL_ACYCLIC ACCESSIBLE UNWEIGHTED_CYCLES"):
            put(n, 1)
        put("TOP_SORTED", wt)
        keep(B("NO_EPSILONS NO_I_EPSILONS NO_O_EPSILONS I_DETERMINISTIC O_DETERMINISTIC"), wt)
        keep(B("ACCEPTOR I_LABEL_SORTED O_LABEL_SORTED"))
        put("UNWEIGHTED", N(wt))
    elif fn == "relabel":
        keep(WEIGHTS + SHAPE)
    elif fn == "reverse":
        keep(B("ACCEPTOR NOT_ACCEPTOR EPSILONS I_EPSILONS O_EPSILONS UNWEIGHTED CYCLIC ACYCLIC WEIGHTED_CYCLES UNWEIGHTED_CYCLES"))
        keep(B("WEIGHTED"), at("p2"))
    elif fn == "reweight":
        keep(minus(LABELS + SHAPE, "COACCESSIBLE"))
    elif fn == "rmepsilon":
        delayed = at("p2")
        put("NO_EPSILONS", 1)
        keep(B("ACCEPTOR ACYCLIC INITIAL_ACYCLIC"))
        put("NO_I_EPSILONS", t("ACCEPTOR"))
        put("NO_O_EPSILONS", t("ACCEPTOR"))
        keep(B("TOP_SORTED"), N(delayed))
        keep(B("NOT_ACCEPTOR"), O(N(delayed), t("ACCESSIBLE")))
    elif fn == "shortest_path":
        keep(NAMES)
        for n in B("ACYCLIC INITIAL_ACYCLIC ACCESSIBLE UNWEIGHTED_CYCLES"):
            put(n, 1)
        put("COACCESSIBLE", N(at("p2")))
    elif fn == "synchronization":
        keep(B("ACCEPTOR ACYCLIC ACCESSIBLE COACCESSIBLE UNWEIGHTED UNWEIGHTED_CYCLES"))
        keep(B("CYCLIC NOT_COACCESSIBLE WEIGHTED WEIGHTED_CYCLES"), t("ACCESSIBLE"))
    elif fn == "union":
        u, delayed = c(2), at("p3")
        for n in B("ACCEPTOR UNWEIGHTED UNWEIGHTED_CYCLES ACYCLIC ACCESSIBLE"):
            put(n, A(t(n), u(n)))
        put("INITIAL_ACYCLIC", 1)
        for n in B("NOT_TOP_SORTED"):
            put(n, A(N(delayed), O(t(n), u(n))))
        for n in B("EPSILONS I_EPSILONS O_EPSILONS"):
            put(n, N(delayed))
        put("COACCESSIBLE", A(N(delayed), t("COACCESSIBLE"), u("COACCESSIBLE")))
        ex = B("NOT_ACCEPTOR NOT_I_DETERMINISTIC NOT_O_DETERMINISTIC EPSILONS I_EPSILONS O_EPSILONS NOT_I_LABEL_SORTED "
               "NOT_O_LABEL_SORTED WEIGHTED WEIGHTED_CYCLES CYCLIC NOT_ACCESSIBLE")
        keep(ex, O(N(delayed), t("ACCESSIBLE")))
        keep(ex + B("NOT_COACCESSIBLE"), O(N(delayed), u("ACCESSIBLE")), u)
    elif fn == "mapped":
        pass
    elif fn == "same":
        keep(NAMES)
    elif fn == "connect":
        put("ACCESSIBLE", 1)
        put("COACCESSIBLE", 1)
    elif fn == "top_sort":
        for n in B("ACYCLIC INITIAL_ACYCLIC TOP_SORTED"):
            put(n, at("acyclic"))
        for n in B("CYCLIC NOT_TOP_SORTED"):
            put(n, N(at("acyclic")))
    elif fn in MASKS:
        keep(MASKS[fn])
    elif fn in ("sort_i", "sort_o"):
        keep(MASKS["arcsort_properties"])
        a, b = ("I", "O") if fn == "sort_i" else ("O", "I")
        put(a + "_LABEL_SORTED", 1)
        put(b + "_LABEL_SORTED", t("ACCEPTOR"))
    elif fn in ("tr_unique", "tr_sum"):
        ok = [n for n in MASKS["arcsort_properties"] if n in MASKS["delete_arcs_properties"]]
        # only a transition that has a duplicate goes, so a property that some transition has stays
        keep(ok + B("NOT_ACCEPTOR EPSILONS I_EPSILONS O_EPSILONS CYCLIC ACYCLIC INITIAL_CYCLIC INITIAL_ACYCLIC TOP_SORTED "
                    "NOT_TOP_SORTED ACCESSIBLE NOT_ACCESSIBLE COACCESSIBLE NOT_COACCESSIBLE ACCEPTOR NO_EPSILONS"))
        if fn == "tr_unique":
            keep(B("WEIGHTED WEIGHTED_CYCLES STRING"))
        else:
            for n in B("WEIGHTED UNWEIGHTED WEIGHTED_CYCLES UNWEIGHTED_CYCLES"):
                out.pop(n, None)
        for n in NULL:
            put(n, at("empty"))
    elif fn == "weight_map":
        keep(MASKS["weight_invariant_properties"])
    elif fn == "rm_weight":
        keep(MASKS["weight_invariant_properties"])
        put("UNWEIGHTED", 1)
        put("UNWEIGHTED_CYCLES", 1)
    elif fn in ("eps_i", "eps_o"):
        a, b = ("I", "O") if fn == "eps_i" else ("O", "I")
        keep(WEIGHTS + SHAPE + [n for n in B(SIDE[b])])
        put(a + "_LABEL_SORTED", 1)
        put("NO_EPSILONS", t("NO_%s_EPSILONS" % b))
        put("EPSILONS", t("%s_EPSILONS" % b))
    elif fn == "to_gallic":
        p = project(t, A, N)
        for n in MASKS["weight_invariant_properties"]:
            put(n, p[n]) if n in p else None
    elif fn == "from_gallic":
        keep([n for n in MASKS["o_label_invariant_properties"] if n in MASKS["weight_invariant_properties"] and
              n in MASKS["add_super_final_properties"]])
    elif fn in ("encode", "decode"):
        lab, wt = at("encode_labels"), at("encode_weights")
        sf = MASKS["add_super_final_properties" if fn == "encode" else "rm_super_final_properties"]
        for n in NAMES:
            g = 1
            if n not in MASKS["i_label_invariant_properties"] or n not in MASKS["o_label_invariant_properties"]:
                g = A(g, N(lab))
            if n not in MASKS["i_label_invariant_properties"] or n not in MASKS["weight_invariant_properties"] or n not in sf:
                g = A(g, N(wt))
            keep([n], g)
    elif fn == "multi_eps":
        keep([n for n in MASKS["i_label_invariant_properties"] if n in MASKS["o_label_invariant_properties"]])
    elif fn == "push_labels":
        keep([n for n in MASKS["i_label_invariant_properties"] if n in MASKS["o_label_invariant_properties"]])
        keep(MASKS["o_label_invariant_properties"], at("lookahead_output"))
        keep(MASKS["i_label_invariant_properties"], N(at("lookahead_output")))
    else:
        raise KeyError(fn)
    return out


def project(t, A, N):
    out = {"ACCEPTOR": 1}
    for n in WEIGHTS + SHAPE:
        out[n] = t(n)
    for n in B(SIDE["I"]):
        out[n] = t(n)
        out[OTHER[n]] = t(n)
    out["EPSILONS"] = t("I_EPSILONS")
    out["NO_EPSILONS"] = t("NO_I_EPSILONS")
    return out
