import bits
import flow
import mir
import wire

EXPLANATION = """
The inlined MIR of every binary writer and of its reader is turned into an automaton over wire fields (width and byte order, the constant
or named component written, the component the parsed value goes to, its role as item count, sentinel values). Parser combinators
(count, verify, map_res, fold_many_m_n, take) are interpreted; error exits are left out. The two automata are compared in both
directions; FST and symbol table files are also compared with OpenFst's layout. Presence flags are decided as decision diagrams.
"""
RULE = """
For every writer and its reader: the same sequences of fields; each field goes back to the component it was taken from, unchanged; a counted
sequence writes one item per count; each parser starts where the previous one ended; every component of the result is restored; the symbol
table flags are set exactly when the table is written and tested for the table they announce.
"""
S = ["4", "B"]
SYMT = ["4", S, "8", "8", ["*", S, "8"]]
HDR = ["4", S, S, "4", "4", "8", "8", "8", "8", ["?", SYMT], ["?", SYMT]]
TR = ["4", "4", ("W",), "4"]
FORMATS = {"VectorFst": [HDR, ["*", ("W",), "8", ["*", TR]]],
           "ConstFst": [HDR, ["*", ("W",), "4", "4", "4", "4"], ["*", TR]], "SymbolTable": SYMT}
PAIRS = {"write_binary": "parse_binary", "store": "load", "write": "read"}


def run(ctx):
    prog = ctx.prog
    jobs = []
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate != "rustfst" or f.kind == "Closure" or f.name not in PAIRS or not f.bbs or f.in_trait:
            continue
        tr = (f.impl_trait or "").split("<")[0].split("::")[-1]
        if tr not in ("SerializeBinary", "SerializableSemiring", "SerializableFst", "SerializableCache", "SerializableOpState") and not (
                tr == "" and "SymbolTable" in f.path):
            continue
        if "::Arc<" in (f.impl_self or "").split(" ")[0][:40] or f.path.startswith("<alloc::"):   # forwards
            continue
        r = prog.fns.get(f.path[:-len(f.name)] + PAIRS[f.name])
        if r is None:
            r = symt_reader(prog, f)
        if r is None:
            raise mir.Missing("the reader of %s" % f.path)
        jobs.append((f, r))
    const = next((f for f, r in jobs if f.name == "store" and "ConstFst" in f.path), None)
    rc = next((f for f in prog.fns.values() if f.name == "read_from_const"), None)
    if const and rc:
        jobs.append((const, rc))
    for w, r in jobs:
        ctx.count("writer_reader_pairs")
        ctx.sample("functions", w.path)
        ctx.sample("functions", r.path)
        try:
            pair(ctx, prog, w, r)
        except wire.Unknown as e:
            ctx.count("undecided")
            ctx.sample("undecided_shapes", "%s: %s" % (w.path, e))
    ctx.floor("writer_reader_pairs", 20)


def symt_reader(prog, f):
    for g in prog.fns.values():
        if g.crate == "rustfst" and g.name == "read" and g.kind == "AssocFn" and not g.impl_trait and "symbol_table::SymbolTable" in g.path:
            return g
    return None


def head(f):
    s = f.impl_self or f.path
    for k in FORMATS:
        if k in s.split("<")[0]:
            return k
    return None


def pair(ctx, prog, w, r):
    m = wire.Machine(prog)
    a = m.writer(w)
    b = m.reader(r)
    for where, msg in m.notes:
        key = "%s:%s:%s" % (short(w), short(r), msg)
        ctx.violation(key, "%s %s (storing with %s, loading with %s)" % (where, msg, w.path, r.path), w.where())
    ctx.count("wire_fields", sum(len(x) for x in m.N.tok.values()))
    for x, y, flip in ((a, b, False), (b, a, True)):
        ctx.count("inclusions")
        res = wire.included(m.N, x, y, flip=flip)
        if res is not None:
            path, l = res
            last = l or (path[-1] if path else None)
            ctx.violation("%s:%s" % (short(w), short(r)),
                          "%s and %s disagree on the format after [%s]: %s %s" % (
                              w.path, r.path, " ".join(str(z) for z in path[-8:]),
                              "the reader expects" if flip else "the writer puts",
                              "%s (%s)" % (l, l.where) if l is not None else "the end"), (r if flip else w).where())
            return
    h = head(w)
    if h and w.name in ("store", "write") and r.name != "read_from_const":
        s = wire.spec(m.N, FORMATS[h])
        for x, y in ((a, s), (s, a)):
            ctx.count("inclusions")
            if wire.included(m.N, x, y, tags=False) is not None:
                ctx.violation("layout:" + short(w), "%s does not write OpenFst's layout" % w.path, w.where())
                break
    restored(ctx, m, w, r)
    if h in ("VectorFst", "ConstFst"):
        flags(ctx, m, w, r)
        order(ctx, m, a, w)
    boolean(ctx, m, w, r)
    for b, l in m.altered:
        ctx.violation("%s:%s:altered" % (short(w), short(r)), "%s %s (storing with %s, loading with %s)" % (b, l, w.path, r.path), w.where())


def short(f):
    return "%s.%s" % ((f.impl_self or f.path).split("<")[0].split("::")[-1] or f.path.split("::")[-2], f.name)


def results(F):
    """Result components: [(block, value term)]."""
    out = []
    for rb, rt in F.rets.items():
        for x in wire.leaves(F, rt):
            if x.op == "agg" and x.a[1] == "Ok":
                y = x.a[3][0]
                if y.op == "agg" and y.a[0] == "tuple" and len(y.a[3]) == 2:
                    y = y.a[3][1]
                out.append((rb, y))
    return out


def restored(ctx, m, w, r):
    """Every component of what is loaded comes from the data."""
    body, F = m.body(r, None, True)
    toks = {b for b in F.calls if m.rkind(F, b)}
    for rb, y in results(F):
        for z in wire.leaves(F, y):
            if z.op != "agg" or z.a[0] in ("tuple", "array") or str(z.a[0]).startswith("closure") or not z.a[3]:
                continue
            if z.a[1]:   # a variant chosen by the data
                continue
            consts = 0
            for fn, v in zip(z.a[2], z.a[3]):
                ctx.count("restored_components")
                if any(wire.value_of(t) in toks or (t.op == "call" and t.a[1] in toks) for t in flow.reach_terms(F, rb, v)):
                    continue
                if all(x.op == "const" and boolean_ty(x) for x in wire.leaves(F, v)):   # see boolean()
                    continue
                if v.op in ("mut", "upd"):
                    continue
                if "PhantomData" in flow.show(v):
                    continue
                if v.op == "const" or (v.op == "agg" and not v.a[3]):
                    ctx.violation("%s:%s" % (short(r), fn), "%s does not restore %s from the data it reads" % (r.path, fn), r.where())
                else:
                    ctx.count("undecided"); ctx.sample("undecided_shapes", "%s #1" % r.path)


def boolean_ty(v):
    return v.a[0] == "bool"


def order(ctx, m, a, w):
    """Input symbols come before output symbols, and are the input symbols."""
    N = m.N
    ctx.count("symbol_table_obligations")
    for x, ts in N.tok.items():
        for l, y in ts:
            for t in l.tags:
                if "isymt" in t and "osymt" in t:
                    ctx.violation(short(w) + ":symt", "%s mixes the input and output symbol tables" % w.path, w.where())
                    return
    start = {y for x, ts in N.tok.items() for l, y in ts if any("osymt" in t for t in l.tags)}
    seen, st = set(start), list(start)
    while st:
        x = st.pop()
        for l, y in N.tok.get(x, []):
            if any("isymt" in t for t in l.tags):
                ctx.violation(short(w) + ":symt", "%s writes the output symbol table before the input one" % w.path, w.where())
                return
            if y not in seen:
                seen.add(y)
                st.append(y)
        for y in N.eps.get(x, []):
            if y not in seen:
                seen.add(y)
                st.append(y)


def flags(ctx, m, w, r):
    body, F = m.body(w, None, False)
    B = bits.Bits(m.prog, body, F=F, span=(0, 32))
    d = B.d
    done = False
    for b, (c, a) in F.calls.items():
        if not c or c["name"] not in ("to_le_bytes",) or len(a) != 1:
            continue
        try:
            v = B.vec(a[0])
        except Exception:
            continue
        s = set()
        for x in v:
            s |= d.support(x)
        if not any("symt" in x for x in s) or any(not x.startswith("is1(") for x in s):
            continue
        done = True
        for i, n in ((0, "isymt"), (1, "osymt")):
            ctx.count("symbol_table_obligations")
            sup = d.support(v[i])
            if len(sup) != 1 or not next(iter(sup)).endswith(".%s)" % n) or d.restrict(v[i], next(iter(sup)), 1) != 1:
                ctx.violation("%s:flag:%s" % (short(w), n), "%s does not set the flag for %s exactly when there is such a table" % (
                    w.path, n), w.where())
        if any(x != 0 for x in v[2:]):
            ctx.violation("%s:flag:other" % short(w), "%s sets a flag besides those of the symbol tables" % w.path, w.where())
    if not done:
        ctx.count("undecided"); ctx.sample("undecided_shapes", "%s #2" % r.path)
    # the reader
    body, F = m.body(r, None, True)
    B = bits.Bits(m.prog, body, F=F)
    d = B.d
    atoms = {}
    for b in F.calls:
        if b in B.rc:
            for x in d.support(B.rc[b]):
                for k in ("1", "2"):
                    if x.endswith(" BitAnd %s.0.0)==%s.0.0" % (k, k)):
                        atoms[k] = x
    if len(atoms) == 1:
        n = "osymt" if "1" in atoms else "isymt"
        ctx.violation("%s:flag:%s" % (short(r), n), "%s does not consult the flag of %s" % (r.path, n), r.where())
        return
    if set(atoms) != {"1", "2"}:
        ctx.count("undecided"); ctx.sample("undecided_shapes", "%s #3" % r.path)
        return
    grp = {"1": set(), "2": set()}
    for b in F.calls:
        rc = B.rc.get(b, 0)
        if rc == 0:
            continue
        for k in grp:
            if d.AND(rc, d.NOT(d.var(atoms[k]))) == 0:
                grp[k].add(b)
    only = {"isymt": grp["1"] - grp["2"], "osymt": grp["2"] - grp["1"]}
    if not only["isymt"] or not only["osymt"]:
        ctx.count("undecided"); ctx.sample("undecided_shapes", "%s #4" % r.path)
        return
    for rb, y in results(F):
        for z in wire.leaves(F, y):
            if z.op != "agg" or "isymt" not in z.a[2]:
                continue
            vals = dict(zip(z.a[2], z.a[3]))
            for n, o in (("isymt", "osymt"), ("osymt", "isymt")):
                ctx.count("symbol_table_obligations")
                bl = {t.a[1] for v in parts(F, vals[n]) for t in flow.subterms(v) if t.op == "call" and t.a[2] in ("new", "map", "default")}
                if bl & only[o] and not bl & only[n]:
                    ctx.violation("%s:%s" % (short(r), n), "%s takes %s from the table announced by the other flag" % (r.path, n), r.where())
    # the first table on the wire is the input one
    succ = {}
    st, seen = list(only["osymt"]), set(only["osymt"])
    while st:
        x = st.pop()
        for y, g in m.succ(body, F, x):
            if y in only["isymt"] and y in F.calls and m.rkind(F, y):
                ctx.violation("%s:order" % short(r), "%s reads the output symbol table before the input one" % r.path, r.where())
                return
            if y not in seen:
                seen.add(y)
                st.append(y)


def parts(F, v, seen=None):
    out, st, seen = [], [v], set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        ys = wire.project(F, x) if x.op in ("phi", "field", "vf") else None
        if ys:
            st += ys
        else:
            out.append(x)
            if x.op == "agg":
                st += list(x.a[3])
    return out


def boolean(ctx, m, w, r):
    """A truth value written as one of two constants comes back as that truth value."""
    body, F = m.body(r, None, True)
    B = bits.Bits(m.prog, body, F=F)
    d = B.d
    for rb, y in results(F):
        for z in wire.leaves(F, y):
            if z.op != "agg" or z.a[1]:
                continue
            for fld, t in zip(z.a[2], z.a[3]):
                ls = wire.leaves(F, t)
                if all(x.op == "const" and x.a[0] == "bool" for x in ls) or (t.op == "bin" and t.a[0] in ("Eq", "Ne")):
                    one_boolean(ctx, m, w, r, fld, B.boolean(t), d)


def one_boolean(ctx, m, w, r, fld, val, d):
    ats = [x for x in d.support(val) if "==" in x]
    if len(ats) != 1:
        if val in (0, 1):
            ctx.violation("%s:%s" % (short(r), fld), "%s always loads %s as %s" % (r.path, fld, bool(val)), r.where())
        else:
            ctx.count("undecided")
        return
    at = ats[0]
    c0 = at.split("==")[0] if at.split("==")[0].isdigit() else at.split("==")[1]
    wb, WF = m.body(w, None, False)
    WB = bits.Bits(m.prog, wb, F=WF)
    for b, (c, a) in WF.calls.items():
        if c and c["name"] == "to_le_bytes" and a and a[0].op == "const":
            v = a[0].a[1]
            rc = WB.rc[b]
            sup = [x for x in WB.d.support(rc) if x.endswith("." + fld)]
            if len(sup) != 1:
                continue
            pol = "1" if WB.d.AND(rc, WB.d.NOT(WB.d.var(sup[0]))) == 0 else "0"
            ctx.count("truth_values")
            back = d.restrict(val, at, 1 if v == c0 else 0)
            if back == (0 if pol == "1" else 1):
                ctx.violation("%s:%s" % (short(w), fld), "%s writes %s for %s=%s, which is read back as the opposite" % (
                    w.path, v, fld, "true" if pol == "1" else "false"), w.where())
