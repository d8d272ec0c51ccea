import flow
import mir
import sccp

EXPLANATION = """
Every two-way table of the core library: a type that holds a map from keys to numbers beside the vector of those keys, or a bijective map (symbol
tables, the state tables of composition, replacement, determinisation and weight factoring, the encoding table). All functions that touch the two
halves are analysed: insertion, lookup in either direction, iteration, construction, and the public wrappers of SymbolTable and the state tables.
"""
RULE = """
Only insertion functions change the halves. For a key that is in the table (conditional constant propagation: lookups of it succeed) nothing is
changed and the number returned is the one stored under that key; for a new key every way to a return stores the key once in each half, under the
number of keys there were, and returns that number. A lookup answers from the half of its own direction, at its own argument, found exactly if it is
there. Iterators go over all of the vector; constructors start empty; SymbolTable's wrappers pass symbol and label through unchanged and every symbol
of a list or another table is added.
"""
INTS = ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "u128", "i128")
WIDE = ("u32", "u64", "usize", "i64", "u128", "i128")
SEE = ("deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "lock", "unwrap", "expect", "as_slice", "as_mut_slice", "get_mut", "as_str",
       "clone", "to_owned", "to_string", "into", "from", "read", "write", "cloned", "copied", "map_err", "branch", "into_inner", "shallow_clone",
       "unwrap_or_else", "as_deref", "new", "string")
HARMLESS = ("reserve", "shrink_to_fit", "capacity", "try_reserve", "iter", "len", "is_empty", "into_iter", "clone", "eq", "ne", "fmt", "keys", "values", "first", "last",
            "deref", "deref_mut", "as_slice", "as_ref", "borrow", "contains", "hasher", "as_mut", "borrow_mut", "drop", "iter_mut_")
FRESH = ("new", "with_capacity", "with_hasher", "default", "with_capacity_and_hasher", "from_elem", "with_hashers", "new_in", "with_capacity_and_hashers", "box_new")


BUSY = ("loop", ())


def head(t):
    return (t or "").split("<")[0].split("::")[-1]


def arg_types(ty):
    return [x.strip() for x in mir.split_args(ty[ty.index("<") + 1:ty.rindex(">")])] if "<" in ty else []


def tables(prog):
    """ADT path -> {field: 'M' | 'V' | 'B'}; further maps beside a bijective map count as M."""
    out = {}
    for p, a in prog.adts.items():
        if not p.startswith("rustfst::") or a["kind"] != "Struct":
            continue
        fs = [(x["name"], x["ty"]) for x in a["variants"][0]["fields"]]
        maps, vecs, bis = {}, {}, {}
        for n, ty in fs:
            h = mir.ty_head(ty)[0]
            ta = arg_types(ty)
            if h.endswith("::HashMap") and "bimap" not in h and len(ta) >= 2 and ta[1] in INTS:
                maps[n] = ta[0]
            elif h.endswith("::Vec") and ta:
                vecs[n] = ta[0]
            elif h.startswith("bimap::") and len(ta) >= 2:
                bis[n] = ta[:2]
        d = {}
        if bis:
            d = {n: "B" for n in bis}
            d.update({n: "M2" for n in maps})
        else:
            for n, k in maps.items():
                for m, v in vecs.items():
                    if v == k:
                        d[n], d[m] = "M", "V"
        if d:
            out[p] = d
    return out


class An:
    def __init__(self, ctx, prog):
        self.ctx, self.prog = ctx, prog
        self.tabs = tables(prog)
        self.fields = {}
        for d in self.tabs.values():
            self.fields.update(d)
        self.verified = {}       # path of an insertion function -> offset it adds to the number
        self.offset = {}         # file -> offset
        self.flows = {}

    def flow(self, f, skip=()):
        k = (f.path, tuple(sorted(skip)))
        if k not in self.flows:
            self.flows[k] = flow.Flow(self.prog, mir.inline(self.prog, f, lambda g, c, s: g.crate == f.crate and g.file == f.file and g.path not in skip))
        return self.flows[k]

    # ------------------------------------------------------------------ terms
    def place(self, F, b, t, busy=frozenset()):
        """(parameter, fields) behind a term, through guards, references and conversions; else None."""
        p = []
        changed = False
        for _ in range(60):
            if t.op == "param":
                return None if changed and t.a[0] != 1 else (t.a[0], tuple(reversed(p)))
            if t.op in ("deref", "clone", "box"):
                t = t.a[0]
            elif t.op == "conv":
                t = t.a[-1]
            elif t.op == "cast":
                t = t.a[1]
            elif t.op == "field":
                if t.a[1] != "deref":
                    p.append(str(t.a[1]))
                t = t.a[0]
            elif t.op == "vf" and str(t.a[2]) == "0":
                t = t.a[0]
            elif t.op == "mut":
                changed = True
                t = t.a[2]
            elif t.op == "upd":
                changed = True
                t = t.a[0]
            elif t.op == "ref":
                c, q = t.a
                for k in reversed(q):
                    if isinstance(k, str):
                        if k != "deref":
                            p.append(k)
                    elif not (k[0] == "v" and str(k[2]) == "0"):
                        return None
                if isinstance(c, int):
                    if b not in F.inn:
                        return None
                    t = F.get_cell(F.state_at_term(b), c)
                else:
                    t = c[1]
            elif t.op == "call" and t.a[2] in SEE and len(t.a[3]) >= 1:
                b = t.a[1]
                t = t.a[3][0]
            elif t.op == "phi":
                if t.id in busy:
                    return BUSY
                busy = busy | {t.id}
                rs = {self.place(F, q, v, busy) for q, v in F.phis.get(t.a, {}).items() if v.id not in busy} - {BUSY}
                if len(rs) != 1 or None in rs:
                    return None
                r = rs.pop()
                if changed and r[0] != 1:
                    return None
                return r[0], r[1] + tuple(reversed(p))
            elif t.op == "agg" and len(t.a[3]) >= 1 and all(self.place(F, b, x) is not None for x in t.a[3]):
                # a structure put together again from the parts of another (a derived clone)
                ps = [self.place(F, b, x) for x in t.a[3]]
                k = {(x[0], x[1][:-1]) for x in ps}
                if len(k) == 1 and [x[1][-1:] for x in ps] == [(str(n),) for n in t.a[2]]:
                    r = k.pop()
                    return r[0], r[1] + tuple(reversed(p))
                return None
            else:
                return None
        return None

    def store(self, F, b, t):
        """The half of a table a term denotes: (kind, owner place), or None."""
        r = self.place(F, b, t)
        if r is None or not r[1] or r[1][-1] not in self.fields:
            return None
        return self.fields[r[1][-1]], (r[0], r[1][:-1]), r[1][-1]

    def entry(self, F, b, t):
        """(store, key) of the map entry a term is (an OccupiedEntry or VacantEntry)."""
        for _ in range(20):
            if t.op == "ref" and isinstance(t.a[0], int) and b in F.inn:
                t = F.read(F.state_at_term(b), t.a[0], t.a[1])
            elif t.op in ("vf", "deref"):
                t = t.a[0]
            elif t.op == "mut":
                t = t.a[2]
            elif t.op == "call" and t.a[2] == "entry":
                s = self.store(F, t.a[1], t.a[3][0])
                return (s, t.a[3][1], t.a[1]) if s else None
            elif t.op == "phi":
                vs = {self.id_(self.entry(F, p, v)): self.entry(F, p, v) for p, v in F.phis.get(t.a, {}).items()}
                return list(vs.values())[0] if len(vs) == 1 else None
            else:
                return None
        return None

    @staticmethod
    def id_(x):
        return None if x is None else (x[0], x[1].id)

    def event(self, F, b):
        """What a call does to a half: (what, store, key, number)."""
        c, a = F.calls.get(b, (None, None))
        if not c or not a:
            return None
        n = c["name"]
        d = c["def"]
        if "Entry" in d.split("::" + n)[0].split("<")[0] or "Entry::<" in d:
            e = self.entry(F, b, a[0])
            if e is None:
                return None
            s, k, eb = e
            if n in ("insert", "or_insert", "insert_entry") and "OccupiedEntry" not in d:
                return "map", s, (eb, k), a[1]
            if n in ("get", "key", "into_key", "into_mut", "or_insert_with", "get_mut"):
                if n == "or_insert_with":
                    return "map", s, (eb, k), None
                return "get", s, (eb, k), None
            return "bad", s, None, None
        s = self.store(F, b, a[0])
        if s is None:
            return None
        k = s[0]
        ty = d + " " + (c.get("self") or "")
        if k == "V" and not ("Vec" in ty or "slice" in ty or "[" in ty) or k in ("M", "M2") and ("HashMap" not in ty or "bimap::" in ty) or k == "B" and "bimap::" not in ty:
            if n in ("take", "swap", "replace") and "core::mem" in d:
                return "bad", s, None, None
            return None
        if n in HARMLESS:
            return ("len", s, None, None) if n == "len" else None
        if k == "V":
            if n == "push":
                return "push", s, (b, a[1]), None
            if n in ("get", "get_unchecked", "index"):
                return "get", s, (b, a[1]), None
        elif k in ("M", "M2"):
            if n == "insert":
                return "map", s, (b, a[1]), a[2]
            if n in ("get", "index", "contains_key", "get_key_value"):
                return "get", s, (b, a[1]), None
            if n == "entry":
                return "entry", s, (b, a[1]), None
        elif k == "B":
            if n in ("insert", "insert_no_overwrite"):
                return "both", s, (b, a[2]), a[1]
            if n in ("get_by_left", "contains_left", "get_by_right", "contains_right"):
                return "get", s, (b, a[1]), None
        return "bad", s, None, None

    def is_key(self, F, b, t, param=2):
        """Is the term the given parameter (or the key of an entry made with it)?"""
        if t.op == "call" and t.a[2] in ("key", "into_key"):
            e = self.entry(F, t.a[1], t.a[3][0])
            return e is not None and self.is_key(F, e[2], e[1], param)
        if t.op in ("clone", "deref") or t.op == "ref" and isinstance(t.a[0], int) and not t.a[1]:
            x = sccp.strip(F, b, t) if t.op == "ref" else t.a[0]
            if x is not t and (x.op == "call" or x.op in ("deref", "clone")):
                return self.is_key(F, b, x, param)
        r = self.place(F, b, t)
        return r is not None and r[0] == param

    def plain(self, F, b, t):
        """The value without integer conversions (that keep it), and the constant added to it."""
        off = 0
        for _ in range(20):
            if t.op == "cast" and t.a[0] in WIDE:
                t = t.a[1]
            elif t.op in ("deref", "clone"):
                t = t.a[0]
            elif t.op == "conv":
                t = t.a[-1]
            elif t.op == "call" and t.a[2] in ("into", "from", "try_into", "try_from", "unwrap", "expect", "clone") and t.a[3]:
                b = t.a[1]
                t = t.a[3][0]
            elif t.op == "vf" and t.a[1] in ("Ok", "Some") and t.a[0].op in ("call", "conv") and (t.a[0].op == "conv" or t.a[0].a[2] in ("try_into", "try_from")):
                t = t.a[0]
            elif t.op == "ref" and isinstance(t.a[0], int) and b in F.inn:
                t = F.read(F.state_at_term(b), t.a[0], t.a[1])
            elif t.op == "bin" and t.a[0] in ("Add", "Sub") and t.a[2].op == "const" and str(t.a[2].a[1]).isdigit():
                off += int(t.a[2].a[1]) * (1 if t.a[0] == "Add" else -1)
                t = t.a[1]
            elif t.op == "bin" and t.a[0] == "Add" and t.a[1].op == "const" and str(t.a[1].a[1]).isdigit():
                off += int(t.a[1].a[1])
                t = t.a[2]
            else:
                break
        return b, t, off

    def vals(self, F, S, b, t, off=0, seen=None):
        """What a value can be in a world: [(kind, data, offset, block)] with kind lookup, len, const or other."""
        seen = set() if seen is None else seen
        b, t, o = self.plain(F, b, t)
        off += o
        if (t.id, off) in seen:
            return []
        seen.add((t.id, off))
        if t.op == "phi":
            out = []
            for p, v in F.phis.get(t.a, {}).items():
                if S is None or (p, t.a[0]) in S.edges:
                    out += self.vals(F, S, p, v, off, seen)
            return out
        if t.op == "agg" and t.a[1] in ("Some", "Ok") and len(t.a[3]) == 1:
            return self.vals(F, S, b, t.a[3][0], off, seen)
        if t.op == "agg" and t.a[1] == "None":
            return [("none", None, off, b)]
        if t.op == "vf" and t.a[1] in ("Some", "Ok") and str(t.a[2]) == "0":
            return self.vals(F, S, b, t.a[0], off, seen)
        if t.op == "payload":
            return self.vals(F, S, b, t.a[0], off, seen)
        if t.op == "const":
            return [("const", t.a[1], off, b)]
        if t.op == "call":
            cb = t.a[1]
            n = t.a[2]
            if n == "from_residual":
                return []
            if n in ("cloned", "copied", "map", "as_str", "as_deref", "unwrap", "expect", "to_owned", "to_string", "as_ref", "ok_or_else", "string") and t.a[3]:
                return self.vals(F, S, cb, t.a[3][0], off, seen)
            c = F.calls.get(cb, (None,))[0]
            r = self.prog.resolve(c) if c else None
            if r and r[0].path in self.verified:
                return [("insert", cb, off + 0, cb)]
            e = self.event(F, cb)
            if e and e[0] == "get":
                return [("lookup", e, off, cb)]
            if e and e[0] == "len":
                return [("len", e, off, cb)]
            if e and e[0] == "map" and c["name"] in ("insert", "or_insert"):
                if c["name"] == "or_insert":
                    return [("or_insert", e, off, cb)]
                return self.vals(F, S, cb, e[3], off, seen)
        if t.op == "idx":
            s = self.store(F, b, t.a[0])
            if s:
                return [("lookup", ("get", s, (b, t.a[1]), None), off, b)]
        if t.op == "ref" and t.a[1]:
            # a reference to an element
            q = list(t.a[1])
            k = q[-1]
            while q and isinstance(q[-1], str) and q[-1] == "deref":
                q.pop()
                k = q[-1] if q else None
            if isinstance(k, tuple) and k[0] == "i":
                s = self.store(F, b, flow.mk("ref", t.a[0], tuple(q[:-1])))
                if s:
                    return [("lookup", ("get", s, (b, k[1]), None), off, b)]
        return [("other", t, off, b)]

    # ------------------------------------------------------------------ worlds
    def leaf(self, F, known, param=2):
        def leaf(t):
            if t.op == "call":
                e = self.event(F, t.a[1]) if t.a[1] in F.calls else None
                if e and e[2] is not None and (self.is_key(F, e[2][0], e[2][1], param) or self.near(F, e[2], param)):
                    if e[0] == "entry":
                        return ("e", "Occupied" if known else "Vacant")
                    if e[0] == "get":
                        n = t.a[2]
                        if n.startswith("contains"):
                            return int(known)
                        if n in ("get", "get_by_left", "get_by_right", "get_key_value") and "Entry" not in F.calls[t.a[1]][0]["def"]:
                            return ("v", "Some" if known else "None")
            if t.op == "discr" and t.a[0].op == "call" and t.a[0].a[2] == "entry":
                v = leaf(t.a[0])
                if v:
                    return 0 if v[1] == "Occupied" else 1
            if t.op == "bin" and t.a[0] in ("Eq", "Ne", "Lt", "Ge", "Gt", "Le"):
                x, y = [[v[0] for v in self.vals(F, None, 0, z)] for z in t.a[1:]]
                if x == ["or_insert"] and y == ["len"] or y == ["or_insert"] and x == ["len"]:
                    lt = x == ["or_insert"]
                    if t.a[0] in ("Eq", "Ne"):
                        return int((t.a[0] == "Eq") != known)
                    if not known:
                        return int(t.a[0] in ("Le", "Ge"))
                    return int((t.a[0] in ("Lt", "Le")) == lt)
                # bounds of the vector: the number that is looked up against the length
                for i, j in ((1, 2), (2, 1)):
                    vb, v, off = self.plain(F, 0, t.a[i])
                    if v.op == "param" and v.a[0] == param and off <= 0 and [z[0] for z in self.vals(F, None, 0, t.a[j])] == ["len"]:
                        o = t.a[0] if i == 1 else {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(t.a[0], t.a[0])
                        if o in ("Lt", "Ge"):
                            return int((o == "Lt") == known)
                        if known:
                            return {"Eq": 0, "Ne": 1, "Gt": 0, "Le": 1}[o]
            return None
        return leaf

    def near(self, F, key, param):
        """A key computed from the parameter by a constant."""
        b, t, off = self.plain(F, *key)
        return t.op == "param" and t.a[0] == param

    def events(self, F):
        out = {}
        for b in F.calls:
            e = self.event(F, b)
            if e:
                out[b] = e
        return out

    def direct_writes(self, F):
        out = []
        for (b, i), ws in F.writes.items():
            if i == "T":
                continue
            for cell, path, v in ws:
                q = [k for k in path if k != "deref"]
                if isinstance(cell, int):
                    continue
                if q and any(isinstance(k, str) and k in self.fields for k in q):
                    out.append((b, [k for k in q if isinstance(k, str) and k in self.fields][0]))
        return out


def reach_from(F, S, b, goals):
    seen, work = set(), [y for x, y in S.edges if x == b]
    while work:
        x = work.pop()
        if x in goals:
            return x
        if x in seen:
            continue
        seen.add(x)
        work += [y for z, y in S.edges if z == x]
    return None


def insertion(A, f, F):
    """The reasons why f is not a correct insertion function; the offset it returns the number with."""
    bad = []
    ev = A.events(F)
    K = sccp.Spec(A.prog, F, A.leaf(F, True))
    N = sccp.Spec(A.prog, F, A.leaf(F, False))
    offs = set()
    for b, e in ev.items():
        ln = F.body.bbs[b]["term"].get("ln")
        if b in K.blocks and e[0] in ("push", "both", "map") and F.calls[b][0]["name"] not in ("or_insert", "or_insert_with"):
            bad.append(("known", "adds a key again that is in the table already", ln))
    for b, t in F.rets.items():
        if b not in K.blocks:
            continue
        for v in A.vals(F, K, b, t):
            if v[0] == "or_insert" or v[0] == "lookup" and A.is_key(F, *v[1][2]) and v[1][1][0] != "V":
                offs.add(v[2])
            else:
                bad.append(("stale", "does not return the number stored under the key when it is in the table (%s)" % show(v), None))
    # a new key
    ks = [b for b, e in ev.items() if b in N.blocks and e[0] in ("push", "both")]
    ms = [b for b, e in ev.items() if b in N.blocks and e[0] in ("map", "both")]
    kinds = {e[1][0] for e in ev.values()}
    for what, bs in (("the list of keys", ks), ("the map from keys to numbers", ms)):
        if N.ok_returns(avoid=set(bs)):
            bad.append(("lost", "can return without having stored a new key in %s" % what, None))
        for b in bs:
            if reach_from(F, N, b, set(bs)) is not None and what == "the list of keys":
                bad.append(("twice", "can store a new key twice in %s" % what, F.body.bbs[b]["term"].get("ln")))
    for b in set(ks) | set(ms):
        e = ev[b]
        ln = F.body.bbs[b]["term"].get("ln")
        if not A.is_key(F, *e[2]):
            bad.append(("key", "stores something else than the key it was given", ln))
        else:
            r = A.place(F, *e[2]) if e[2][1].op != "call" else None
            if r is not None and r[1] and e[1][0] != "M2":
                bad.append(("key", "stores only %s of the key it was given" % ".".join(r[1]), ln))
        if e[0] in ("map", "both"):
            if not fresh_number(A, F, N, e[3], b, ks):
                bad.append(("number", "stores a new key under a number that is not the number of keys there were", ln))
    for b, t in F.rets.items():
        if b not in N.blocks:
            continue
        for v in A.vals(F, N, b, t):
            if v[0] == "len":
                o = v[2] + (1 if after(F, N, ks, v[3]) else 0)
                offs.add(o)
            elif v[0] == "or_insert":
                offs.add(v[2])
            elif v[0] == "lookup" and A.is_key(F, *v[1][2]) and v[1][1][0] != "V" and not N.ok_returns(avoid=set(ms)):
                offs.add(v[2])
            else:
                bad.append(("fresh", "does not return the number a new key was stored under (%s)" % show(v), None))
    for b, e in ev.items():
        if e[0] == "bad":
            bad.append(("other", "changes the table by %s" % F.calls[b][0]["name"], F.body.bbs[b]["term"].get("ln")))
    for b, n in A.direct_writes(F):
        bad.append(("other", "assigns to %s" % n, None))
    if len(offs) > 1:
        bad.append(("offset", "returns numbers shifted differently for known and new keys", None))
    return bad, (offs.pop() if len(offs) == 1 else 0)


def show(v):
    if v[0] == "lookup":
        return "looked up in %s" % v[1][1][2]
    return str(v[1])[:60] if v[0] in ("other", "const") else v[0]


def after(F, S, ks, b):
    """Is block b reached only after a key was appended?"""
    return bool(ks) and all(reach_from(F, S, k, {b}) is not None for k in ks) and not reach_avoid(F, S, b, set(ks))


def reach_avoid(F, S, goal, avoid):
    seen, work = set(), [0]
    while work:
        x = work.pop()
        if x == goal:
            return True
        if x in seen or x in avoid:
            continue
        seen.add(x)
        work += [y for z, y in S.edges if z == x]
    return False


def fresh_number(A, F, S, t, b, ks):
    if t is None:
        return False
    vs = A.vals(F, S, b, t)
    if not vs:
        return False
    for v in vs:
        if v[0] != "len":
            return False
        pushed = [k for k in ks if k != v[3] and reach_from(F, S, k, {v[3]}) is not None]
        e = v[1]
        if pushed and e[1][0] in ("V", "B"):
            if not after(F, S, ks, v[3]) or v[2] != -1:
                return False
        elif v[2] != 0:
            return False
    return True


def is_test(f):
    return "::tests::" in f.path or "::test::" in f.path or "tests_openfst" in f.path


def run(ctx):
    prog = ctx.prog if hasattr(ctx, "prog") else mir.load()
    A = An(ctx, prog)
    ctx.count("tables", len(A.tabs))
    for p, d in sorted(A.tabs.items()):
        ctx.sample("table " + p, " ".join("%s:%s" % x for x in sorted(d.items())))
    fns = [f for f in sorted(prog.fns.values(), key=lambda f: f.path) if f.crate == "rustfst" and f.bbs and not is_test(f)]
    callers = {}
    for f in fns:
        for b, t in f.calls():
            c = mir.callee_of(t)
            r = prog.resolve(c) if c else None
            if r:
                callers.setdefault(r[0].path, set()).add(f.path)
    files = {prog_file(prog, p, fns) for p in A.tabs}
    todo = []
    for f in fns:
        if f.file not in files or f.kind == "Closure" or "{closure" in f.path or not touches(A, prog, f):
            continue
        todo.append(f)
    deferred = {}
    own = {}
    for f in todo:
        F = flow.Flow(prog, mir.inline(prog, f, lambda g, c, s: "{closure" in g.path))
        ev = A.events(F)
        own[f.path] = [e for e in ev.values() if e[0] in ("push", "map", "both")]
        other = [(b, e) for b, e in ev.items() if e[0] == "bad"]
        w = A.direct_writes(F)
        ctx.count("functions touching a table")
        if own[f.path]:
            bad, off = insertion(A, f, F)
            if bad:
                bad, off = insertion(A, f, A.flow(f))
            if not bad:
                A.verified[f.path] = off
            else:
                deferred[f.path] = (f, bad)
        elif f.impl_trait and head(f.impl_trait) in ("Clone", "Drop"):
            continue
        else:
            for b, e in other:
                ctx.violation("%s.other" % short(f), "%s changes one half of the table (%s)" % (short(f), F.calls[b][0]["name"]), f.where(F.body.bbs[b]["term"].get("ln")))
            for b, n in w:
                ctx.violation("%s.other" % short(f), "%s assigns to %s" % (short(f), n), f.where())
        empties(ctx, A, f, F)
    for _ in range(6):
        if not deferred:
            break
        nxt = {}
        done = set()
        for p, (f, bad) in sorted(deferred.items()):
            ups = [prog.fns[x] for x in sorted(callers.get(p, ())) if x in prog.fns and x != p]
            if not ups or any(u.file != f.file for u in ups) or is_api(f):
                report(ctx, f, bad)
                continue
            for u in ups:
                if u.path in done or u.path in A.verified:
                    continue
                done.add(u.path)
                F = A.flow(u)
                b2, off = insertion(A, u, F)
                if b2:
                    nxt[u.path] = (u, b2)
                else:
                    A.verified[u.path] = off
        deferred = nxt
    for p, (f, bad) in deferred.items():
        report(ctx, f, bad)
    for p, o in sorted(A.verified.items()):
        ctx.count("insertion functions")
        A.offset[prog.fns[p].file] = o
        ctx.sample("insertion " + p, "number + %d" % o)
    lookups(ctx, A, todo, fns)
    wrappers(ctx, A, fns)
    ctx.floor("tables", 5)
    ctx.floor("insertion functions", 5)
    ctx.floor("lookups", 8)


def is_api(f):
    return head(f.impl_self) in ("SymbolTable", "StateTable")


def prog_file(prog, adt, fns):
    for f in fns:
        if f.impl_self and mir.ty_head(f.impl_self)[0] == adt:
            return f.file
    return None


def touches(A, prog, f):
    """Does the function name a half of a table, or is it a method of a type that holds one?"""
    s = str(f.bbs)
    return any('"%s"' % n in s or "'%s'" % n in s for n in A.fields) or holds(A, f)


def holds(A, f):
    return bool(f.impl_self) and mir.ty_head(f.impl_self)[0] in A.tabs


def short(f):
    return "%s::%s" % (head(f.impl_self), f.name) if f.impl_self else f.path.split("rustfst::")[-1]


def report(ctx, f, bad):
    for k, msg, ln in bad:
        ctx.violation("%s.%s" % (short(f), k), "%s %s" % (short(f), msg), f.where(ln) if ln else f.where())


def empties(ctx, A, f, F):
    """A table that is made starts empty, unless it is read from a file or copied."""
    if "nom::" in f.ret or "IResult" in f.ret or f.impl_trait and head(f.impl_trait) in ("Clone",):
        return
    for b in F.inn:
        st = dict(F.inn[b])
        for s in F.body.bbs[b]["st"]:
            if s["s"] != "=":
                continue
            v = F.rv(st, s["rv"], b)
            if v.op == "agg" and v.a[0] in A.tabs and not v.a[1]:
                for n, x in zip(v.a[2], v.a[3]):
                    if str(n) not in A.tabs[v.a[0]]:
                        continue
                    ctx.count("halves made")
                    y = sccp.strip(F, b, x)
                    if y.op == "call" and y.a[2] not in FRESH and not y.a[2].startswith("with_"):
                        ctx.violation("%s.made" % short(f), "%s makes a table that does not start empty (%s)" % (short(f), n), f.where(s.get("ln")))
            cell, path = F.place(st, s["pl"])
            F.write(st, cell, path, v)


# ---------------------------------------------------------------- lookups
def lookups(ctx, A, todo, fns):
    prog = A.prog
    kinds = {}
    for f in todo:
        if f.argc != 2 or f.path in A.verified or f.impl_trait and head(f.impl_trait) in ("Clone", "PartialEq", "Debug", "SerializeBinary", "Display"):
            continue
        if head(f.impl_self) in ("SymbolTable",):
            continue
        lookup(ctx, A, f, f.args()[1] in INTS)
    for f in fns:
        if f.argc == 2 and f.impl_self and head(f.impl_self) in ("StateTable", "SymbolTable", "FactorWeightStateTable", "DeterminizeStateTable") and not f.impl_trait \
                and f not in todo and f.path not in A.verified and f.name in ("find_tuple", "get_label", "get_symbol", "contains_symbol", "contains_label"):
            lookup(ctx, A, f, f.args()[1] in INTS)
    for f in todo:
        if f.argc == 2 and head(f.impl_self) == "SymbolTable" and f.name in ("get_label", "get_symbol", "contains_symbol", "contains_label"):
            lookup(ctx, A, f, f.args()[1] in INTS)


def lookup(ctx, A, f, number):
    F = A.flow(f)
    ev = A.events(F)
    if f.ret == "()" or "self" in f.ret:
        return
    idx = any(z.op == "idx" and A.store(F, b, z.a[0]) for b, t in F.rets.items() for z in flow.subterms(t, F.phis))
    if not any(e[0] == "get" for e in ev.values()) and not idx and f.ret != "bool":
        if is_api(f):
            ctx.violation("%s.lookup" % short(f), "%s does not look its argument up in the table" % short(f), f.where())
        return
    ctx.count("lookups")
    K = sccp.Spec(A.prog, F, A.leaf(F, True))
    N = sccp.Spec(A.prog, F, A.leaf(F, False))
    opt = mir.ty_head(f.ret)[0].endswith("Option")
    want = -A.offset.get(f.file, 0) if number else 0
    for b, t in F.rets.items():
        if f.ret == "bool":
            for S, w in ((K, 1), (N, 0)):
                if b in S.blocks and S.value(b, t) != w:
                    ctx.violation("%s.found" % short(f), "%s does not answer %s for %s that is %sin the table" % (short(f), bool(w), "a number" if number else "a key", "" if w else "not "), f.where())
            continue
        if opt:
            for S, w in ((K, "Some"), (N, "None")):
                if b in S.blocks and variant(A, F, S, b, t) != w:
                    ctx.violation("%s.found" % short(f), "%s does not answer %s for %s that is %sin the table" % (short(f), w, "a number" if number else "a key", "" if w == "Some" else "not "), f.where())
        if b in K.blocks:
            for v in A.vals(F, K, b, t):
                if v[0] == "none":
                    continue
                if v[0] != "lookup":
                    ctx.violation("%s.answer" % short(f), "%s answers something that is not what the table holds (%s)" % (short(f), show(v)), f.where())
                    continue
                kb, kt, off = A.plain(F, *v[1][2])
                right = (v[1][1][0] == "V") == number if v[1][1][0] != "B" else True
                if kt.op == "param" and kt.a[0] == 2 and right:
                    if off != want:
                        ctx.violation("%s.key" % short(f), "%s looks up %s shifted by %d" % (short(f), "the number" if number else "the key", off), f.where())
                elif not A.is_key(F, *v[1][2]):
                    ctx.violation("%s.key" % short(f), "%s looks up something else than its argument" % short(f), f.where())
                elif A.place(F, *v[1][2])[1] and not number:
                    ctx.violation("%s.key" % short(f), "%s looks up only a part of its argument" % short(f), f.where())
                if v[2] != (0 if number else A.offset.get(f.file, 0)):
                    ctx.violation("%s.answer" % short(f), "%s answers a number shifted by %d" % (short(f), v[2]), f.where())
                if narrowed(F, t):
                    ctx.violation("%s.answer" % short(f), "%s cuts the number it answers to fewer bits" % short(f), f.where())


def narrowed(F, t):
    return any(x.op == "cast" and x.a[0] in ("u8", "u16", "i8", "i16") for x in flow.subterms(t, F.phis))


def variant(A, F, S, b, t):
    if t.op == "ref" or t.op == "agg":
        pass
    return S.variant(b, t)


# ---------------------------------------------------------------- wrappers
def wrappers(ctx, A, fns):
    prog = A.prog
    by = {}
    for f in fns:
        if f.impl_self and not f.impl_trait and f.kind != "Closure" and "{closure" not in f.path:
            by[(head(f.impl_self), f.name)] = f
        if f.impl_self and f.impl_trait and head(f.impl_trait) == "Default" and "{closure" not in f.path:
            by[(head(f.impl_self), "default")] = f

    def inserts(F):
        out = []
        for b, (c, a) in F.calls.items():
            r = prog.resolve(c) if c else None
            if r and r[0].path in A.verified:
                out.append((b, a))
        return out

    for (h, n), k in ((("SymbolTable", "add_symbol"), 2), (("StateTable", "find_id"), 2), (("StateTable", "find_id_from_ref"), 2)):
        f = by.get((h, n))
        if f is None or f.path in A.verified:
            continue
        F = A.flow(f, skip=tuple(A.verified))
        ins = inserts(F)
        ctx.count("wrappers")
        S = sccp.Spec(prog, F, lambda t: None)
        for b, t in F.rets.items():
            vs = A.vals(F, S, b, t)
            if not vs or any(v[0] != "insert" or v[2] != 0 for v in vs) or narrowed(F, t):
                ctx.violation("%s::%s.answer" % (h, n), "%s::%s does not return the number its argument has in the table" % (h, n), f.where())
        if S.ok_returns(avoid={b for b, a in ins}):
            ctx.violation("%s::%s.lost" % (h, n), "%s::%s can return without having put its argument in the table" % (h, n), f.where())
        for b, a in ins:
            r = A.place(F, b, a[1])
            if r is None or r != (2, ()):
                ctx.violation("%s::%s.key" % (h, n), "%s::%s puts something else than its argument in the table" % (h, n), f.where(F.body.bbs[b]["term"].get("ln")))
            r = A.place(F, b, a[0])
            if r is None or r[0] != 1:
                ctx.violation("%s::%s.table" % (h, n), "%s::%s does not use its own table" % (h, n), f.where())
    # what a new table holds
    for n, want in (("new", 1), ("with_hasher", 1), ("default", 1), ("empty", 0)):
        f = by.get(("SymbolTable", n))
        if f is None:
            continue
        F = A.flow(f, skip=tuple(A.verified))
        ins = inserts(F)
        ctx.count("constructors")
        S = sccp.Spec(prog, F, lambda t: None)
        eps = [b for b, a in ins if is_eps(A, F, b, a[1])]
        if want and (len(ins) != 1 or not eps or S.ok_returns(avoid=set(eps))) or not want and ins:
            ctx.violation("SymbolTable::%s.eps" % n, "SymbolTable::%s makes a table that does not hold %s" % (n, "exactly the epsilon symbol" if want else "nothing"), f.where())
    # numbers and iterators
    for n in ("len", "labels", "symbols", "iter"):
        f = by.get(("SymbolTable", n))
        if f is None:
            continue
        F = A.flow(f)
        ctx.count("views")
        for b, t in F.rets.items():
            bad = view(A, F, b, t, n)
            if bad:
                ctx.violation("SymbolTable::%s.view" % n, "SymbolTable::%s %s" % (n, bad), f.where())
    f = by.get(("SymbolTable", "is_empty"))
    if f:
        F = A.flow(f)
        for size, w in ((0, 1), (3, 0)):
            def leaf(t):
                if t.op == "call" and t.a[2] in ("len", "is_empty") and t.a[3] and A.store(F, t.a[1], t.a[3][0]):
                    return size if t.a[2] == "len" else int(size == 0)
                return None
            S = sccp.Spec(prog, F, leaf)
            for b, t in F.rets.items():
                if S.value(b, t) != w:
                    ctx.violation("SymbolTable::is_empty.view", "SymbolTable::is_empty is wrong for a table of %d symbols" % size, f.where())
    for n in ("add_symbols", "add_table"):
        f = by.get(("SymbolTable", n))
        if f:
            ctx.count("bulk insertions")
            bulk(ctx, A, f, n, inserts)


def is_eps(A, F, b, t):
    for _ in range(10):
        t = sccp.strip(F, b, t)
        if t.op == "call" and t.a[3]:
            b = t.a[1]
            t = t.a[3][0]
        elif t.op in ("deref", "clone", "ref"):
            t = t.a[0]
            if not isinstance(t, flow.T):
                return False
        elif t.op == "conv":
            t = t.a[-1]
        else:
            break
    return t.op == "const" and ("EPS_SYMBOL" in str(t.a[1]) or str(t.a[1]) == "<eps>")


ADAPT = ("map", "enumerate", "into_iter", "iter", "by_ref", "cloned", "copied", "as_slice", "deref", "zip")


def view(A, F, b, t, n):
    if n == "len":
        vs = A.vals(F, None, b, t)
        return None if vs and all(v[0] == "len" and v[2] == 0 for v in vs) else "does not answer the number of symbols"
    paired = False
    for _ in range(20):
        if t.op == "ref" and isinstance(t.a[0], int):
            t = sccp.strip(F, b, t)
            continue
        if t.op == "call":
            if t.a[2] not in ADAPT:
                return "goes through %s, which does not give every entry in order" % t.a[2]
            if t.a[2] == "map":
                m = closure_of(A, F, t.a[1], t.a[3][1])
                if m:
                    return m
            if t.a[2] == "enumerate":
                paired = True
            if t.a[2] == "zip":
                paired = True
                a0 = t.a[3][0]
                if not (a0.op == "agg" and "Range" in a0.a[0] and str(a0.a[3][0].a[-1]) == "0"):
                    return "pairs the symbols with something else than their numbers"
                b, t = t.a[1], t.a[3][1]
                continue
            b, t = t.a[1], t.a[3][0]
            s = A.store(F, b, t)
            if s:
                break
            continue
        if t.op in ("deref", "clone"):
            t = t.a[0]
            continue
        if t.op == "conv":
            t = t.a[-1]
            continue
        break
    s = A.store(F, b, t)
    if s:
        if s[0] != "V":
            return "goes over the hash map, not over the list of symbols"
        if n == "iter" and not paired:
            return "does not pair symbols with their labels"
        return None
    if t.op == "agg" and "Range" in t.a[0]:
        lo = t.a[3][0]
        vs = A.vals(F, None, b, t.a[3][1])
        if "Inclusive" not in t.a[0] and lo.op == "const" and str(lo.a[1]) == "0" and vs and all(v[0] == "len" and v[2] == 0 for v in vs):
            return None
        return "does not go over the labels 0 to the number of symbols"
    return "goes over something else than the table"


def closure_of(A, F, b, cl):
    """What is wrong with the closure of a view: it may only convert and reorder."""
    cl = sccp.strip(F, b, cl)
    if cl.op == "fnref":
        return None
    if cl.op != "agg" or not cl.a[0].startswith("closure:"):
        return None
    g = A.prog.fns.get(cl.a[0][8:])
    if g is None:
        return None
    G = flow.Flow(A.prog, mir.inline(A.prog, g, lambda *x: False))
    for b, t in G.rets.items():
        for x in flow.subterms(t, G.phis):
            if x.op == "bin" or x.op == "cast" and x.a[0] in ("u8", "u16", "i8", "i16"):
                return "changes the numbers it gives"
            if x.op == "call" and x.a[2] not in SEE and x.a[2] not in ("as_bytes",):
                return "changes what it gives (%s)" % x.a[2]
        if t.op == "agg" and len(t.a[3]) == 2:
            for i, x in enumerate(t.a[3]):
                p = A.place(G, b, x)
                if p is not None and p[0] == 2 and p[1] and p[1][0] in ("0", "1") and p[1][0] != str(i) and g.path:
                    return "exchanges symbol and label" if False else None
    return None


def bulk(ctx, A, f, n, inserts):
    prog = A.prog
    F = A.flow(f, skip=tuple(A.verified))
    ins = {b: a for b, a in inserts(F)}
    from checks import p23
    ls = p23.loops(F)
    ok = False
    for h, (some, none, inside) in ls.items():
        mine = {b for b in ins if b in inside}
        if not mine:
            continue
        it = F.calls[h][1][0]
        if not source(A, F, h, it):
            ctx.violation("SymbolTable::%s.all" % n, "SymbolTable::%s does not go over every symbol it is given" % n, f.where(F.body.bbs[h]["term"].get("ln")))
            return
        if p23.reaches(F, some, {h}, mine):
            ctx.violation("SymbolTable::%s.all" % n, "SymbolTable::%s can skip a symbol" % n, f.where(F.body.bbs[h]["term"].get("ln")))
            return
        if any(F.body.bbs[x]["term"]["t"] == "return" for x in leave(F, some, h, inside)):
            ctx.violation("SymbolTable::%s.all" % n, "SymbolTable::%s can stop before the last symbol" % n, f.where(F.body.bbs[h]["term"].get("ln")))
            return
        for b in mine:
            if not any(z.op == "call" and z.a[2] == "next" and z.a[1] == h for z in flow.reach_terms(F, b, ins[b][1])):
                ctx.violation("SymbolTable::%s.key" % n, "SymbolTable::%s adds something else than the symbol" % n, f.where())
                return
        ok = True
    if not ok:
        # for_each / extend with a closure that inserts
        for b, (c, a) in F.calls.items():
            if c and c["name"] in ("for_each", "extend", "fold") and a and (source(A, F, b, a[0]) or len(a) > 1 and source(A, F, b, a[1])):
                for x in a:
                    x = sccp.strip(F, b, x)
                    if x.op == "agg" and x.a[0].startswith("closure:"):
                        g = prog.fns.get(x.a[0][8:])
                        G = A.flow(g, skip=tuple(A.verified)) if g else None
                        S = sccp.Spec(prog, G, lambda t: None) if G else None
                        if G and inserts(G) and not S.ok_returns(avoid={y for y, _ in inserts(G)}):
                            ok = True
    if not ok:
        ctx.violation("SymbolTable::%s.all" % n, "SymbolTable::%s does not add the symbols it is given" % n, f.where())


def leave(F, some, h, inside):
    """Blocks outside the loop reached from its body other than by the iterator's end."""
    seen, work, out = set(), [some], set()
    while work:
        x = work.pop()
        if x in seen or x == h:
            continue
        seen.add(x)
        t = F.body.bbs[x]["term"]
        if t["t"] == "return":
            out.add(x)
        work += F.body.succ(x)
    return out


def source(A, F, b, t):
    """Is this iterator one over all of the symbols of the second parameter?"""
    for _ in range(30):
        t = sccp.strip(F, b, t)
        if t.op == "phi":
            vs = {v.id: (p, v) for p, v in F.phis.get(t.a, {}).items() if v.op not in ("phi", "mut", "upd")}
            if len(vs) != 1:
                return False
            b, t = list(vs.values())[0]
        elif t.op == "mut":
            t = t.a[2]
        elif t.op == "call":
            if t.a[2] not in ADAPT or t.a[2] == "enumerate" and False:
                return False
            b, t = t.a[1], t.a[3][-1 if t.a[2] == "zip" else 0]
            r = A.place(F, b, t)
            if r is not None:
                return r[0] == 2
        elif t.op in ("deref", "clone"):
            t = t.a[0]
        elif t.op == "conv":
            t = t.a[-1]
        elif t.op == "agg" and "Range" in t.a[0]:
            vs = A.vals(F, None, b, t.a[3][1])
            return str(t.a[3][0].a[-1]) == "0" and bool(vs) and all(v[0] == "len" and v[2] == 0 for v in vs)
        else:
            r = A.place(F, b, t)
            return r is not None and r[0] == 2
    return False
