import flow
import mir
import sccp
from mir import callee_of
from panics import panics, unchecked

EXPLANATION = """
Everything reachable from the functions that read FSTs, symbol tables and weights (files, buffers, text) is walked for constructs that
end the process, and the value flow of each reader is propagated once for every way its input can be inconsistent: in that case no
path may hand out an object.
"""
RULE = """
(1) no panicking or unchecked construct is reachable from a reader, apart from arithmetic that cannot fail (a
remainder by a constant, a - x % a, differences of lengths, counters, widened additions); (2) a function that finishes a text parser
reports success only if nothing but blanks is left of the input; (3) a binary reader does not succeed when the start state, the next
state of any transition or the transition range of any state lies outside the FST, nor when the magic number, the type of the FST, the
type of its transitions or its version is not the expected one; (4) a symbol-table reader does not succeed when any label differs from
the position of its symbol.
"""
READERS = ("load", "read", "read_text", "from_text_string", "from_parsed_fst_text", "from_parsed_symt_text", "read_from_const")
WEIGHT = ("parse_binary", "parse_text")
TRS = "rustfst::"
BOUNDARY = ("MutableFst", "CoreFst", "ExpandedFst", "AllocableFst")
NARROW = ("skip", "take", "filter", "filter_map", "step_by", "take_while", "skip_while", "map_while", "index", "get", "split_at", "chunks",
          "windows", "split_first", "split_last", "first", "last", "zip", "truncate", "drain", "nth")
FULL = ("iter", "into_iter", "deref", "trs", "as_slice", "as_ref", "borrow", "enumerate", "copied", "cloned", "rev", "by_ref", "clone", "iter_mut",
        "as_deref", "peekable", "inspect", "to_vec")
SIZES = ((0, 0), (1, 1), (1000, 5000))      # numbers of states and of transitions of a file
BIG = 1 << 64
LOSSY = ("from_utf8_lossy", "from_utf16_lossy", "to_string_lossy", "from_utf8_lossy_owned")


def head(t):
    return (t or "").split("<")[0].split("::")[-1]


def want(g, c, s):
    return g.crate == "rustfst" and head(g.impl_self) != "BiHashMapString" and ("/parsers/" in g.file or g.file.endswith(("serializable_fst.rs", "parse_const.rs", "symbol_table.rs")))


def inlined(prog, f):
    return flow.Flow(prog, mir.inline(prog, f, want))


# ------------------------------------------------------------------ (1)
def mentions(o):
    if isinstance(o, dict):
        if isinstance(o.get("fn"), dict):
            yield o["fn"]
        if o.get("r") == "agg" and o.get("kind") == "closure":
            yield {"closure": o["def"]}
        for v in o.values():
            yield from mentions(v)
    elif isinstance(o, list):
        for v in o:
            yield from mentions(v)


def entries(prog):
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate != "rustfst" or not f.bbs or f.kind == "Closure" or "{closure" in f.path:
            continue
        h = head(f.impl_self) if f.impl_self else head(f.in_trait) if f.in_trait else ""
        if f.name in READERS and (h in ("VectorFst", "ConstFst", "SerializableFst", "SymbolTable") or f.impl_trait and head(f.impl_trait) == "SerializableFst"):
            yield f
        elif f.name in WEIGHT and f.impl_trait and head(f.impl_trait) == "SerializableSemiring":
            yield f


def boundary(g):
    """Operations on an FST in memory: what they do is not a matter of the input's form any more."""
    tr = head(g.impl_trait) if g.impl_trait else head(g.in_trait) if g.in_trait else ""
    return tr in BOUNDARY or g.path.endswith("compute_fst_properties") or "::_::" in g.path or g.path.startswith("rustfst::fst_properties::")


def reach(prog):
    seen = {}
    work = [(f, ()) for f in entries(prog)]
    stops = set()
    while work:
        f, chain = work.pop()
        if f.path in seen:
            continue
        seen[f.path] = chain + (f.path,)
        for bb in f.bbs:
            if bb.get("cl"):
                continue
            for c in mentions([bb["st"], bb["term"]]):
                if "closure" in c:
                    gs = [prog.fns[c["closure"]]] if c["closure"] in prog.fns else []
                else:
                    gs = prog.candidates(c)
                    tr = c.get("trait", "")
                    if tr.startswith(("core::", "alloc::", "std::")) and (c.get("param") or mir._is_generic(c.get("self", ""))):
                        gs = [g for g in gs if "::semirings::" in g.path]
                for g in gs:
                    if g.crate != "rustfst":
                        continue
                    if boundary(g):
                        stops.add(g.path)
                        continue
                    work.append((g, chain + (f.path,)))
    return seen, stops


def is_len(t):
    for _ in range(10):
        if t.op == "cast":
            t = t.a[1]
        elif t.op in ("conv", "mut"):
            t = t.a[-1]
        else:
            break
    return t.op == "call" and t.a[2] == "len"


def arithmetic(prog, f, bb, F):
    """Can this overflow / division check be discharged?"""
    t = f.bbs[bb]["term"]
    k = t.get("kind")
    if k in ("align", "null") or bb not in F.inn:
        return True
    st = F.state_at_term(bb)
    if k in ("rem0", "div0"):
        c = F.op(st, t["cond"])
        return c.op == "bin" and c.a[0] == "Eq" and all(fixed(x) for x in c.a[1:])
    if k != "overflow" or "a" not in t or "b" not in t:
        return False
    x, y = F.op(st, t["a"]), F.op(st, t["b"])
    if t["op"] == "Add":
        return y.op == "const" or x.op == "const"        # a counter of things in memory, or a number that was widened
    if t["op"] == "Sub":
        if is_len(x) and is_len(y):
            return True                                  # what is left of a buffer is not longer than the buffer; a vector only grew
        return y.op == "bin" and y.a[0] == "Rem" and flow.show(y.a[2], 8) == flow.show(x, 8) or guarded(F, bb, x, y)
    return False


def guarded(F, bb, x, y):
    """Has a branch on the way here established y <= x?"""
    B = F.body
    X, Y = flow.show(x, 8), flow.show(y, 8)
    for d in B.reachable():
        t = B.bbs[d]["term"]
        if t["t"] != "switch" or d not in F.inn or not B.dominates(d, bb):
            continue
        c = F.op(F.state_at_term(d), t["op"])
        if c.op != "bin" or c.a[0] not in ("Lt", "Le", "Gt", "Ge"):
            continue
        o, u, v = c.a[0], flow.show(c.a[1], 8), flow.show(c.a[2], 8)
        if (u, v) == (X, Y):
            true_ok, false_ok = o in ("Gt", "Ge"), o in ("Lt",)
        elif (u, v) == (Y, X):
            true_ok, false_ok = o in ("Lt", "Le"), o in ("Gt",)
        else:
            continue
        zero = [to for k, to in t["targets"] if int(k) == 0]
        for to in ([t["otherwise"]] if true_ok else []) + (zero if false_ok else []):
            if B.dominates(to, bb) and sum(1 for p in B.reachable() if to in mir.term_succ(B.bbs[p]["term"])) == 1:
                return True
    return False


def fixed(t):
    return not any(z.op in ("param", "call", "phi", "top") for z in flow.subterms(t))


def no_panic(ctx, prog):
    seen, stops = reach(prog)
    ctx.count("entry points", len(list(entries(prog))))
    for q in sorted(seen):
        f = prog.fns[q]
        ctx.count("functions reachable from a reader")
        ctx.sample("functions", q, cap=700)
        F = None
        for i, bb in enumerate(f.bbs):
            if bb.get("cl"):
                continue
            t = bb["term"]
            what = None
            if t["t"] == "assert":
                F = F or flow.Flow(prog, mir.Body(f, f.locals, f.bbs, f.argc))
                ctx.count("arithmetic and bounds checks")
                if not arithmetic(prog, f, i, F):
                    what = {"overflow": "arithmetic overflow", "bounds": "an index out of bounds"}.get(t.get("kind"), t.get("kind"))
            elif t["t"] == "call":
                c = callee_of(t)
                if c:
                    ctx.count("calls")
                    w = panics(c) or unchecked(c)
                    if c["name"] in LOSSY:
                        ctx.violation("lossy:" + q, "%s replaces what it cannot decode instead of refusing it" % q, f.where(t.get("ln")))
                    if w and not excused(prog, f, i, w):
                        what = w
            if what:
                short = ".".join(head(x) for x in (q.split("::")[-1],))
                ctx.violation("panic:%s:%s" % (q, what), "%s can panic (%s) while reading; reached through %s" % (
                    q, what, " -> ".join(x.split("::")[-1] for x in seen[q])), f.where(t.get("ln")))
    ctx.sample("boundary", "; ".join(sorted(x.split("::")[-1] for x in stops))[:1500])


def excused(prog, f, bb, w):
    t = f.bbs[bb]["term"]
    if w in ("assert_failed", "panic", "panic_fmt", "assert_failed_inner"):
        # debug_assert: guarded by cfg!(debug_assertions), a constant
        return debug_only(f, bb)
    if w == "indexing":
        return long_enough(prog, f, bb)
    if w in ("get_unchecked_mut", "get_unchecked") and f.name == "from_parsed_fst_text":
        return in_states(prog, f, bb)
    return False


def long_enough(prog, f, bb):
    """An index by a number below a length that was tested on the way here."""
    F = flow.Flow(prog, mir.Body(f, f.locals, f.bbs, f.argc))
    if bb not in F.calls:
        return bb not in F.inn
    a = F.calls[bb][1]
    if len(a) < 2 or a[1].op != "const" or not str(a[1].a[1]).isdigit():
        return False
    k = int(a[1].a[1])
    B = F.body
    for d in B.reachable():
        t = B.bbs[d]["term"]
        if t["t"] != "switch" or d not in F.inn or not B.dominates(d, bb):
            continue
        c = F.op(F.state_at_term(d), t["op"])
        least = {}
        if is_len(c):
            for n, to in t["targets"]:
                least[to] = int(n)
        elif c.op == "bin" and is_len(c.a[1]) and c.a[2].op == "const" and str(c.a[2].a[1]).isdigit():
            m = int(c.a[2].a[1])
            zero = [to for n, to in t["targets"] if int(n) == 0][0]
            o = c.a[0]
            if o in ("Eq", "Ge"):
                least[t["otherwise"]] = m
            elif o == "Gt":
                least[t["otherwise"]] = m + 1
            elif o in ("Lt", "Ne"):
                least[zero] = m
            elif o == "Le":
                least[zero] = m + 1
        elif c.op == "call" and c.a[2] == "is_empty":
            least[[to for n, to in t["targets"] if int(n) == 0][0]] = 1
        for to, m in least.items():
            if m > k and B.dominates(to, bb) and sum(1 for p in B.reachable() if to in mir.term_succ(B.bbs[p]["term"])) == 1:
                return True
    return False


def debug_only(f, bb):
    """Only reachable through a branch on the runtime-checks constant."""
    b = mir.Body(f, f.locals, f.bbs, f.argc)
    doms = [d for d in b.reachable() if b.dominates(d, bb)]
    for d in doms:
        t = f.bbs[d]["term"]
        if t["t"] != "switch":
            continue
        o = t["op"]
        for s in reversed(f.bbs[d]["st"]):
            if s["s"] == "=" and o.get("k") in ("move", "copy") and s["pl"] == {"l": o["pl"]["l"]}:
                o = s["rv"].get("op", {}) if s["rv"]["r"] == "use" else s["rv"]
                break
        if isinstance(o, dict) and o.get("k") == "const" or isinstance(o, dict) and o.get("r") in ("null", "nullary"):
            return True
    return False


def in_states(prog, f, bb):
    """The states were resized to the number of states of the parsed text, which covers every state the text names; the index is the
    state of a parsed row."""
    F = flow.Flow(prog, mir.inline(prog, f, lambda g, c, s: False))
    if bb not in F.calls:
        return False
    a = F.calls[bb][1]
    idx = a[1]
    ok = False
    x = idx
    while x.op in ("cast", "deref"):
        x = x.a[1] if x.op == "cast" else x.a[0]
    if x.op == "field" and x.a[1] == "state":
        ok = any(z.op == "field" and z.a[1] == "final_states" or z.op == "call" and z.a[2] == "next" for z in flow.subterms(x))
    sized = any(c and c["name"] in ("resize_with", "resize") and len(v) > 1 and v[1].op == "call" and v[1].a[2] == "num_states" for c, v in F.calls.values())
    return ok and sized and not num_states_gaps(prog)


def num_states_gaps(prog):
    """The state-naming parts of a parsed text that its number of states does not take into account."""
    f = next((f for f in prog.fns.values() if f.crate == "rustfst" and f.name == "num_states" and head(f.impl_self) == "ParsedTextFst"), None)
    if f is None:
        return ["ParsedTextFst::num_states"]
    reads = set()
    todo = [f]
    seen = set()
    while todo:
        g = todo.pop()
        if g.path in seen:
            continue
        seen.add(g.path)
        F = flow.Flow(prog, mir.inline(prog, g, want))
        for b, v in F.rets.items():
            for z in flow.reach_terms(F, b, v):
                if z.op == "agg" and z.a[0].startswith("closure:") and z.a[0][8:] in prog.fns:
                    todo.append(prog.fns[z.a[0][8:]])
                elif z.op == "field":
                    reads.add((owner(g, F, z.a[0]), str(z.a[1])))
                elif z.op == "ref" and not isinstance(z.a[0], int):
                    for k in z.a[1]:
                        if isinstance(k, str):
                            reads.add((owner(g, F, z.a[0][1]), k))
    fields = {k for _, k in reads}
    missing = [k for k in ("transitions", "final_states", "start_state", "nextstate") if k not in fields]
    # the state of a transition and the state of a final row are different fields of the same name
    owners = {o for o, k in reads if k == "state"}
    if not {"Transition", "FinalState"} <= owners:
        missing += ["state of " + o for o in ("Transition", "FinalState") if o not in owners]
    return missing


def owner(g, F, t):
    while t.op in ("deref", "clone"):
        t = t.a[0]
    if t.op == "param":
        return head(mir.strip_refs(g.locals[t.a[0]]))
    return ""


# ------------------------------------------------------------------ (2)
def finishers(prog):
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate != "rustfst" or not f.bbs or f.kind == "Closure" or is_iresult(f.ret):
            continue
        for b, t in f.calls():
            if not t["dst"].get("p") and is_iresult(f.locals[t["dst"]["l"]], "&str"):
                yield f
                break


def is_iresult(ty, of=None):
    if not ty.startswith("core::result::Result<(&") or "nom::" not in ty:
        return False
    return of is None or ty.startswith("core::result::Result<(&") and "str," in ty.split("(", 1)[1][:30]


def remainder(ctx, prog):
    n = 0
    for f in finishers(prog):
        n += 1
        F = inlined(prog, f)

        def of_rest(t, d=0):
            """Is this (a trimmed part of) what a parser left over?"""
            for _ in range(30):
                if t.op == "call" and t.a[2] in ("trim", "trim_end", "trim_start", "trim_matches", "as_bytes", "as_str", "deref", "as_ref", "chars", "lines",
                                                 "trim_end_matches", "trim_start_matches", "strip_suffix", "unwrap_or", "bytes", "split_whitespace") and t.a[3]:
                    t = t.a[3][0]
                elif t.op in ("deref", "clone"):
                    t = t.a[0]
                elif t.op == "ref":
                    x = sccp.strip(F, max(F.inn), t)
                    if x is t:
                        return False
                    t = x
                else:
                    break
            return t.op == "field" and str(t.a[1]) == "0" and any(z.op == "call" and z.a[2] not in ("branch",) for z in flow.subterms(t)) \
                or t.op == "vf"

        def leaf(t):
            if t.op == "call" and t.a[3]:
                n, a = t.a[2], t.a[3]
                if n == "is_empty" and of_rest(a[0]):
                    return 0
                if n == "len" and of_rest(a[0]):
                    return 1
                if n in ("all",) and of_rest(sccp.strip(F, t.a[1], a[0])):
                    return 0
                if n in ("any",) and of_rest(sccp.strip(F, t.a[1], a[0])):
                    return 1
                if n in ("eq", "ne") and any(of_rest(sccp.strip(F, t.a[1], x)) for x in a):
                    return int(n == "ne")
                if n == "next" and of_rest(sccp.strip(F, t.a[1], a[0])):
                    return ("v", "Some")
            if t.op == "call" and any(z.op == "call" and z.a[2] == "all_consuming" for z in flow.subterms(t)):
                return ("v", "Err") if "Result" in ty_of(F, t) else None
            return None
        S = sccp.Spec(prog, F, leaf)
        ctx.sample("text parsers", f.path)
        if bad_returns(F, S):
            ctx.violation("remainder:" + f.path, "%s reports success although part of the text was not parsed" % f.path, f.where())
    ctx.count("finished text parsers", n)


def ty_of(F, t):
    if t.op == "call":
        d = F.body.bbs[t.a[1]]["term"].get("dst")
        if d and not d.get("p"):
            return F.body.locals[d["l"]]
    return ""


def bad_returns(F, S):
    return [b for b in S.ok_returns() if b not in F.rets or S.variant(b, F.rets[b]) != "Err"]


# ------------------------------------------------------------------ (3) and (4)
def elem(F, b, t):
    """The element type of the container a length is taken of."""
    for _ in range(12):
        if t.op == "ref" and isinstance(t.a[0], int):
            ty = F.body.locals[t.a[0]]
            if not t.a[1]:
                return ty
            x = sccp.strip(F, b, t)
            if x is t:
                return ty
            t = x
        elif t.op == "call" and t.a[2] in ("deref", "as_slice", "as_ref", "trs") and t.a[3]:
            t = t.a[3][0]
        elif t.op in ("deref", "clone"):
            t = t.a[0]
        else:
            return None
    return None


class World:
    """One way a file can be inconsistent."""

    def __init__(self, prog, F, fields=None, labels=None, sizes=(None, None)):
        self.N, self.T = sizes
        self.prog, self.F = prog, F
        self.fields = fields or {}
        self.labels = labels
        self.S = None
        self.forced = {}
        self.header = {}
        self.used = 0

    def leaf(self, t):
        if t.op == "call" and t.a[1] in self.forced and t.a[2] == "next":
            return ("v", "Some")
        if t.op == "field" and isinstance(t.a[1], str) and t.a[1] in self.fields:
            self.used += 1
            return self.fields[t.a[1]]
        if t.op == "field" and t.a[1] == "num_states":
            return self.N
        if t.op == "field" and t.a[1] == "num_trs":
            return self.T
        if t.op == "cast":
            v = self.S.value(0, t.a[1]) if self.S else None
            if isinstance(v, int):
                ty = str(t.a[0]) + str(t.a[2:] if len(t.a) > 2 else "")
                for w, bits in (("usize", 64), ("u64", 64), ("u32", 32)):
                    if ty.endswith(w) or w in ty:
                        return v % (1 << bits)
                return v
            return None
        if t.op == "const" and isinstance(t.a[1], (int, str)) and str(t.a[0]).startswith("i"):
            v = int(t.a[1]) if str(t.a[1]).lstrip("-").isdigit() else None
            if v is not None:
                bits = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64}.get(str(t.a[0]), 0)
                return v - (1 << bits) if bits and v >= 1 << (bits - 1) else v
        if t.op == "call":
            n, a, cb = t.a[2], t.a[3], t.a[1]
            if n == "len" and a:
                e = elem(self.F, cb, a[0]) or ""
                e = mir.strip_refs(e)
                if "State<" in e or "State>" in e:
                    return self.N
                if "Tr<" in e:
                    return self.T
            if n in ("any", "all") and len(a) == 2 and self.S is not None and whole(self.F, cb, a[0]):
                return self.closure(cb, a[1])
            if n in ("try_for_each",) and len(a) == 2 and self.S is not None and whole(self.F, cb, a[0]):
                v = self.closure(cb, a[1], True)
                return ("v", v) if v == "Err" else None
            if n in ("find", "position", "rposition") and len(a) == 2 and self.S is not None and whole(self.F, cb, a[0]):
                v = self.closure(cb, a[1])
                return ("v", "Some" if v else "None") if v in (0, 1) else None
            if n in ("checked_add", "checked_sub") and len(a) == 2 and self.S is not None:
                x, y = self.S.value(cb, a[0]), self.S.value(cb, a[1])
                if isinstance(x, int) and isinstance(y, int):
                    r = x + y if n == "checked_add" else x - y
                    return ("v", "Some" if 0 <= r < BIG else "None")
            if n in ("saturating_add", "wrapping_add", "saturating_sub", "wrapping_sub") and len(a) == 2 and self.S is not None:
                x, y = self.S.value(cb, a[0]), self.S.value(cb, a[1])
                if isinstance(x, int) and isinstance(y, int):
                    r = x + y if n.endswith("add") else x - y
                    return r % BIG if n.startswith("wrapping") else max(0, min(r, BIG - 1))
            if n in ("try_from", "try_into") and a and self.S is not None:
                v = self.S.value(cb, a[0])
                if isinstance(v, int):
                    ty = ty_of(self.F, t)
                    hi = (1 << 32) if "Result<u32" in ty else BIG
                    return ("v", "Ok" if 0 <= v < hi else "Err")
            if n == "contains" and len(a) == 2 and self.S is not None:
                v = self.S.value(cb, a[1])
                r = sccp.strip(self.F, cb, a[0])
                if isinstance(v, int) and r.op == "agg" and len(r.a[3]) == 2 or r.op == "call" and "Range" in ty_of(self.F, r) and len(r.a[3]) == 2:
                    args = r.a[3]
                    lo, hi = self.S.value(cb, args[0]), self.S.value(cb, args[1])
                    if isinstance(lo, int) and isinstance(hi, int) and isinstance(v, int):
                        return int(lo <= v < hi) if r.op == "agg" else int(lo <= v <= hi)
        if t.op in ("vf", "payload") and self.S is not None:
            # the payload of a checked operation
            x = t.a[0]
            if x.op == "call" and x.a[2] in ("checked_add", "checked_sub", "try_from", "try_into"):
                vs = [self.S.value(x.a[1], y) for y in x.a[3]]
                if all(isinstance(v, int) for v in vs):
                    if x.a[2] == "checked_add":
                        return vs[0] + vs[1]
                    if x.a[2] == "checked_sub":
                        return vs[0] - vs[1]
                    return vs[0]
        if t.op == "bin" and t.a[0] in ("Add", "Sub", "AddWithOverflow", "AddUnchecked") and self.S is not None:
            x, y = self.S.value(0, t.a[1]), self.S.value(0, t.a[2])
            if isinstance(x, int) and isinstance(y, int):
                return (x + y if t.a[0].startswith("Add") else x - y) % BIG
        if self.labels and t.op == "bin" and t.a[0] in ("Eq", "Ne") and self.labels(self.F, t):
            self.used += 1
            return int(t.a[0] == "Ne")
        if self.header:
            return self.header_leaf(t)
        return None

    def header_leaf(self, t):
        x = self.header["term"]
        if t.op == "call" and t.a[1] == self.header["block"] and t.a[2] in ("call", "call_mut", "call_once"):
            y = sccp.strip(self.F, t.a[1], t.a[3][0])
            if y.op == "call" and y.a[2] == "verify":
                v = self.closure(y.a[1], y.a[3][1], mismatch=True)
                if v == 0:
                    self.used += 1
                    return ("v", "Err")
        if t.op == "bin" and t.a[0] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            for i in (1, 2):
                if any(z is x for z in flow.subterms(t.a[i])):
                    self.used += 1
                    return order(t.a[0], self.header["cmp"] if i == 1 else -self.header["cmp"])
        if t.op == "call" and t.a[2] in ("eq", "ne") and any(any(z is x for z in flow.subterms(sccp.strip(self.F, t.a[1], y))) for y in t.a[3]):
            self.used += 1
            return int(t.a[2] == "ne")
        return None

    def closure(self, b, cl, variant=False, mismatch=False):
        """The value a closure returns in this world."""
        cl = sccp.strip(self.F, b, cl)
        if cl.op != "agg" or not cl.a[0].startswith("closure:"):
            return None
        g = self.prog.fns.get(cl.a[0][8:])
        if g is None:
            return None
        G = flow.Flow(self.prog, mir.inline(self.prog, g, want))
        caps = dict(zip([str(x) for x in cl.a[2]], cl.a[3]))
        inner = World(self.prog, G, self.fields, sizes=(self.N, self.T))
        if mismatch:
            cmp_ = self.header["cmp"]

            def leaf(t):
                if t.op == "bin" and t.a[0] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                    for i in (1, 2):
                        p = sccp.path(t.a[i])
                        if p and p[0] == 2 and not p[1]:
                            return order(t.a[0], cmp_ if i == 1 else -cmp_)
                if t.op == "call" and t.a[2] in ("eq", "ne") and any(mentions_param(G, t.a[1], y, 2) for y in t.a[3]):
                    return int(t.a[2] == "ne")
                return None
        else:
            def leaf(t):
                p = sccp.path(t)
                if p and p[0] == 1 and p[1] and str(p[1][0]) in caps and len(p[1]) == 1:
                    v = self.S.value(b, caps[str(p[1][0])])
                    if isinstance(v, int):
                        return v
                r = inner.leaf(t)
                return r
        S = sccp.Spec(self.prog, G, leaf)
        inner.S = S
        S = sccp.Spec(self.prog, G, leaf)
        inner.S = S
        self.used += inner.used
        if variant:
            vs = {S.variant(x, v) for x, v in G.rets.items() if x in S.blocks}
        else:
            vs = {S.value(x, v) for x, v in G.rets.items() if x in S.blocks}
        return vs.pop() if len(vs) == 1 else None

    def run(self):
        """Can the function succeed?"""
        self.S = None
        self.S = sccp.Spec(self.prog, self.F, self.leaf)
        self.S = sccp.Spec(self.prog, self.F, self.leaf)
        hs = list(loops(self.F))
        while True:
            new = [h for h in hs if h not in self.forced and h in self.S.blocks and not comes_back(self.F, self.S, h)]
            if not new:
                break
            self.forced.update((h, True) for h in new)
            self.S = sccp.Spec(self.prog, self.F, self.leaf)
        return bad_returns(self.F, self.S)


def mentions_param(F, b, t, i):
    t = sccp.strip(F, b, t)
    return any(z.op == "param" and z.a[0] == i for z in flow.subterms(t))


def order(op, c):
    return int({"Eq": c == 0, "Ne": c != 0, "Lt": c < 0, "Le": c <= 0, "Gt": c > 0, "Ge": c >= 0}[op])


def whole(F, b, it):
    """Does this iterator go over all of a container?"""
    t = sccp.strip(F, b, it)
    for _ in range(20):
        if t.op == "call":
            if t.a[2] in NARROW:
                return False
            if t.a[2] not in FULL or not t.a[3]:
                return True          # a container made by a call
            t = sccp.strip(F, t.a[1], t.a[3][0]) if t.a[3][0].op == "ref" else t.a[3][0]
        elif t.op in ("deref", "clone", "field", "vf", "cast", "mut", "upd"):
            t = t.a[0] if t.op != "cast" else t.a[1]
            if not isinstance(t, flow.T):
                return False
        elif t.op == "ref":
            x = sccp.strip(F, b, t)
            if x is t:
                return True
            t = x
        elif t.op == "agg" and "Range" in t.a[0]:
            lo, hi = t.a[3][0], t.a[3][1]
            return lo.op == "const" and str(lo.a[1]) == "0" and (is_len(hi) or hi.op == "field" or hi.op == "cast")
        elif t.op == "phi":
            # an iterator that is advanced in a loop: what it was made from
            vs = [v for v in F.phis.get(t.a, {}).values() if v.op != "phi" and not (v.op in ("mut", "upd"))]
            if len(vs) != 1:
                return False
            t = vs[0]
        else:
            return t.op in ("param", "const", "payload", "agg")
    return False


def loops(F):
    """Blocks that advance an iterator over a whole container in a loop."""
    for b, (c, a) in sorted(F.calls.items()):
        if c and c["name"] == "next" and a:
            first = None
            t = sccp.strip(F, b, a[0])
            if whole(F, b, a[0]) or t.op == "call" and whole(F, t.a[1], t):
                yield b


def comes_back(F, S, h):
    """In this world, does an element let the loop go on (or the function succeed)?"""
    errs = sccp.err_blocks(F)
    sw = None
    for x, y in S.edges:
        if x == h:
            sw = y
    if sw is None:
        return True
    t = F.body.bbs[sw]["term"]
    if t["t"] != "switch":
        return True
    some = [to for k, to in t["targets"] if int(k) == 1] or [t["otherwise"]]
    seen, work = set(), list(some)
    while work:
        x = work.pop()
        if x == h:
            return True
        if x in seen or x in errs:
            continue
        seen.add(x)
        if F.body.bbs[x]["term"]["t"] == "return":
            if x not in F.rets or S.variant(x, F.rets[x]) != "Err":
                return True
        work += [y for z, y in S.edges if z == x]
    return False


def binary(ctx, prog):
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate != "rustfst" or not f.bbs or f.kind == "Closure" or "{closure" in f.path:
            continue
        h = head(f.impl_self)
        if not (f.name == "load" and h in ("VectorFst", "ConstFst") or f.name == "read_from_const" and h == "VectorFst"):
            continue
        F = inlined(prog, f)
        who = "%s::%s" % (h, f.name)
        worlds = []
        for N, T in SIZES:
            worlds += [("start", "the start state is not a state of the FST", {"start": v}, N, None) for v in (N, N + 1, -2)]
            if T:
                worlds += [("nextstate", "a transition leads to a state that does not exist", {"nextstate": v}, N, None) for v in (N, N + 1, (1 << 32) - 1)]
            if h == "ConstFst" and N:
                worlds += [("range", "the transitions of a state are not among those of the FST", {"pos": p, "ntrs": n}, N, T)
                           for p, n in ((T - 1, 2), (T + 1, 0), (0, T + 1), (BIG - 1, 1), (1, BIG - 1))]
        told = set()
        for k, what, fields, n, t in worlds:
            w = World(prog, F, fields, sizes=(n, t))
            ctx.count("inconsistent files")
            if w.run() and k not in told:
                told.add(k)
                ctx.violation("%s.%s" % (who, k), "%s can succeed although %s" % (who, what), f.where())
        ctx.sample("readers", "%s: %d blocks" % (who, len(F.body.bbs)))
        ctx.count("readers")


def headers(ctx, prog):
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate != "rustfst" or f.name != "parse" or head(f.impl_self) != "FstHeader" or not f.bbs:
            continue
        F = inlined(prog, f)
        agg = None
        for b in sorted(F.inn):
            st = dict(F.inn[b])
            for s in F.body.bbs[b]["st"]:
                if s["s"] != "=":
                    continue
                v = F.rv(st, s["rv"], b)
                if s["rv"]["r"] == "agg" and s["rv"].get("adt", "").endswith("FstHeader"):
                    agg = v
                cell, path = F.place(st, s["pl"])
                F.write(st, cell, path, v)
        if agg is None:
            raise mir.Missing("the header built by FstHeader::parse")
        terms = dict(zip(agg.a[2], agg.a[3]))
        for k, what, cmps in (("magic_number", "the magic number is another one", (-1, 1)), ("fst_type", "the file holds another type of FST", (-1,)),
                              ("tr_type", "the transitions have another type", (-1,)), ("version", "the version is older than supported", (-1,))):
            t = terms.get(k)
            if t is None:
                raise mir.Missing("FstHeader.%s" % k)
            blk = next((z.a[1] for z in flow.subterms(t) if z.op == "call" and z.a[2] in ("call", "call_mut", "call_once")), None)
            for c in cmps:
                w = World(prog, F)
                w.header = {"term": t, "block": own_block(t), "cmp": c}
                ctx.count("header fields refused")
                if w.run():
                    ctx.violation("header." + k, "a binary FST is accepted although %s" % what, f.where())
                    break


def own_block(t):
    """The block of the call whose success this value is."""
    for _ in range(10):
        if t.op in ("field", "vf", "deref", "cast"):
            t = t.a[0] if t.op != "cast" else t.a[1]
        elif t.op == "call":
            return t.a[1]
        else:
            return None
    return None


def symbols(ctx, prog):
    INSERT = ("add_symbol", "get_id_or_insert")

    def clash(F, t):
        def made(x):
            while x.op in ("cast", "deref", "clone"):
                x = x.a[1] if x.op == "cast" else x.a[0]
            return x.op == "call" and x.a[2] in INSERT or x.op == "call" and x.a[2] == "len"

        def row(x):
            if x.op == "cast" and narrow(F, x):
                return False
            while x.op in ("cast", "deref", "clone"):
                x = x.a[1] if x.op == "cast" else x.a[0]
            return any(z.op == "call" and z.a[2] == "next" for z in flow.subterms(x)) and not made(x)
        return made(t.a[1]) and row(t.a[2]) or made(t.a[2]) and row(t.a[1])

    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate != "rustfst" or not f.bbs or f.kind == "Closure" or "{closure" in f.path:
            continue
        if not (head(f.impl_self) == "SymbolTable" and f.name in ("read", "read_text", "from_text_string")):
            continue
        F = inlined(prog, f)
        w = World(prog, F, labels=clash)
        ctx.count("symbol table readers")
        if w.run():
            ctx.violation("symbols." + f.name, "SymbolTable::%s can succeed although a label of the file is not the position of its symbol" % f.name, f.where())


def narrow(F, x):
    """A cast that drops part of a 64-bit key."""
    ty = str(x.a[0])
    return ty in ("u32", "i32", "u16", "i16", "u8", "i8") and src64(F, x.a[1])


def src64(F, t):
    # labels of a binary table are 64-bit numbers
    return any(z.op == "call" and z.a[2] == "next" for z in flow.subterms(t)) and any(
        "(i64," in l or l == "i64" for l in F.body.locals)


def run(ctx):
    prog = ctx.prog
    no_panic(ctx, prog)
    gaps = num_states_gaps(prog)
    if gaps:
        ctx.violation("num_states", "the number of states of a parsed text does not take %s into account" % ", ".join(gaps), "rustfst/src/parsers/text_fst/parsed_text_fst.rs")
    remainder(ctx, prog)
    binary(ctx, prog)
    headers(ctx, prog)
    symbols(ctx, prog)
    ctx.floor("entry points", 30)
    ctx.floor("functions reachable from a reader", 150)
    ctx.floor("finished text parsers", 2)
    ctx.floor("readers", 3)
    ctx.floor("symbol table readers", 3)
