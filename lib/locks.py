"""Lock analysis: which guards are alive at each call, and which locks a call may take.

A lock class is the field that holds the Mutex/RwLock/RefCell (Type.field). Guards are tracked
through moves, Result/Option wrapping and drops with a forward dataflow; what a call may acquire is
the transitive closure over the call graph (class hierarchy analysis for trait methods)."""
import re

import mir
from mir import callee_of, strip_refs

ACQ = {
    ("lock", "std::sync"), ("try_lock", "std::sync"), ("read", "RwLock"), ("write", "RwLock"),
    ("borrow", "RefCell"), ("borrow_mut", "RefCell"), ("try_borrow", "RefCell"), ("try_borrow_mut", "RefCell"),
}
GUARD = re.compile(r"(MutexGuard|RwLockReadGuard|RwLockWriteGuard|cell::Ref<|cell::RefMut<)")

# traits of element types: a table's key or weight type is assumed not to lock the table it is in
ELEMENT_TRAITS = ("core::cmp::", "core::clone::", "core::hash::", "core::fmt::", "core::default::", "core::convert::")


def is_acquire(c):
    if not c:
        return False
    s = c.get("impl_self", "") or ""
    n = c["name"]
    if n in ("lock", "try_lock") and ("Mutex<" in s or s.endswith("Mutex")):
        return True
    if n in ("read", "write", "try_read", "try_write") and "RwLock<" in s:
        return True
    if n in ("borrow", "borrow_mut", "try_borrow", "try_borrow_mut") and "RefCell<" in s:
        return True
    return False


def lock_class(fn, body_locals, bbs, b, t):
    """Type.field of the lock a call acquires."""
    a = t["args"][0]
    if a["k"] not in ("copy", "move"):
        return "?"
    want = a["pl"]["l"]
    seen = set()
    while want not in seen:
        seen.add(want)
        found = None
        for bb in bbs:
            for s in bb["st"]:
                if s["s"] == "=" and s["pl"]["l"] == want and not s["pl"].get("p"):
                    found = s["rv"]
            tt = bb["term"]
            if tt["t"] == "call" and tt["dst"]["l"] == want and not tt["dst"].get("p"):
                found = {"call": tt}
        if found is None:
            break
        pl = None
        if "call" in found:
            # deref of an Arc etc.
            if found["call"]["args"] and found["call"]["args"][0]["k"] in ("copy", "move"):
                pl = found["call"]["args"][0]["pl"]
        elif "pl" in found:
            pl = found["pl"]
        elif "op" in found and isinstance(found["op"], dict) and found["op"]["k"] in ("copy", "move"):
            pl = found["op"]["pl"]
        if pl is None:
            break
        for e in reversed(pl.get("p", [])):
            if isinstance(e, dict) and e.get("n") and e.get("o") and not e["o"].startswith(("alloc::", "core::", "std::")):
                return "%s.%s" % (e["o"].split("::")[-1], e["n"])
        want = pl["l"]
    c = callee_of(t)
    return "type " + (c["args"][0] if c["args"] else "?")


def shared(c):
    """A shared (read) acquisition, which tolerates other shared ones (RefCell)."""
    return c["name"] in ("borrow", "try_borrow")


def is_mutex(c):
    return c["name"] not in ("borrow", "try_borrow", "borrow_mut", "try_borrow_mut")


class Locks:
    def __init__(self, prog):
        self.prog = prog
        self.direct = {}
        self.sites = []
        for f in prog.fns.values():
            for b, t in f.calls():
                c = callee_of(t)
                if is_acquire(c):
                    k = self.cls(f, f.locals, f.bbs, b, t)
                    self.direct.setdefault(f.path, set()).add(k)
                    self.sites.append((f, b, t, k))
        self.edges = {}
        for f in prog.fns.values():
            out = set()
            for b, t in f.calls():
                for g in self.targets(f, t):
                    out.add(g.path)
            # closures defined here may be run by whatever they are passed to
            for bb in f.bbs:
                if bb.get("cl"):
                    continue
                for s in bb["st"]:
                    if s["s"] == "=" and s["rv"]["r"] == "agg" and s["rv"].get("kind") == "closure":
                        out.add(s["rv"]["def"])
            self.edges[f.path] = out
        self._may = None

    def cls(self, f, locs, bbs, b, t):
        k = lock_class(f, locs, bbs, b, t)
        return k + (" (shared)" if shared(callee_of(t)) else "")

    def targets(self, f, t, held_types=()):
        c = callee_of(t)
        if c is None:
            return []
        if c.get("param") and held_types:
            p = c.get("self", "")
            if re.fullmatch(r"\w+", p) and any(re.search(r"\b%s\b" % p, h) for h in held_types):
                return []  # a method of an element of the locked table
        if c.get("trait", "").startswith(ELEMENT_TRAITS) and (c.get("param") or mir._is_generic(c.get("self", ""))):
            return []
        out = self.prog.candidates(c)
        if c.get("param") and f.impl_trait and c.get("trait") == f.impl_trait and len(out) > 1:
            # a wrapper forwarding to the type it wraps does not reach itself (types are finite),
            # nor the wrapper impl for smart pointers
            out = [g for g in out if g.impl_self != f.impl_self]
        return out

    def may(self):
        """fn path -> {lock class: one call path}"""
        if self._may is None:
            m = {p: {k: (p,) for k in ks} for p, ks in self.direct.items()}
            rev = {}
            for p, out in self.edges.items():
                for q in out:
                    rev.setdefault(q, set()).add(p)
            work = list(m)
            while work:
                q = work.pop()
                for p in rev.get(q, ()):
                    d = m.setdefault(p, {})
                    ch = False
                    for k, pth in m[q].items():
                        if k not in d:
                            d[k] = (p,) + pth
                            ch = True
                    if ch:
                        work.append(p)
            self._may = m
        return self._may

    def held(self, f, body=None):
        """Yields (block, terminator, {local: set of lock classes}) with the guards alive before
        each call/drop terminator."""
        bbs = body.bbs if body else f.bbs
        locs = body.locals if body else f.locals
        B = body or mir.Body(f, f.locals, f.bbs, f.argc)
        may = self.may()
        inn = {0: {}}
        order = B.rpo()
        at = {}
        ch = True
        while ch:
            ch = False
            for b in order:
                if b not in inn:
                    continue
                st = {k: set(v) for k, v in inn[b].items()}
                bb = bbs[b]
                for s in bb["st"]:
                    if s["s"] == "=":
                        self._assign(st, s, locs)
                    elif s["s"] == "dead":
                        st.pop(s["l"], None)
                t = bb["term"]
                at[b] = {k: set(v) for k, v in st.items()}
                if t["t"] == "drop":
                    if not t["pl"].get("p"):
                        st.pop(t["pl"]["l"], None)
                elif t["t"] == "call":
                    moved = set()
                    for a in t["args"]:
                        if a["k"] == "move":
                            l = a["pl"]["l"]
                            if l in st and not self._is_ref(locs[l]):
                                moved |= st.pop(l)
                    d = t["dst"]["l"]
                    c = callee_of(t)
                    if GUARD.search(locs[d]):
                        ks = set(moved)
                        if is_acquire(c):
                            ks.add(self.cls(f, locs, bbs, b, t))
                        else:
                            for g in self.targets(f, t) if c else []:
                                if GUARD.search(g.ret):
                                    ks |= set(may.get(g.path, {}))
                        if ks:
                            st[d] = ks
                for q in B.succ(b):
                    old = inn.get(q)
                    if old is None:
                        inn[q] = {k: set(v) for k, v in st.items()}
                        ch = True
                    else:
                        for k, v in st.items():
                            if not v <= old.get(k, set()):
                                old.setdefault(k, set()).update(v)
                                ch = True
        for b in order:
            if b in at:
                yield b, bbs[b]["term"], at[b]

    def _is_ref(self, ty):
        return ty.startswith("&")

    def _assign(self, st, s, locs):
        rv = s["rv"]
        d = s["pl"]["l"]
        srcs = []
        if rv["r"] in ("use", "cast") and rv["op"]["k"] == "move":
            srcs = [rv["op"]["pl"]]
        elif rv["r"] == "agg":
            srcs = [o["pl"] for o in rv["ops"] if o["k"] == "move"]
        ks = set()
        for pl in srcs:
            l = pl["l"]
            if l in st and not self._is_ref(locs[l]):
                ks |= st.pop(l)
        if ks and GUARD.search(locs[d]):
            st.setdefault(d, set()).update(ks)
