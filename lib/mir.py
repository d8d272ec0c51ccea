"""Program model over the facts: functions, call resolution (with generic substitution and class
hierarchy analysis), control-flow graphs, and inlining of workspace functions into one body."""
import glob
import json
import os
import re
import sys

import facts

sys.setrecursionlimit(100000)


# ----------------------------------------------------------------------------- types as text
def split_args(s):
    """Splits 'A, B<C, D>, (E, F)' at top-level commas."""
    out, depth, cur = [], 0, ""
    i = 0
    while i < len(s):
        c = s[i]
        if c in "<([{":
            depth += 1
        elif c in ")]}":
            depth -= 1
        elif c == ">" and not (i > 0 and s[i - 1] in "-="):
            depth -= 1
        if c == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


def ty_head(t):
    """'a::b::C<X, Y>' -> ('a::b::C', ['X', 'Y'])"""
    t = t.strip()
    if t.startswith("<") or not t.endswith(">"):
        return t, []
    i = t.find("<")
    if i < 0:
        return t, []
    return t[:i].rstrip(":"), split_args(t[i + 1:-1])


def strip_refs(t):
    t = t.strip()
    while True:
        m = re.match(r"^(&('[a-z_0-9]+ )?(mut )?|\*const |\*mut )", t)
        if not m:
            return t
        t = t[m.end():].strip()


_ident = re.compile(r"(?<![\w:'])([A-Za-z_]\w*)(?![\w:])(?!::)")


def subst_ty(t, m):
    if not m or not isinstance(t, str):
        return t
    return _ident.sub(lambda x: m.get(x.group(1), x.group(1)), t)


def unify(pat, t, names, out):
    """One-way matching of an impl's type pattern against a type text."""
    pat, t = pat.strip(), t.strip()
    if pat in names:
        if pat in out and out[pat] != t:
            return True  # lifetimes etc.: be lenient
        out[pat] = t
        return True
    if pat == t:
        return True
    mp = re.match(r"^&('[a-z_0-9]+ )?(mut )?", pat)
    mt = re.match(r"^&('[a-z_0-9]+ )?(mut )?", t)
    if mp or mt:
        if not (mp and mt) or bool(mp.group(2)) != bool(mt.group(2)):
            return False
        return unify(pat[mp.end():], t[mt.end():], names, out)
    if pat.startswith("(") and t.startswith("(") and pat.endswith(")") and t.endswith(")"):
        a, b = split_args(pat[1:-1]), split_args(t[1:-1])
        return len(a) == len(b) and all(unify(x, y, names, out) for x, y in zip(a, b))
    if pat.startswith("[") and t.startswith("["):
        return unify(pat[1:-1], t[1:-1], names, out)
    hp, ap = ty_head(pat)
    ht, at = ty_head(t)
    if hp != ht:
        return False
    ap = [x for x in ap if not x.startswith("'")]
    at = [x for x in at if not x.startswith("'")]
    if len(ap) != len(at):
        return not ap or not at
    return all(unify(x, y, names, out) for x, y in zip(ap, at))


# ----------------------------------------------------------------------------- functions
class Fn:
    def __init__(self, d, crate):
        self.d = d
        self.crate = crate
        self.path = d["path"]
        self.name = d["name"]
        self.kind = d["kind"]
        self.file = d["file"]
        self.line = d["line"]
        self.argc = d.get("argc", 0)
        self.locals = d.get("locals", [])
        self.bbs = d.get("bbs", [])
        self.generics = d.get("generics", [])
        self.impl_self = d.get("impl_self")
        self.impl_trait = d.get("impl_trait")
        self.in_trait = d.get("in_trait")
        self.pub = bool(d.get("pub"))
        self.reach = bool(d.get("reach"))
        self.unsafe = bool(d.get("unsafe"))

    @property
    def ret(self):
        return self.locals[0]

    def args(self):
        return self.locals[1:1 + self.argc]

    def arg_names(self):
        names = {}
        for v in self.d.get("vars", []):
            pl = v["pl"]
            if not pl.get("p") and 1 <= pl["l"] <= self.argc:
                names.setdefault(pl["l"], v["n"])
        return [names.get(i, "_%d" % i) for i in range(1, self.argc + 1)]

    def calls(self):
        for b, bb in enumerate(self.bbs):
            if bb.get("cl"):
                continue
            t = bb["term"]
            if t["t"] == "call":
                yield b, t

    def where(self, ln=None):
        return "%s:%s" % (self.file, ln or self.line)

    def __repr__(self):
        return "<Fn %s>" % self.path


class Body:
    """A body to analyse: either a function's own or one with callees inlined. Unwind edges and
    cleanup blocks are left out: the analyses are about what a call returns, not about unwinding."""

    def __init__(self, fn, locals_, bbs, argc, origin=None):
        self.fn = fn
        self.locals = locals_
        self.bbs = bbs
        self.argc = argc
        self.inlined = []
        self._preds = None
        self._dom = None

    def succ(self, b):
        return term_succ(self.bbs[b]["term"])

    def reachable(self):
        seen, st = {0}, [0]
        while st:
            b = st.pop()
            for s in self.succ(b):
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        return seen

    def preds(self):
        if self._preds is None:
            p = {b: [] for b in range(len(self.bbs))}
            for b in self.reachable():
                for s in self.succ(b):
                    p[s].append(b)
            self._preds = p
        return self._preds

    def rpo(self):
        seen, out = set(), []
        st = [(0, iter(self.succ(0)))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ(s))))
                    break
            else:
                out.append(b)
                st.pop()
        return out[::-1]

    def dominators(self):
        if self._dom is None:
            order = self.rpo()
            idx = {b: i for i, b in enumerate(order)}
            preds = self.preds()
            idom = {order[0]: order[0]}
            ch = True
            while ch:
                ch = False
                for b in order[1:]:
                    new = None
                    for p in preds[b]:
                        if p in idom:
                            if new is None:
                                new = p
                            else:
                                x, y = p, new
                                while x != y:
                                    while idx[x] > idx[y]:
                                        x = idom[x]
                                    while idx[y] > idx[x]:
                                        y = idom[y]
                                new = x
                    if idom.get(b) != new:
                        idom[b] = new
                        ch = True
            self._dom = idom
        return self._dom

    def dominates(self, a, b):
        idom = self.dominators()
        while True:
            if a == b:
                return True
            if b not in idom or idom[b] == b:
                return False
            b = idom[b]


def term_succ(t):
    k = t["t"]
    if k == "goto":
        return [t["to"]]
    if k == "switch":
        out = [x[1] for x in t["targets"]]
        if t["otherwise"] not in out:
            out.append(t["otherwise"])
        return out
    if k in ("drop", "assert"):
        return [t["to"]]
    if k == "call":
        return [t["to"]] if "to" in t else []
    if k == "nondet":
        return t["to"]
    return []


def callee_of(t):
    """The callee record of a call terminator, or None for an indirect call."""
    f = t["f"]
    return f.get("fn")


class Program:
    def __init__(self, dir_):
        self.fns = {}
        self.adts = {}
        self.impls = []
        self.traits = {}
        self.crates = {}
        for f in sorted(glob.glob(os.path.join(dir_, "*.json"))):
            d = json.load(open(f))
            self.crates[d["crate"]] = d
            for x in d["fns"]:
                fn = Fn(x, d["crate"])
                if fn.path in self.fns:
                    # several impls can print alike: keep all under numbered names
                    i = 2
                    while f"{fn.path}#{i}" in self.fns:
                        i += 1
                    fn.path = f"{fn.path}#{i}"
                self.fns[fn.path] = fn
            for a in d["adts"]:
                self.adts[a["path"]] = a
            for i in d["impls"]:
                i["crate"] = d["crate"]
                self.impls.append(i)
            for t in d["traits"]:
                self.traits[t["path"]] = t
        # fill in cfg without cleanup
        self.by_trait = {}
        for im in self.impls:
            if "trait" in im:
                self.by_trait.setdefault(im["trait"], []).append(im)
        self.closures = {}
        for f in self.fns.values():
            if f.kind == "Closure":
                self.closures.setdefault(f.d["parent"], []).append(f)
        self._span_closure = {}
        self._resolve_cache = {}

    def find(self, suffix, **kw):
        out = []
        for f in self.fns.values():
            if f.path == suffix or f.path.endswith("::" + suffix):
                if all(getattr(f, k) == v for k, v in kw.items()):
                    out.append(f)
        return out

    def find1(self, suffix, **kw):
        r = self.find(suffix, **kw)
        if len(r) != 1:
            raise Missing("expected one function %s, found %d" % (suffix, len(r)))
        return r[0]

    def method(self, self_head, name, trait=None):
        """The impl method `name` of the type whose head path ends with self_head (and, if given,
        of the trait whose path ends with trait)."""
        out = []
        for f in self.fns.values():
            if f.name != name or f.impl_self is None or f.kind != "AssocFn":
                continue
            h, _ = ty_head(strip_refs(f.impl_self))
            if not (h == self_head or h.endswith("::" + self_head)):
                continue
            if trait is not None:
                if f.impl_trait is None or not (f.impl_trait == trait or f.impl_trait.endswith("::" + trait)):
                    continue
            out.append(f)
        return out

    def method1(self, self_head, name, trait=None):
        r = self.method(self_head, name, trait)
        if len(r) != 1:
            raise Missing("expected one method %s::%s, found %d" % (self_head, name, len(r)))
        return r[0]

    # -- resolution
    def impl_lookup(self, trait, method, self_ty):
        """(fn, substitution) for trait method `method` on the concrete type self_ty, if a
        workspace impl (or the trait's default) provides it; else None."""
        key = (trait, method, self_ty)
        if key in self._resolve_cache:
            return self._resolve_cache[key]
        res = None
        for im in self.by_trait.get(trait, []):
            names = impl_generics(im)
            m = {}
            if unify(im["self"], self_ty, names, m):
                for n, p in im["items"]:
                    if n == method and p in self.fns:
                        res = (self.fns[p], dict(m, Self=self_ty))
                        break
                else:
                    t = self.traits.get(trait)
                    if t:
                        for n, has, p in t["items"]:
                            if n == method and has and p in self.fns:
                                res = (self.fns[p], {"Self": self_ty})
                if res:
                    # prefer non-blanket
                    if im["self"] not in names:
                        break
        self._resolve_cache[key] = res
        return res

    def resolve(self, c, sub=None):
        """Resolves a callee record (under a generic substitution) to (fn, substitution) or None."""
        if c is None:
            return None
        sub = sub or {}
        if "trait" in c:
            st = subst_ty(c.get("self", ""), sub)
            if "res" in c and c["res"] in self.fns:
                f = self.fns[c["res"]]
                ra = [subst_ty(a, sub) for a in c.get("res_args", [])]
                m = dict(zip(f.generics, ra))
                if f.in_trait:
                    m["Self"] = st
                return f, m
            if c.get("dyn"):
                return None
            r = self.impl_lookup(c["trait"], c["name"], st)
            if r:
                return r
            if c.get("exact") and c["def"] in self.fns:  # default body
                f = self.fns[c["def"]]
                return f, dict(zip(f.generics, [subst_ty(a, sub) for a in c["args"]]), Self=st)
            return None
        p = c["def"]
        if p in self.fns:
            f = self.fns[p]
            return f, dict(zip(f.generics, [subst_ty(a, sub) for a in c["args"]]))
        return None

    def candidates(self, c, sub=None):
        """Class hierarchy analysis: every workspace function a call may reach."""
        r = self.resolve(c, sub)
        if r:
            return [r[0]]
        out = []
        if c and "trait" in c:
            st = subst_ty(c.get("self", ""), sub or {})
            generic = c.get("param") or c.get("dyn") or _is_generic(st)
            if not generic:
                return []
            for im in self.by_trait.get(c["trait"], []):
                for n, p in im["items"]:
                    if n == c["name"] and p in self.fns:
                        out.append(self.fns[p])
            t = self.traits.get(c["trait"])
            if t:
                for n, has, p in t["items"]:
                    if n == c["name"] and has and p in self.fns:
                        out.append(self.fns[p])
        return out

    def body(self, fn):
        return Body(fn, list(fn.locals), fn.bbs, fn.argc)

    # -- closures
    def closure_of_type(self, ty, crate=None):
        """The closure function a '{closure@file:l:c: l:c}' type text denotes."""
        if not self._span_closure:
            for f in self.fns.values():
                if f.kind == "Closure" and f.locals:
                    t = strip_refs(f.locals[1]) if f.argc else ""
                    if t.startswith("{closure@"):
                        self._span_closure[t] = f
        return self._span_closure.get(strip_refs(ty))


class Missing(Exception):
    pass


def _is_generic(st):
    return bool(re.fullmatch(r"[A-Z]\w*", st)) or st.startswith("<")


_IMPLGEN = {}


def impl_generics(im):
    """Names of an impl's generic parameters: the lone identifiers in its self type and trait."""
    k = (im["path"], im.get("tref"), im["self"])
    if k not in _IMPLGEN:
        names = set()
        for s in (im["self"], im.get("tref", "")):
            for m in _ident.finditer(s):
                n = m.group(1)
                if n[0].isupper() and n not in ("Self",):
                    names.add(n)
        _IMPLGEN[k] = names
    return _IMPLGEN[k]


# ----------------------------------------------------------------------------- inlining
def map_place(pl, off):
    out = {"l": pl["l"] + off}
    if "p" in pl:
        out["p"] = [dict(e, i=e["i"] + off) if isinstance(e, dict) and "i" in e else e for e in pl["p"]]
    return out


def map_op(o, off, sub):
    k = o["k"]
    if k in ("copy", "move"):
        return {"k": k, "pl": map_place(o["pl"], off)}
    if k == "ind":
        return dict(o, op=map_op(o["op"], off, sub), ty=subst_ty(o.get("ty"), sub))
    if not sub:
        return o
    o = dict(o)
    if "fn" in o:
        o["fn"] = map_callee(o["fn"], sub)
    if "ty" in o:
        o["ty"] = subst_ty(o["ty"], sub)
    if "cself" in o:
        o["cself"] = subst_ty(o["cself"], sub)
    return o


def map_callee(c, sub):
    c = dict(c)
    c["args"] = [subst_ty(a, sub) for a in c["args"]]
    if "self" in c:
        c["self"] = subst_ty(c["self"], sub)
        if c.get("param") and not _is_generic(c["self"]):
            del c["param"]
            if c["self"].startswith("dyn ") or c["self"].startswith("(dyn "):
                c["dyn"] = 1
    if "res_args" in c:
        c["res_args"] = [subst_ty(a, sub) for a in c["res_args"]]
    return c


def map_rv(r, off, sub):
    k = r["r"]
    out = dict(r)
    if "pl" in r:
        out["pl"] = map_place(r["pl"], off)
    if k in ("use", "repeat", "cast"):
        out["op"] = map_op(r["op"], off, sub)
    if k in ("bin",):
        out["a"] = map_op(r["a"], off, sub)
        out["b"] = map_op(r["b"], off, sub)
    if k == "un":
        out["a"] = map_op(r["a"], off, sub)
    if k == "agg":
        out["ops"] = [map_op(o, off, sub) for o in r["ops"]]
    if sub:
        for f in ("ty", "from"):
            if f in out:
                out[f] = subst_ty(out[f], sub)
    return out


def map_block(bb, off, boff, sub, ret_to, ret_pl, origin):
    st = []
    for x in bb["st"]:
        y = dict(x)
        if "pl" in x:
            y["pl"] = map_place(x["pl"], off)
        if "rv" in x:
            y["rv"] = map_rv(x["rv"], off, sub)
        if "l" in x and x["s"] in ("live", "dead"):
            y["l"] = x["l"] + off
        y.setdefault("fn", origin)
        st.append(y)
    t = bb["term"]
    k = t["t"]
    y = dict(t)
    if k == "return" and ret_to is not None:
        st.append({"s": "=", "pl": ret_pl, "rv": {"r": "use", "op": {"k": "move", "pl": {"l": off}}}, "ln": 0,
                   "fn": origin, "inl_ret": 1})
        y = {"t": "goto", "to": ret_to}
    else:
        if "to" in t:
            y["to"] = [q + boff for q in t["to"]] if isinstance(t["to"], list) else t["to"] + boff
        if k == "switch":
            y["op"] = map_op(t["op"], off, sub)
            y["targets"] = [[v, b + boff] for v, b in t["targets"]]
            y["otherwise"] = t["otherwise"] + boff
        elif k == "drop":
            y["pl"] = map_place(t["pl"], off)
            y["ty"] = subst_ty(t["ty"], sub)
        elif k == "call":
            y["f"] = map_op(t["f"], off, sub)
            y["args"] = [map_op(a, off, sub) for a in t["args"]]
            y["dst"] = map_place(t["dst"], off)
        elif k == "assert":
            for f in ("cond", "len", "idx", "a", "b"):
                if f in t and isinstance(t[f], dict):
                    y[f] = map_op(t[f], off, sub)
    y.setdefault("fn", origin)
    out = {"st": st, "term": y}
    if bb.get("cl"):
        out["cl"] = 1
    if "stack" in bb:
        out["stack"] = bb["stack"]
    return out


def inline(prog, fn, want, max_blocks=6000, max_depth=12, sub0=None, closures=True, combinators=True):
    """The body of fn with calls to workspace functions inlined where want(callee_fn, callrec,
    stack) says so. Recursion is not unrolled. A closure passed to a function outside the workspace
    (an iterator adaptor, Option::map ...) is inlined as a loop that may call it any number of
    times with unknown arguments (closures=True)."""
    b = Body(fn, [subst_ty(t, sub0) for t in fn.locals], [], fn.argc)
    b.bbs = [map_block(bb, 0, 0, sub0 or {}, None, None, fn.path) for bb in fn.bbs]
    for bb in b.bbs:
        bb["stack"] = (fn.path,)
    work = [i for i in range(len(b.bbs))]
    done_closure = set()
    while work:
        i = work.pop(0)
        bb = b.bbs[i]
        if bb.get("cl"):
            continue
        t = bb["term"]
        if t["t"] != "call" or t.get("noinline"):
            continue
        c = callee_of(t)
        stack = bb["stack"]
        r = prog.resolve(c) if c else None
        target = None
        spread = False
        if r is not None:
            target, sub = r
            if target.kind == "Closure":
                sub = {}
                spread = True
            if target.path in stack or len(stack) > max_depth or not target.bbs:
                target = None
            elif not want(target, c, stack):
                target = None
        elif c is not None and c.get("trait", "").startswith("core::ops::function::Fn") and closures:
            cl = prog.closure_of_type(c.get("self", ""))
            if cl is not None and cl.path not in stack and len(stack) <= max_depth:
                target, sub, spread = cl, {}, True
        if target is not None:
            if len(b.bbs) + len(target.bbs) > max_blocks:
                continue
            if "to" not in t:
                pass
            off, boff = len(b.locals), len(b.bbs)
            b.locals.extend(subst_ty(x, sub) for x in target.locals)
            ret_to = t.get("to")
            new = [map_block(x, off, boff, sub, ret_to, t["dst"], target.path) for x in target.bbs]
            for n in new:
                n["stack"] = stack + (target.path,)
            b.bbs.extend(new)
            pre = []
            if spread:
                # closure call: args = (env, (a, b, ..)); env by value or by reference
                envty = target.locals[1]
                env = t["args"][0]
                aty = b.locals[env["pl"]["l"]] if env["k"] in ("copy", "move") and not env["pl"].get("p") else ""
                if envty.startswith("&") and aty.startswith("{closure@"):
                    pre.append({"s": "=", "pl": {"l": off + 1}, "ln": 0, "env": 1,
                                "rv": {"r": "ref", "mut": 1 if "mut " in envty[:8] else 0, "fake": 0, "pl": env["pl"]}})
                elif not envty.startswith("&") and aty.startswith("&"):
                    pre.append(_assign(off + 1, {"k": "copy", "pl": {"l": env["pl"]["l"], "p": ["*"]}}))
                else:
                    pre.append(_assign(off + 1, env))
                if len(t["args"]) > 1:
                    tup = t["args"][1]
                    for k in range(2, target.argc + 1):
                        if tup["k"] in ("copy", "move"):
                            pl = dict(tup["pl"])
                            pl["p"] = list(pl.get("p", [])) + [{"f": k - 2}]
                            pre.append(_assign(off + k, {"k": "move", "pl": pl}))
                b.inlined.append((stack[-1], target.path, t["ln"]))
            else:
                for k, a in enumerate(t["args"]):
                    pre.append(_assign(off + 1 + k, a))
                b.inlined.append((stack[-1], target.path, t["ln"]))
            for p in pre:
                p["fn"] = stack[-1]
                p["ln"] = t["ln"]
            bb["st"] = bb["st"] + pre
            bb["term"] = {"t": "goto", "to": boff, "fn": stack[-1], "inl": target.path, "call": t}
            work.extend(range(boff, len(b.bbs)))
            continue
        if combinators and c is not None and "to" in t and not t.get("cl_done") and r is None:
            new = expand_combinator(b, i, t, c)
            if new is not None:
                work.extend(new)
                continue
        # closures handed to outside code
        if closures and "to" in t and not t.get("cl_done"):
            cls = []
            for a in t["args"]:
                cty = None
                if a["k"] in ("copy", "move") and not a["pl"].get("p"):
                    cty = b.locals[a["pl"]["l"]]
                if cty and strip_refs(cty).startswith("{closure@"):
                    cl = prog.closure_of_type(cty)
                    if cl is not None and cl.path not in stack and len(stack) <= max_depth:
                        cls.append((a, cl, cty))
            if cls:
                t2 = dict(t, cl_done=1)
                bb["term"] = None
                callb = len(b.bbs)
                head = callb + 1
                b.bbs.append({"st": [], "term": t2, "stack": stack})
                b.bbs.append({"st": [], "term": None, "stack": stack})
                entries = []
                for a, cl, cty in cls:
                    if len(b.bbs) + len(cl.bbs) > max_blocks:
                        continue
                    off, boff = len(b.locals), len(b.bbs)
                    b.locals.extend(cl.locals)
                    new = [map_block(x, off, boff + 1, {}, head, {"l": off}, cl.path) for x in cl.bbs]
                    env_st = _closure_env(a, off + 1, cl)
                    b.bbs.append({"st": env_st, "term": {"t": "goto", "to": boff + 1, "fn": stack[-1]},
                                  "stack": stack})
                    for n in new:
                        n["stack"] = stack + ("?" + cl.path, cl.path)
                    b.bbs.extend(new)
                    entries.append(boff)
                    work.extend(range(boff, len(b.bbs)))
                    b.inlined.append((stack[-1], cl.path, t["ln"]))
                b.bbs[head]["term"] = {"t": "nondet", "to": entries + [callb], "fn": stack[-1]}
                bb["term"] = {"t": "goto", "to": head, "fn": stack[-1]}
    return b


# Option/Result combinators, by what they do per variant. Actions: x (the payload), f(x), f(), d (an
# argument), opaque, bool constants; wrapped in Some/Ok/Err/None.
COMB = {
    "core::option::Option": {
        "map": {"Some": ("Some", "f1x"), "None": ("None", None)},
        "and_then": {"Some": (None, "f1x"), "None": ("None", None)},
        "map_or": {"Some": (None, "f2x"), "None": (None, "a1")},
        "map_or_else": {"Some": (None, "f2x"), "None": (None, "f1")},
        "unwrap_or": {"Some": (None, "x"), "None": (None, "a1")},
        "unwrap_or_else": {"Some": (None, "x"), "None": (None, "f1")},
        "unwrap_or_default": {"Some": (None, "x"), "None": (None, "default")},
        "ok_or": {"Some": ("Ok", "x"), "None": ("Err", "a1")},
        "ok_or_else": {"Some": ("Ok", "x"), "None": ("Err", "f1")},
        "or": {"Some": ("Some", "x"), "None": (None, "a1")},
        "or_else": {"Some": ("Some", "x"), "None": (None, "f1")},
        "is_some_and": {"Some": (None, "f1x"), "None": (None, "false")},
        "is_none_or": {"Some": (None, "f1x"), "None": (None, "true")},
        "with_context": {"Some": ("Ok", "x"), "None": ("Err", "opaque")},
        "context": {"Some": ("Ok", "x"), "None": ("Err", "opaque")},
    },
    "core::result::Result": {
        "map": {"Ok": ("Ok", "f1x"), "Err": ("Err", "x")},
        "map_err": {"Ok": ("Ok", "x"), "Err": ("Err", "f1x")},
        "and_then": {"Ok": (None, "f1x"), "Err": ("Err", "x")},
        "or_else": {"Ok": ("Ok", "x"), "Err": (None, "f1x")},
        "map_or": {"Ok": (None, "f2x"), "Err": (None, "a1")},
        "map_or_else": {"Ok": (None, "f2x"), "Err": (None, "f1x")},
        "unwrap_or": {"Ok": (None, "x"), "Err": (None, "a1")},
        "unwrap_or_else": {"Ok": (None, "x"), "Err": (None, "f1x")},
        "unwrap_or_default": {"Ok": (None, "x"), "Err": (None, "default")},
        "ok": {"Ok": ("Some", "x"), "Err": ("None", None)},
        "err": {"Ok": ("None", None), "Err": ("Some", "x")},
        "is_ok_and": {"Ok": (None, "f1x"), "Err": (None, "false")},
        "with_context": {"Ok": ("Ok", "x"), "Err": ("Err", "opaque")},
        "context": {"Ok": ("Ok", "x"), "Err": ("Err", "opaque")},
    },
}
DISCR = {"None": "0", "Some": "1", "Ok": "0", "Err": "1"}
WRAPADT = {"Some": "core::option::Option", "None": "core::option::Option", "Ok": "core::result::Result",
           "Err": "core::result::Result"}


def expand_combinator(b, i, t, c):
    """Replaces a call to an Option/Result combinator by the branch it stands for."""
    st = c.get("impl_self") or c.get("self") or ""
    head = ty_head(st)[0]
    d = c["def"]
    if d.startswith("std::thread::local::LocalKey") and c["name"] == "with" and len(t["args"]) == 2:
        fa = t["args"][1]
        if fa["k"] not in ("copy", "move") or fa["pl"].get("p") or \
                not b.locals[fa["pl"]["l"]].startswith("{closure@"):
            return None
        bb = b.bbs[i]
        cty = b.locals[fa["pl"]["l"]]
        b.locals.extend(["&?", "(&?,)"])
        X, TUP = len(b.locals) - 2, len(b.locals) - 1
        org = bb["stack"][-1]
        b.bbs.append({"st": [{"s": "=", "pl": {"l": TUP}, "ln": t["ln"], "fn": org,
                              "rv": {"r": "agg", "kind": "tuple", "ops": [{"k": "move", "pl": {"l": X}}]}}],
                      "term": {"t": "call", "f": {"k": "const", "fn": {
                          "def": "core::ops::function::FnOnce::call_once", "name": "call_once", "crate": "core",
                          "args": [cty], "trait": "core::ops::function::FnOnce", "self": cty}},
                          "args": [fa, {"k": "move", "pl": {"l": TUP}}], "dst": t["dst"], "ln": t["ln"],
                          "to": t["to"], "fn": org}, "stack": bb["stack"]})
        nb = len(b.bbs) - 1
        bb["term"] = {"t": "call", "f": {"k": "const", "fn": {"def": "std::thread::local::LocalKey::with", "name": "with",
                                                              "crate": "std", "args": []}},
                      "args": [t["args"][0]], "dst": {"l": X}, "ln": t["ln"], "to": nb, "cl_done": 1, "fn": org}
        return [nb]
    tab = COMB.get(head)
    if tab is None or c["name"] not in tab:
        return None
    if not (d.startswith("core::option::Option::") or d.startswith("core::result::Result::")
            or d.startswith("anyhow::Context")):
        return None
    spec = tab[c["name"]]
    a0 = t["args"][0]
    if a0["k"] not in ("copy", "move"):
        return None
    acts = [x[1] for x in spec.values() if x[1]]
    fns = {int(x[1]) for x in acts if x[0] == "f" and x[1:2].isdigit()}
    for k in fns:
        a = t["args"][k]
        if a["k"] in ("copy", "move"):
            if a["pl"].get("p") or not strip_refs(b.locals[a["pl"]["l"]]).startswith("{closure@"):
                return None
        elif "fn" not in a:
            return None
    bb = b.bbs[i]
    stack = bb["stack"]
    ln = t["ln"]
    org = stack[-1]
    aty = b.locals[a0["pl"]["l"]] if not a0["pl"].get("p") else ""
    _, targs = ty_head(aty)
    dty = b.locals[t["dst"]["l"]] if not t["dst"].get("p") else ""
    _, dargs = ty_head(dty)

    def local(ty):
        b.locals.append(ty)
        return len(b.locals) - 1

    def asg(l, rv):
        return {"s": "=", "pl": {"l": l}, "rv": rv, "ln": ln, "fn": org}

    A = local(aty)
    D = local("isize")
    bb["st"] = bb["st"] + [asg(A, {"r": "use", "op": a0}), asg(D, {"r": "discr", "pl": {"l": A}, "ty": aty})]
    targets, new = [], []

    def block(st_, term):
        b.bbs.append({"st": st_, "term": dict(term, fn=org), "stack": stack})
        new.append(len(b.bbs) - 1)
        return len(b.bbs) - 1

    for v, (wrap, act) in spec.items():
        pre = []
        val = None
        pty = ""
        if targs:
            pty = targs[0] if v in ("Some", "Ok") else (targs[1] if len(targs) > 1 else "")
        X = {"k": "move", "pl": {"l": A, "p": [{"d": v}, {"f": 0, "n": "0", "o": WRAPADT[v]}]}}
        rty = dty if wrap is None else (dargs[0] if wrap in ("Some", "Ok") and dargs else (dargs[1] if len(dargs) > 1 else ""))
        callt = None
        if act == "x":
            val = X
        elif act in ("true", "false"):
            val = {"k": "const", "ty": "bool", "bits": "1" if act == "true" else "0"}
        elif act == "opaque":
            R = local(rty)
            callt = {"t": "call", "f": {"k": "const", "fn": {"def": "anyhow::Error::context", "name": "context",
                                                             "crate": "anyhow", "args": []}},
                     "args": [X] if v == "Err" else [], "dst": {"l": R}, "ln": ln}
        elif act == "default":
            R = local(rty)
            callt = {"t": "call", "f": {"k": "const", "fn": {"def": "core::default::Default::default", "name": "default",
                                                             "crate": "core", "args": [rty],
                                                             "trait": "core::default::Default", "self": rty}},
                     "args": [], "dst": {"l": R}, "ln": ln}
        elif act and act[0] == "a":
            val = t["args"][int(act[1])]
        elif act and act[0] == "f":
            fa = t["args"][int(act[1])]
            args = [X] if act.endswith("x") else []
            R = local(rty)
            if fa["k"] == "const":
                callt = {"t": "call", "f": fa, "args": args, "dst": {"l": R}, "ln": ln}
            else:
                cty = b.locals[fa["pl"]["l"]]
                TUP = local("(%s)" % (pty + "," if args else ""))
                pre.append(asg(TUP, {"r": "agg", "kind": "tuple", "ops": args}))
                callt = {"t": "call", "f": {"k": "const", "fn": {
                    "def": "core::ops::function::FnOnce::call_once", "name": "call_once", "crate": "core",
                    "args": [cty], "trait": "core::ops::function::FnOnce", "self": cty}},
                    "args": [fa, {"k": "move", "pl": {"l": TUP}}], "dst": {"l": R}, "ln": ln}
        if callt is not None:
            val = {"k": "move", "pl": {"l": R}}
        if wrap is None:
            fin = {"s": "=", "pl": t["dst"], "rv": {"r": "use", "op": val}, "ln": ln, "fn": org}
        else:
            fin = {"s": "=", "pl": t["dst"], "rv": {"r": "agg", "kind": "adt", "adt": WRAPADT[wrap], "variant": wrap,
                                                    "fields": ["0"] if val else [], "ty": dty,
                                                    "ops": [val] if val else []}, "ln": ln, "fn": org}
        if callt is not None:
            end = block([fin], {"t": "goto", "to": t["to"]})
            callt["to"] = end
            ent = block(pre, callt)
        else:
            ent = block(pre + [fin], {"t": "goto", "to": t["to"]})
        targets.append([DISCR[v], ent])
    un = block([], {"t": "unreachable"})
    bb["term"] = {"t": "switch", "op": {"k": "move", "pl": {"l": D}}, "opty": "isize", "targets": targets,
                  "otherwise": un, "ln": ln, "fn": org, "comb": d}
    return new


def _closure_env(a, l, cl):
    envty = cl.locals[1]
    if envty.startswith("&"):
        return [{"s": "=", "pl": {"l": l}, "rv": {"r": "ref", "mut": 1 if "mut " in envty[:8] else 0, "fake": 0,
                                                 "pl": a["pl"]}, "ln": 0, "env": 1}]
    return [_assign(l, {"k": "copy", "pl": a["pl"]})]


def _assign(l, op):
    return {"s": "=", "pl": {"l": l}, "rv": {"r": "use", "op": op}, "ln": 0, "arg": 1}


_prog = None


def load():
    global _prog
    if _prog is None:
        _prog = Program(facts.build())
    return _prog
