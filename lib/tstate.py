"""Typestate analysis with variant tracking: a disjunctive forward dataflow whose facts are pairs of
a user state (what has happened so far) and the known variants of enum-valued locals, so that the
success and the failure continuation of one call are kept apart at joins. Facts are finite, so the
fixpoint terminates; nothing is executed and no solver is asked."""
import mir
from mir import strip_refs, ty_head

VAR = {
    "core::option::Option": {"0": "None", "1": "Some"},
    "core::result::Result": {"0": "Ok", "1": "Err"},
    "core::ops::control_flow::ControlFlow": {"0": "Continue", "1": "Break"},
}


TESTS = {"is_err": ("Err", "Ok"), "is_ok": ("Ok", "Err"), "is_some": ("Some", "None"), "is_none": ("None", "Some")}


class TooMany(Exception):
    pass


class TState:
    def __init__(self, prog, body, init, on_stmt=None, on_term=None, on_refine=None, cap=60000,
                 bools=True, only=None):
        """on_stmt(user, b, i, stmt) and on_term(user, b, term) give the next user state (or a list of
        alternatives, or None to drop the path); on_refine(user, b, local, variant) is told when a value
        is found to be a variant."""
        self.prog, self.body = prog, body
        self.bools = bools
        self.only = only
        self.on_stmt, self.on_term, self.on_refine = on_stmt, on_term, on_refine
        self.rets = set()
        self.nfacts = 0
        self.seen = {}
        self.parent = {}
        self._live = None
        work = [(0, (init, frozenset()))]
        self.seen[0] = {work[0][1]}
        while work:
            b, f = work.pop()
            for s, g in self.step(b, f):
                ss = self.seen.setdefault(s, set())
                if g not in ss:
                    ss.add(g)
                    self.nfacts += 1
                    if self.nfacts > cap:
                        raise TooMany()
                    work.append((s, g))

    def variants(self, ty):
        h, _ = ty_head(strip_refs(ty))
        if h in VAR:
            return VAR[h]
        a = self.prog.adts.get(h)
        if a and a["kind"] == "Enum":
            return {str(v.get("discr", i)): v["name"] for i, v in enumerate(a["variants"])}
        return None

    def live_out(self):
        """Locals whose known variant can still matter, per block (plain backward liveness)."""
        if self._live is None:
            body = self.body
            use = {}
            for b in body.reachable():
                u = set()
                bb = body.bbs[b]
                for s in bb["st"]:
                    if s["s"] == "=":
                        u |= rv_locals(s["rv"])
                        if s["pl"].get("p"):
                            u.add(s["pl"]["l"])
                t = bb["term"]
                if t["t"] == "call":
                    for a in t["args"]:
                        u |= op_locals(a)
                    u |= op_locals(t["f"])
                elif t["t"] == "switch":
                    u |= op_locals(t["op"])
                elif t["t"] == "return":
                    u.add(0)
                use[b] = u
            live = {b: set(use[b]) for b in use}
            ch = True
            order = [b for b in reversed(body.rpo())]
            while ch:
                ch = False
                for b in order:
                    n = set(use[b])
                    for s in body.succ(b):
                        n |= live[s]
                    if n != live[b]:
                        live[b] = n
                        ch = True
            self._live = live
        return self._live

    def step(self, b, fact):
        user, env = fact
        env = dict(env)
        bb = self.body.bbs[b]
        users = [user]
        for i, s in enumerate(bb["st"]):
            if s["s"] == "=":
                self.assign(env, s["pl"], s["rv"])
            if self.on_stmt:
                users = apply(users, lambda u: self.on_stmt(u, b, i, s))
        t = bb["term"]
        k = t["t"]
        if self.on_term:
            users = apply(users, lambda u: self.on_term(u, b, t))
        if not users:
            return []
        out = []
        if k == "return":
            for u in users:
                self.rets.add((u, env.get(0) if isinstance(env.get(0), str) else None, b))
            return []
        if k == "call":
            self.call(env, t)
            if "to" in t:
                out = [(t["to"], u, env) for u in users]
        elif k == "switch":
            out = []
            for u in users:
                out.extend(self.switch(b, t, u, env))
        else:
            out = [(s, u, env) for s in self.body.succ(b) for u in users]
        live = self.live_out()
        res = []
        for s, u, e in out:
            if self.only:
                e = {l: v for l, v in e.items() if self.only(self.body.locals[v[1] if isinstance(v, tuple) and v[0] in (
                    "d", "r", "b") else l])}
            res.append((s, (u, frozenset((l, v) for l, v in e.items()
                                         if l in live[s] or (isinstance(v, tuple) and v[0] == "x")))))
        return res

    def assign(self, env, pl, rv):
        l = pl["l"]
        if pl.get("p"):
            return
        kill(env, l)
        k = rv["r"]
        if k == "agg" and rv["kind"] == "adt":
            a = self.prog.adts.get(rv["adt"])
            if rv["adt"] in VAR or (a and a["kind"] == "Enum"):
                env[l] = rv["variant"]
        elif k == "use":
            o = rv["op"]
            if o["k"] in ("copy", "move") and not o["pl"].get("p"):
                if o["pl"]["l"] in env:
                    env[l] = env[o["pl"]["l"]]
            elif self.bools and o["k"] == "const" and o.get("ty") == "bool" and "bits" in o:
                env[l] = ("c", o["bits"])
        elif k == "discr" and not rv["pl"].get("p"):
            env[l] = ("d", rv["pl"]["l"])
        elif k == "ref" and not rv["pl"].get("p"):
            env[l] = ("r", rv["pl"]["l"])
        elif k == "un" and rv["op"] == "Not":
            o = rv["a"]
            if o["k"] in ("copy", "move") and not o["pl"].get("p"):
                v = env.get(o["pl"]["l"])
                if isinstance(v, tuple) and v[0] == "c":
                    env[l] = ("c", "0" if v[1] == "1" else "1")
                elif isinstance(v, tuple) and v[0] == "b":
                    env[l] = ("b", v[1], v[3], v[2])

    def call(self, env, t):
        c = mir.callee_of(t)
        d = t["dst"]
        if d.get("p"):
            return
        v = None
        if c is not None:
            a = None
            if t["args"] and t["args"][0]["k"] in ("copy", "move") and not t["args"][0]["pl"].get("p"):
                a = env.get(t["args"][0]["pl"]["l"])
            if c["name"] in TESTS and isinstance(a, tuple) and a[0] == "r":
                v = ("b", a[1]) + TESTS[c["name"]]
            elif c["name"] == "branch" and a in ("Ok", "Some"):
                v = "Continue"
            elif c["name"] == "branch" and a in ("Err", "None"):
                v = "Break"
            elif c["name"] == "from_residual":
                ty = self.body.locals[d["l"]]
                v = "None" if ty.startswith("core::option::Option") else "Err"
        kill(env, d["l"])
        if v:
            env[d["l"]] = v

    def switch(self, b, t, user, env):
        o = t["op"]
        src = None
        names = None
        known = None
        if o["k"] in ("copy", "move") and not o["pl"].get("p"):
            l = o["pl"]["l"]
            v = env.get(l)
            if isinstance(v, tuple) and v[0] == "d":
                src = v[1]
                names = self.variants(self.body.locals[src])
                known = env.get(src)
            elif t.get("opty") == "bool" or self.body.locals[l] == "bool":
                if isinstance(v, tuple) and v[0] == "c":
                    for val, to in t["targets"]:
                        if val == v[1]:
                            return [(to, user, env)]
                    return [(t["otherwise"], user, env)]
                if isinstance(v, tuple) and v[0] == "b":
                    known = env.get(v[1])
                    known = known if isinstance(known, str) else None
                    no = [to for val, to in t["targets"] if val == "0"]
                    no = no[0] if no else t["otherwise"]
                    yes = [to for val, to in t["targets"] if val != "0"]
                    yes = yes[0] if yes else t["otherwise"]
                    out = []
                    for n, to in ((v[2], yes), (v[3], no)):
                        if known is None or known == n:
                            out.append(self.refined(b, user, env, v[1], n, to, known))
                    return [x for x in out if x]
        if names is None:
            return [(s, user, env) for s in self.body.succ(b)]
        out = []
        seen = set()
        for val, to in t["targets"]:
            n = names.get(val)
            seen.add(n)
            if isinstance(known, str) and known != n:
                continue
            out.append(self.refined(b, user, env, src, n, to, known))
        rest = [n for n in names.values() if n not in seen]
        for n in rest:
            if isinstance(known, str) and known != n:
                continue
            out.append(self.refined(b, user, env, src, n, t["otherwise"], known))
        return [x for x in out if x]

    def refined(self, b, user, env, src, n, to, known):
        e = dict(env)
        e[src] = n
        if self.on_refine:
            user = self.on_refine(user, b, src, n, known)
            if user is None:
                return None
        return (to, user, e)


def kill(env, l):
    env.pop(l, None)
    for k in [k for k, v in env.items() if isinstance(v, tuple) and v[0] in ("d", "r", "b") and v[1] == l]:
        del env[k]


def apply(users, f):
    out = []
    for u in users:
        r = f(u)
        if r is None:
            continue
        if isinstance(r, list):
            out.extend(x for x in r if x not in out)
        elif r not in out:
            out.append(r)
    return out


def op_locals(o):
    if o["k"] in ("copy", "move"):
        return pl_locals(o["pl"])
    if o["k"] == "ind":
        return op_locals(o["op"])
    return set()


def pl_locals(pl):
    s = {pl["l"]}
    for e in pl.get("p", []):
        if isinstance(e, dict) and "i" in e:
            s.add(e["i"])
    return s


def rv_locals(r):
    out = set()
    if "pl" in r:
        out |= pl_locals(r["pl"])
    for f in ("op", "a", "b"):
        if f in r and isinstance(r[f], dict):
            out |= op_locals(r[f])
    for o in r.get("ops", []):
        out |= op_locals(o)
    return out
