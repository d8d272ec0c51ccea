"""Where the labels of transitions come from: for every construct that makes or changes a transition (or anything else with an input and an
output label), which label fields its two labels are computed from."""
import flow
import mir

SIDE = {"ilabel": "I", "olabel": "O", "ilabels": "I", "olabels": "O"}


def deps(F, b, t):
    """{(side, base term)} of the label fields a value is computed from (data dependence)."""
    out = set()
    seen = set()
    work = [(b, t)]
    n = 0
    while work and n < 4000:
        b, t = work.pop()
        if not isinstance(t, flow.T) or t.id in seen:
            continue
        seen.add(t.id)
        n += 1
        if t.op == "field" and t.a[1] in SIDE:
            out.add((SIDE[t.a[1]], base(t.a[0])))
            continue
        if t.op == "field":
            # a field of something: only that component matters
            work.append((b, t.a[0]) if t.a[0].op in ("phi", "upd", "deref", "field", "vf", "mut") else (b, t.a[0]))
            continue
        if t.op == "ref":
            c, p = t.a
            keys = [k for k in p if isinstance(k, str) and k in SIDE]
            if keys:
                out.add((SIDE[keys[-1]], ("cell", c if isinstance(c, int) else c[1].id, tuple(k if isinstance(k, str) else ("i", k[1].id) for k in p if k not in SIDE and k != "deref"))))
                continue
            if isinstance(c, int) and b in F.inn:
                try:
                    work.append((b, F.read(F.state_at_term(b), c, p)))
                except Exception:
                    pass
                continue
            for k in p:
                if isinstance(k, tuple) and k and k[0] == "i":
                    work.append((b, k[1]))
            continue
        if t.op == "phi":
            for p, v in F.phis.get(t.a, {}).items():
                work.append((p, v))
            continue
        if t.op == "idx":
            work.append((b, t.a[0]))
            work.append((b, t.a[1]))
            continue
        if t.op == "mut":
            work.append((b, t.a[2]))
            continue
        if t.op == "call":
            for x in t.a[3]:
                work.append((t.a[1], x))
            continue
        for x in t.a:
            if isinstance(x, flow.T):
                work.append((b, x))
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, flow.T):
                        work.append((b, y))
    return out


def base(t):
    while t.op in ("clone", "deref", "box"):
        t = t.a[0]
    return ("t", t.id)


class Site:
    __slots__ = ("f", "ln", "kind", "parts", "b")


def sites(prog, f):
    """Sites of f: parts maps 'ilabel'/'olabel'/'weight'/'nextstate' to (block, term)."""
    F = flow.Flow(prog, mir.inline(prog, f, lambda g, c, s: g.name == "new" and (g.impl_self or "").startswith("rustfst::tr::Tr<")))
    out = []

    def add(kind, b, ln, parts):
        s = Site()
        s.f, s.kind, s.b, s.ln, s.parts = f, kind, b, ln, parts
        out.append(s)
    for b in sorted(F.inn):
        st = dict(F.inn[b])
        bb = F.body.bbs[b]
        for s in bb["st"]:
            if s["s"] != "=":
                continue
            v = F.rv(st, s["rv"], b)
            if s["rv"]["r"] == "agg" and v.op == "agg":
                fl = dict(zip(v.a[2], v.a[3]))
                if any(k in SIDE for k in fl):
                    add("make", b, s.get("ln"), {k: (b, x) for k, x in fl.items()})
            cell, path = F.place(st, s["pl"])
            if path and path[-1] in SIDE:
                add("set", b, s.get("ln"), {path[-1]: (b, v)})
            F.write(st, cell, path, v)
    for b, (c, a) in sorted(F.calls.items()):
        if not c:
            continue
        ln = F.body.bbs[b]["term"].get("ln")
        r = prog.resolve(c)
        g = r[0] if r else None
        if g is None and c.get("trait"):
            t = prog.fns.get(c["def"])
            g = t
        if g is not None and g.crate.startswith("rustfst") and g.name != "new_unchecked":
            ns = g.arg_names()
            parts = {n: (b, a[i]) for i, n in enumerate(ns) if i < len(a) and n in SIDE}
            if parts:
                add("call " + g.name, b, ln, parts)
        if c["name"] in ("push", "extend", "extend_from_slice", "insert") and a and a[0].op == "ref":
            keys = [k for k in a[0].a[1] if isinstance(k, str) and k in SIDE]
            if keys:
                add("push", b, ln, {keys[-1]: (b, a[-1])})
    return F, out
