"""What the CLI checks share: the command declarations of main() and the command handler with every CLI
function inlined down to the library calls."""
import flow
import mir

_c = {}


def fn(prog, name):
    r = [g for g in prog.fns.values() if g.crate == "rustfst_cli" and g.name == name and g.kind == "Fn"]
    if len(r) != 1:
        raise mir.Missing("rustfst_cli::" + name)
    return r[0]


def main_body(prog):
    if "m" not in _c:
        h = handler(prog)
        b = mir.inline(prog, fn(prog, "main"), lambda g, c, s: g.crate == "rustfst_cli" and g is not h)
        _c["m"] = (b, flow.Flow(prog, b))
    return _c["m"]


def handler(prog):
    """The function of main() that is given the parsed command line and answers with a Result."""
    if "h" not in _c:
        out = []
        for g in prog.fns.values():
            if g.crate == "rustfst_cli" and g.kind == "Fn" and g.argc == 1 and "ArgMatches" in g.args()[0] and \
                    g.ret.startswith("core::result::Result"):
                out.append(g)
        m = fn(prog, "main")
        names = {mir.callee_of(t)["def"] for _, t in m.calls() if mir.callee_of(t)}
        out = [g for g in out if g.path in names] or out
        if len(out) != 1:
            raise mir.Missing("the CLI's command handler")
        _c["h"] = out[0]
    return _c["h"]


def handle_body(prog):
    if "b" not in _c:
        b = mir.inline(prog, handler(prog), lambda g, c, s: g.crate == "rustfst_cli" and g.name != "run_bench",
                       max_blocks=20000)
        _c["b"] = (b, flow.Flow(prog, b))
    return _c["b"]


def chain(t):
    """[(method, args)] of a builder chain, and the term it starts from."""
    out = []
    while t.op == "call" and t.a[3]:
        out.append((t.a[2], t.a[3][1:], t))
        t = t.a[3][0]
    return out[::-1], t


def const(t):
    if t is not None and t.op == "const":
        return t.a[1]
    return None


def commands(prog):
    """{command: {option: {long, action, default, required, values}}} as main() declares them."""
    b, F = main_body(prog)
    out = {}
    for bb, (c, args) in F.calls.items():
        if c and c["name"] == "subcommand" and len(args) == 2 and "clap" in c["def"]:
            ch, root = chain(args[1])
            name = None
            opts = {}
            if ch and ch[0][0] == "new":
                name = const(ch[0][2].a[3][0])
            elif const(root):
                name = const(root)
            aliases = []
            for m, a, t in ch:
                if m == "arg" and a:
                    o = option(a[0])
                    if o:
                        opts[o["name"]] = o
                elif m == "alias" and a:
                    aliases.append(const(a[0]))
            if name is not None:
                out[name] = opts
    return out


def option(t):
    ch, root = chain(t)
    o = {"long": None, "action": None, "default": None, "required": False, "values": None}
    if ch and ch[0][0] == "new":
        o["name"] = const(ch[0][2].a[3][0])
    else:
        o["name"] = const(root)
    if o["name"] is None:
        return None
    for m, a, t in ch:
        if m == "long" and a:
            o["long"] = const(a[0])
        elif m == "action" and a and a[0].op == "agg":
            o["action"] = a[0].a[1]
        elif m == "default_value" and a:
            o["default"] = const(a[0])
        elif m == "required" and a:
            o["required"] = const(a[0]) in ("1", 1, "true")
        elif m == "value_parser" and a:
            o["values"] = {const(x) for x in flow.subterms(a[0]) if x.op == "const" and x.a[0] == "&str"}
    return o


GET = ("get_one", "value_source", "get_flag", "contains_id", "get_many", "try_get_one", "remove_one", "get_raw")


def opt_of(t):
    """The option name a call on ArgMatches reads."""
    if t.op == "call" and t.a[2] in GET and len(t.a[3]) >= 2 and "ArgMatches" in t.a[0]:
        return const(t.a[3][1])
    return None


def opts(F, bb, t):
    return {opt_of(x) for x in flow.reach_terms(F, bb, t)} - {None}
