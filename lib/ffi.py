"""What the FFI checks share: the exported functions and their bodies with the FFI crate's own
helpers (the error wrapper, closures, accessors) inlined."""
import flow
import mir
from mir import strip_refs, ty_head

SCALARS = {"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize", "f32", "f64", "bool"}
_cache = {}


def exported(prog):
    return sorted((f for f in prog.fns.values() if f.d.get("exported") and f.crate == "rustfst_ffi"),
                  key=lambda f: f.path)


def body(prog, f):
    if f.path not in _cache:
        b = mir.inline(prog, f, lambda g, c, st: g.crate == "rustfst_ffi" and g.kind in ("Fn", "AssocFn", "Closure")
                       and not (g.impl_trait and g.in_trait))
        _cache[f.path] = (b, flow.Flow(prog, b))
    return _cache[f.path]


def out_params(f):
    """Parameters a caller passes to receive a value: pointers to a scalar or to a pointer."""
    out = []
    for i, t in enumerate(f.args(), 1):
        if t.startswith("*mut "):
            x = t[5:].strip()
            if x in SCALARS or x.startswith("*"):
                out.append(i)
    return out


def param_root(t, depth=40):
    """The parameters a term is computed from."""
    out = set()
    for x in flow.subterms(t):
        if x.op == "param":
            out.add(x.a[0])
    return out
