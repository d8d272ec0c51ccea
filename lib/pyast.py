"""Facts about the Python bindings, from their syntax trees: every call into the native library with,
per argument, what it is made of."""
import ast
import os

import facts

PKG = "rustfst-python/rustfst"


class Call:
    __slots__ = ("fn", "mod", "cls", "func", "entry", "args", "ln", "node", "ret", "kw")


def modules():
    base = os.path.join(facts.REPO, PKG)
    out = {}
    for d, ds, fs in os.walk(base):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(".py"):
                p = os.path.join(d, f)
                rel = os.path.relpath(p, facts.REPO)
                out[rel] = ast.parse(open(p).read(), p)
    return out


class FuncInfo:
    def __init__(self, mod, cls, node):
        self.mod, self.cls, self.node, self.name = mod, cls, node, node.name
        self.qual = (cls + "." if cls else "") + node.name
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args] + [x.arg for x in a.kwonlyargs]
        # variable -> list of value expressions
        self.defs = {}
        self.calls = []
        for n in ast.walk(node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ([t] if isinstance(t, (ast.Name, ast.Attribute)) else list(getattr(t, "elts", []))):
                        k = name_of(x)
                        if k:
                            self.defs.setdefault(k, []).append((n.value, n.lineno))
            elif isinstance(n, ast.AnnAssign) and n.value is not None and name_of(n.target):
                self.defs.setdefault(name_of(n.target), []).append((n.value, n.lineno))
            elif isinstance(n, (ast.With,)):
                for it in n.items:
                    if it.optional_vars is not None and name_of(it.optional_vars):
                        self.defs.setdefault(name_of(it.optional_vars), []).append((it.context_expr, n.lineno))
            elif isinstance(n, ast.NamedExpr):
                self.defs.setdefault(n.target.id, []).append((n.value, n.lineno))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                    n.func.value.id == "lib":
                self.calls.append(n)

    def resolve(self, e, seen=()):
        """Expressions a variable stands for (a parameter stands for itself)."""
        k = name_of(e)
        if k and k in self.defs and k not in seen:
            out = []
            ds = sorted(((v, ln) for v, ln in self.defs[k] if ln < e.lineno), key=lambda x: x[1])
            whole = [i for i, (v, ln) in enumerate(ds) if unconditional(v, self.node)]
            if whole:
                ds = ds[whole[-1]:]
            for v, ln in ds:
                out.extend(self.resolve(v, seen + (k,)))
            if k in self.params and not whole:
                out.append(e)
            return out or [e]
        return [e]

    def tokens(self, e, seen=()):
        """Identifiers an expression is computed from, through local variables."""
        out = set()
        for n in ast.walk(e):
            if isinstance(n, ast.Attribute):
                out.add(n.attr)
            if isinstance(n, ast.Name):
                out.add(n.id)
                if n.id in self.defs and n.id not in seen:
                    for v, _ in self.defs[n.id]:
                        out |= self.tokens(v, seen + (n.id,))
        return out

    def roots(self, e, seen=()):
        """Parameters of the function an expression is computed from."""
        out = set()
        for n in ast.walk(e):
            if isinstance(n, ast.Name):
                if n.id in self.params:
                    out.add(n.id)
                if n.id in self.defs and n.id not in seen:
                    for v, _ in self.defs[n.id]:
                        out |= self.roots(v, seen + (n.id,))
        return out


def unconditional(v, fn):
    n = v
    while hasattr(n, "_parent") and not isinstance(n, ast.stmt):
        n = n._parent
    return getattr(n, "_parent", None) is fn


def name_of(x):
    if isinstance(x, ast.Name):
        return x.id
    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name):
        return x.value.id + "." + x.attr
    return None


def functions():
    out = []
    for mod, tree in modules().items():
        for n in ast.walk(tree):
            for ch in ast.iter_child_nodes(n):
                ch._parent = n
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                p = n._parent
                out.append(FuncInfo(mod, p.name if isinstance(p, ast.ClassDef) else None, n))
    return out


def classes():
    out = {}
    for mod, tree in modules().items():
        for n in ast.walk(tree):
            if isinstance(n, ast.ClassDef):
                out[n.name] = (mod, n)
    return out


def call_name(e):
    """ctypes.c_size_t(...) -> 'c_size_t'"""
    if isinstance(e, ast.Call):
        f = e.func
        return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
    return None
