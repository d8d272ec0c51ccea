import ast

import facts
import ffi
import mir
import pyast
from checks import p24
import flow

EXPLANATION = """
The Python package's syntax trees are matched against the C entry points' type-checked signatures: every call
into the native library is located; its target, number of arguments and, per position, the kind of value passed
(handle, byte string, by-reference result, C scalar of the right class) are compared with the exported function;
local variables are followed to what they were made of. Enum values and record layouts are compared with the
native ones, the return status must be examined, and each class must use, and release, one kind of handle.
"""
RULE = """
(1) each native call names an exported function, passes as many arguments as it has parameters, each of the right
kind; (2) its status is examined before any result is used (except when releasing in a finaliser); (3) an argument
named after one parameter is not passed for another, and arguments of the same native type are passed in the
order of the Python function's own parameters; (4) each Python operation calls the native entry point of the same
meaning with the documented constants; (5) Python enum members have the native integers; (6) ctypes records have
the native fields at the native offsets, at least as wide; (7) a class passes and releases one handle type only;
(8) the value returned derives from the by-reference result.
"""
INT = {"usize": 8, "u64": 8, "i64": 8, "isize": 8, "u32": 4, "i32": 4, "u16": 2, "u8": 1, "i8": 1, "bool": 1}
CT = {"c_size_t": 8, "c_uint64": 8, "c_int64": 8, "c_ulong": 8, "c_long": 8, "c_ssize_t": 8, "c_uint32": 4, "c_int32": 4,
      "c_uint": 4, "c_int": 4, "c_uint8": 1, "c_int8": 1, "c_bool": 1, "c_byte": 1, "c_ubyte": 1, "c_uint16": 2,
      "c_int16": 2, "c_void_p": 8, "c_char_p": 8, "POINTER": 8, "c_float": 4, "c_double": 8}
# Python operation -> native entry points it stands for (any spelling of the operation reaches all of them)
MEANS = {
    "acceptor": ["utils_string_to_acceptor"], "transducer": ["utils_string_to_transducer"],
    "MatcherConfig.__init__": ["fst_matcher_config_new"], "ComposeConfig.__init__": ["fst_compose_config_new"],
    "compose": ["fst_compose"], "compose_with_config": ["fst_compose_with_config"], "concat": ["fst_concat"],
    "connect": ["fst_connect"], "DeterminizeConfig.__init__": ["fst_determinize_config_new"],
    "determinize": ["fst_determinize"], "determinize_with_config": ["fst_determinize_with_config"],
    "isomorphic": ["fst_isomorphic"], "MinimizeConfig.__init__": ["fst_minimize_config_new"],
    "minimize": ["fst_minimize"], "minimize_with_config": ["fst_minimize_with_config"],
    "optimize": ["fst_optimize"], "optimize_in_log": ["fst_optimize_in_log"],
    "project": ["fst_project_type_new", "fst_project"], "randgen": ["fst_randgen"], "replace": ["fst_replace"],
    "reverse": ["fst_reverse"], "rm_epsilon": ["fst_rm_epsilon"],
    "ShortestPathConfig.__init__": ["fst_shortest_path_config_new"], "shortestpath": ["fst_shortest_path"],
    "shortestpath_with_config": ["fst_shortest_path_with_config"], "top_sort": ["fst_top_sort"],
    "tr_sort": ["fst_tr_sort"], "tr_unique": ["fst_tr_unique"], "union": ["fst_union"],
    "Fst.start": ["fst_start"], "Fst.final": ["fst_final_weight"], "Fst.num_trs": ["fst_num_trs"],
    "Fst.is_final": ["fst_is_final"], "Fst.is_start": ["fst_is_start"], "Fst.input_symbols": ["fst_input_symbols"],
    "Fst.output_symbols": ["fst_output_symbols"],
    "Fst.set_input_symbols": ["fst_set_input_symbols", "fst_unset_input_symbols"],
    "Fst.set_output_symbols": ["fst_set_output_symbols", "fst_unset_output_symbols"],
    "Fst.__del__": ["fst_destroy"], "VectorFst.add_tr": ["vec_fst_add_tr"], "VectorFst.add_state": ["vec_fst_add_state"],
    "VectorFst.set_final": ["vec_fst_set_final"], "VectorFst.unset_final": ["vec_fst_del_final_weight"],
    "VectorFst.delete_states": ["vec_fst_delete_states"], "VectorFst.num_states": ["vec_fst_num_states"],
    "VectorFst.set_start": ["vec_fst_set_start"], "VectorFst.relabel_tables": ["vec_fst_relabel_tables"],
    "VectorFst.draw": ["vec_fst_draw"], "VectorFst.read": ["vec_fst_from_path"],
    "VectorFst.write": ["vec_fst_write_file"], "VectorFst.from_bytes": ["vec_fst_from_bytes"],
    "VectorFst.to_bytes": ["vec_fst_to_bytes"], "VectorFst.equals": ["vec_fst_equals"],
    "VectorFst.copy": ["vec_fst_copy"], "VectorFst.__str__": ["vec_fst_display"],
    "ConstFst.draw": ["const_fst_draw"], "ConstFst.read": ["const_fst_from_path"],
    "ConstFst.write": ["const_fst_write_file"], "ConstFst.equals": ["const_fst_equals"],
    "ConstFst.copy": ["const_fst_copy"], "ConstFst.__str__": ["const_fst_display"],
    "Trs.__init__": ["trs_vec_new"], "Trs.push": ["trs_vec_push"], "Trs.remove": ["trs_vec_remove"],
    "Trs.len": ["trs_vec_len"], "Trs.shallow_clone": ["trs_vec_shallow_clone"], "Trs.__repr__": ["trs_vec_display"],
    "Trs.__del__": ["trs_vec_delete"], "SymbolTable.__init__": ["symt_new"],
    "SymbolTable.add_symbol": ["symt_add_symbol"], "SymbolTable.add_table": ["symt_add_table"],
    "SymbolTable.copy": ["symt_copy"], "SymbolTable._find_index": ["symt_find_index"],
    "SymbolTable._find_symbol": ["symt_find_symbol"], "SymbolTable.find": ["symt_find_index", "symt_find_symbol"],
    "SymbolTable.member": ["symt_member_index", "symt_member_symbol"],
    "SymbolTable.num_symbols": ["symt_num_symbols"], "SymbolTable.read": ["symt_from_path"],
    "SymbolTable.read_text": ["symt_from_path"], "SymbolTable.write": ["symt_write_file"],
    "SymbolTable.write_text": ["symt_write_file"], "SymbolTable.equals": ["symt_equals"],
    "SymbolTable.__del__": ["symt_destroy"], "TrsIterator.__init__": ["trs_iterator_new"],
    "TrsIterator.done": ["trs_iterator_done"], "TrsIterator.__next__": ["trs_iterator_next"],
    "TrsIterator.reset": ["trs_iterator_reset"], "TrsIterator.__del__": ["trs_iterator_destroy"],
    "MutableTrsIterator.__init__": ["mut_trs_iterator_new"], "MutableTrsIterator.done": ["mut_trs_iterator_done"],
    "MutableTrsIterator.__next__": ["mut_trs_iterator_next"], "MutableTrsIterator.reset": ["mut_trs_iterator_reset"],
    "MutableTrsIterator.set_value": ["mut_trs_iterator_set_value"], "MutableTrsIterator.value": ["mut_trs_iterator_value"],
    "MutableTrsIterator.__del__": ["mut_trs_iterator_destroy"], "StateIterator.__init__": ["state_iterator_new"],
    "StateIterator.done": ["state_iterator_done"], "StateIterator.__next__": ["state_iterator_next"],
    "StateIterator.__del__": ["state_iterator_destroy"], "Tr.__init__": ["tr_new"], "Tr.__del__": ["tr_delete"],
    "weight_one": ["fst_weight_one"], "weight_zero": ["fst_weight_zero"], "StringPath.weight": ["string_path_weight"],
    "StringPath.istring": ["string_path_istring"], "StringPath.ostring": ["string_path_ostring"],
    "StringPath.__del__": ["string_path_destroy"], "StringPathsIterator.__init__": ["string_paths_iterator_new"],
    "StringPathsIterator.__next__": ["string_paths_iterator_next"], "StringPathsIterator.done": ["string_paths_iterator_done"],
    "StringPathsIterator.__del__": ["string_paths_iterator_destroy"],
    "MatcherConfig.__del__": ["fst_matcher_config_destroy"], "ComposeConfig.__del__": ["fst_compose_config_destroy"],
    "VectorFst.compose": ["fst_compose", "fst_compose_with_config"], "VectorFst.concat": ["fst_concat"],
    "VectorFst.connect": ["fst_connect"], "VectorFst.top_sort": ["fst_top_sort"],
    "VectorFst.determinize": ["fst_determinize", "fst_determinize_with_config"],
    "VectorFst.minimize": ["fst_minimize", "fst_minimize_with_config"], "VectorFst.project": ["fst_project"],
    "VectorFst.replace": ["fst_replace"], "VectorFst.reverse": ["fst_reverse"], "VectorFst.rm_epsilon": ["fst_rm_epsilon"],
    "VectorFst.shortest_path": ["fst_shortest_path", "fst_shortest_path_with_config"],
    "VectorFst.union": ["fst_union"], "VectorFst.optimize": ["fst_optimize"],
    "VectorFst.optimize_in_log": ["fst_optimize_in_log"], "VectorFst.tr_sort": ["fst_tr_sort"],
    "VectorFst.tr_unique": ["fst_tr_unique"], "VectorFst.isomorphic": ["fst_isomorphic"],
    "VectorFst.__add__": ["vec_fst_copy", "fst_concat"], "VectorFst.__mul__": ["fst_compose"],
    "VectorFst.__or__": ["vec_fst_copy", "fst_union"], "concat_list": ["vec_fst_copy", "fst_concat"],
    "union_list": ["vec_fst_copy", "fst_union"],
}
PROPERTY = {"ilabel": ("tr_ilabel", "tr_set_ilabel"), "olabel": ("tr_olabel", "tr_set_olabel"),
            "weight": ("tr_weight", "tr_set_weight"), "next_state": ("tr_next_state", "tr_set_next_state")}
CONST = {"SymbolTable.read": ("symt_from_path", 2, 1), "SymbolTable.read_text": ("symt_from_path", 2, 0),
         "SymbolTable.write": ("symt_write_file", 2, 1), "SymbolTable.write_text": ("symt_write_file", 2, 0)}


def run(ctx):
    prog = ctx.prog
    exp = {f.name: f for f in ffi.exported(prog)}
    funcs = pyast.functions()
    bycls = {}
    for fi in funcs:
        ctx.count("python_functions")
        for c in fi.calls:
            check_call(ctx, prog, exp, fi, c, bycls)
    means(ctx, funcs, exp)
    classes = pyast.classes()
    handles(ctx, bycls, classes)
    enums(ctx, prog, classes)
    layouts(ctx, prog, exp, funcs, classes)
    ctx.floor("native_calls", 80)
    ctx.floor("python_enums", 3)


def w(fi, n):
    return "%s:%d" % (fi.mod, n.lineno)


def kind(t):
    t = t.strip()
    if t in INT:
        return "bool" if t == "bool" else "int"
    if t in ("f32", "f64"):
        return t
    if t.startswith("*"):
        x = t.split(" ", 1)[1].strip()
        if x in ("i8", "u8") or x.endswith("c_char"):
            return "str"
        if t.startswith("*mut ") and x in INT:
            return "out:int:%d" % INT[x]
        if t.startswith("*mut ") and x in ("f32", "f64"):
            return "out:" + x
        if x.startswith("*"):
            return "out:ptr"
        if x in INT:
            return "int"  # a scalar passed in a pointer-sized argument
        return "handle:" + mir.ty_head(x)[0].split("::")[-1]
    return "record:" + mir.ty_head(t)[0].split("::")[-1]


def check_call(ctx, prog, exp, fi, c, bycls):
    name = c.func.attr
    ctx.count("native_calls")
    if name not in exp:
        ctx.violation("symbol:%s:%s" % (fi.qual, name), "%s calls %s, which the native library does not export" % (
            fi.qual, name), w(fi, c))
        return
    f = exp[name]
    if len(c.args) != f.argc or c.keywords:
        ctx.violation("arity:%s:%s" % (fi.qual, name), "%s passes %d arguments to %s, which takes %d" % (
            fi.qual, len(c.args), name, f.argc), w(fi, c))
        return
    pn = f.arg_names()
    outs = []
    for i, (a, t) in enumerate(zip(c.args, f.args())):
        k = kind(t)
        ctx.count("arguments")
        ok, why = accepts(fi, a, k)
        if not ok:
            ctx.violation("arg:%s:%s:%d" % (fi.qual, name, i + 1), "%s passes %s for the parameter `%s` of %s (%s)" % (
                fi.qual, why, pn[i], name, t), w(fi, c))
        if t in INT and t != "bool":
            for e in fi.resolve(a):
                n = pyast.call_name(e)
                if n in CT and CT[n] < INT[t]:
                    ctx.violation("arg:%s:%s:%d" % (fi.qual, name, i + 1), "%s passes the %d-byte `%s` for the "
                                  "%d-byte parameter `%s` of %s" % (fi.qual, CT[n], ast.unparse(e), INT[t], pn[i], name),
                                  w(fi, c))
        if k.startswith("handle:") and ast.unparse(a) in ("self.ptr", "self._ptr") and fi.cls:
            bycls.setdefault(fi.cls, {}).setdefault((ast.unparse(a), k[7:]), (fi, c, name))
        if k.startswith("out:") and pyast.call_name(a) == "byref" and a.args:
            outs.append((a.args[0], pn[i]))
    # (3) names
    norm = [x[:-4] if x.endswith("_ptr") else x for x in pn]
    toks = [fi.tokens(a) for a in c.args]
    for i, tk in enumerate(toks):
        if norm[i] in tk or pn[i] in tk:
            continue
        for j in range(len(norm)):
            if j != i and norm[j] in tk and norm[j] not in ("fst", "ptr", "symt", "config", "self", "state", "tr") and \
                    kind(f.args()[i]).split(":")[0] == kind(f.args()[j]).split(":")[0]:
                ctx.violation("swap:%s:%s:%d" % (fi.qual, name, i + 1), "%s passes `%s` for the parameter `%s` of %s" % (
                    fi.qual, norm[j], pn[i], name), w(fi, c))
    last = {}
    for i, a in enumerate(c.args):
        k = f.args()[i]
        if kind(k).startswith("out"):
            continue
        r = [fi.params.index(x) for x in fi.roots(a)]
        if len(r) == 1:
            if k in last and r[0] < last[k] and fi.params[r[0]] not in norm:
                ctx.violation("order:%s:%s:%d" % (fi.qual, name, i + 1), "%s passes its parameters to %s out of order "
                              "(`%s` for `%s`)" % (fi.qual, name, fi.params[r[0]], pn[i]), w(fi, c))
            last[k] = r[0]
    # (2) status
    status(ctx, fi, c, name)
    # (8) result
    for e, p in outs:
        v = pyast.name_of(e)
        if v and not used_after(fi, v, c):
            ctx.violation("result:%s:%s" % (fi.qual, name), "%s does not use the result `%s` of %s" % (fi.qual, p, name),
                          w(fi, c))
        ctx.count("results")
        rets = [n for n in ast.walk(fi.node) if isinstance(n, ast.Return) and n.value is not None]
        if v and rets and "." not in v and fi.name not in ("__init__", "project") and not in_branch_only(fi, c):
            vals = [n for n in rets if n.lineno >= c.lineno]
            if vals and not any(v in fi.tokens(n.value) for n in vals):
                ctx.violation("result:%s:%s" % (fi.qual, name), "%s does not return the result of %s" % (fi.qual, name),
                              w(fi, c))


def in_branch_only(fi, c):
    return False


def used_after(fi, v, call):
    for n in ast.walk(fi.node):
        if isinstance(n, (ast.Name, ast.Attribute)) and pyast.name_of(n) == v and isinstance(getattr(n, "ctx", None), ast.Load):
            if n.lineno > call.end_lineno:
                return True
    return "." in v


def accepts(fi, a, k):
    alts = fi.resolve(a)
    if k == "str" and any(accept1(fi, e, k)[0] for e in alts):
        return True, ""
    for e in alts:
        ok, why = accept1(fi, e, k)
        if not ok:
            return ok, why
    return True, ""


def accept1(fi, e, k):
    cn = pyast.call_name(e)
    if k.startswith("out:"):
        if cn not in ("byref", "pointer"):
            return False, "`%s` by value" % ast.unparse(e)
        if not e.args:
            return True, ""
        for v in fi.resolve(e.args[0]):
            n = pyast.call_name(v)
            if n is None:
                continue
            if n not in CT and n != "pointer":
                continue  # a helper of the package
            if k == "out:ptr":
                if CT.get(n, 8) != 8 or n == "c_double":
                    return False, "the address of a %s" % n
            elif k in ("out:f32", "out:f64"):
                if n != ("c_float" if k == "out:f32" else "c_double"):
                    return False, "the address of a %s" % n
            else:
                if n not in CT or n in ("c_float", "c_double"):
                    return False, "the address of a %s" % n
                if CT[n] < int(k.split(":")[2]):
                    return False, "the address of a %s, which is too small" % n
                if v.args:
                    return False, "an initialised %s" % n
        return True, ""
    if k == "f32":
        return (cn in ("c_float",) or cn is None and not isinstance(e, ast.Constant)) and cn != "c_double", "`%s`" % ast.unparse(e)
    if k in ("int", "bool"):
        if cn in ("byref", "encode", "c_float", "c_double", "pointer", "c_char_p", "str"):
            return False, "`%s`" % ast.unparse(e)
        if isinstance(e, ast.Attribute) and e.attr in ("ptr", "_ptr"):
            return False, "the handle `%s`" % ast.unparse(e)
        return True, ""
    if k == "str":
        if isinstance(e, ast.Call) and cn in ("encode", "c_char_p", "bytes"):
            return True, ""
        if isinstance(e, ast.Constant) and isinstance(e.value, bytes):
            return True, ""
        if isinstance(e, ast.Name):
            return e.id in ("ptr",), "`%s`, which is not encoded" % ast.unparse(e)
        if isinstance(e, ast.Name) or (isinstance(e, ast.Attribute)):
            return False, "`%s`, which is not encoded" % ast.unparse(e)
        return cn in ("c_void_p",) or cn is None, "`%s`" % ast.unparse(e)
    if k.startswith("handle:"):
        if cn in ("c_size_t", "c_float", "c_bool", "encode", "str", "int"):
            return False, "`%s`" % ast.unparse(e)
        if isinstance(e, ast.Constant) and e.value is not None:
            return False, "`%s`" % ast.unparse(e)
        if isinstance(e, ast.Name) and e.id in fi.params and e.id not in ("ptr",):
            return False, "the object `%s` instead of its handle" % e.id
        return True, ""
    return True, ""


def status(ctx, fi, c, name):
    if fi.name == "__del__" or name in ("rustfst_ffi_get_last_error", "rustfst_destroy_string"):
        return
    p = c._parent
    ctx.count("statuses")
    good = False
    if isinstance(p, ast.Assign) and isinstance(p.targets[0], ast.Name):
        v = p.targets[0].id
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Call) and pyast.call_name(n) == "check_ffi_error" and n.lineno >= c.lineno and n.args and \
                    v in {x.id for x in ast.walk(n.args[0]) if isinstance(x, ast.Name)}:
                # no other assignment to the variable in between
                later = [a for a in ast.walk(fi.node) if isinstance(a, ast.Assign) and
                         any(isinstance(t, ast.Name) and t.id == v for t in a.targets) and
                         c.lineno < a.lineno <= n.lineno and not exclusive(a, p)]
                if not later:
                    good = True
    elif isinstance(p, ast.Call) and pyast.call_name(p) == "check_ffi_error":
        good = True
    elif isinstance(p, (ast.Compare, ast.Return)):
        good = True
    if not good:
        ctx.violation("status:%s:%s" % (fi.qual, name), "%s does not examine the status of %s" % (fi.qual, name), w(fi, c))


def exclusive(a, b):
    """Are the two statements in different branches of one if?"""
    def chain(n):
        out = []
        while hasattr(n, "_parent"):
            p = n._parent
            if isinstance(p, ast.If):
                out.append((p, "body" if n in p.body else "else"))
            n = p
        return dict(out)
    x, y = chain(a), chain(b)
    return any(p in y and y[p] != br for p, br in x.items())


def means(ctx, funcs, exp):
    table = {}
    for fi in funcs:
        deco = [ast.unparse(d) for d in fi.node.decorator_list]
        if fi.cls == "Tr" and fi.name in PROPERTY:
            want = PROPERTY[fi.name][1 if any(d.endswith(".setter") for d in deco) else 0]
            got = {c.func.attr for c in fi.calls}
            ctx.count("operations")
            if got and want not in got:
                ctx.violation("means:%s" % fi.qual, "Tr.%s calls %s instead of %s" % (fi.name, sorted(got), want),
                              w(fi, fi.node))
            continue
        table.setdefault(fi.qual, fi)

    def reach(fi, seen):
        if fi in seen:
            return set()
        seen.add(fi)
        out = {c.func.attr for c in fi.calls}
        imported = {}
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Name) and f.id in table:
                    out |= reach(table[f.id], seen)
                elif isinstance(f, ast.Attribute):
                    v = pyast.name_of(f.value)
                    for cls in ([fi.cls] if fi.cls and v in ("self", "cls") else []) + ["VectorFst", "Fst", "SymbolTable"]:
                        q = "%s.%s" % (cls, f.attr)
                        if q in table and v != "lib":
                            out |= reach(table[q], seen)
                            break
        return out
    for q, ents in MEANS.items():
        if q not in table:
            continue
        fi = table[q]
        got = reach(fi, set())
        ctx.count("operations")
        for e in ents:
            if e not in got:
                ctx.violation("means:%s:%s" % (q, e), "%s does not reach the native operation %s (it calls %s)" % (
                    q, e, sorted({c.func.attr for c in fi.calls})), w(fi, fi.node))
        direct = {c.func.attr for c in fi.calls}
        fam = {"__init__", "input_symbols"}
        extra = {d for d in direct if d in exp and d not in ents and d not in (
            "fst_input_symbols", "fst_output_symbols", "fst_weight_one")}
        if extra and fi.name not in ("__init__",) and len(ents) == 1:
            ctx.violation("means:%s:%s" % (q, sorted(extra)[0]), "%s also calls %s" % (q, sorted(extra)), w(fi, fi.node))
        if q in CONST:
            ent, pos, val = CONST[q]
            for c in fi.calls:
                if c.func.attr == ent and len(c.args) > pos:
                    e = fi.resolve(c.args[pos])[0]
                    v = e.args[0] if isinstance(e, ast.Call) and e.args else e
                    if isinstance(v, ast.Constant) and int(v.value) != val:
                        ctx.violation("const:%s" % q, "%s asks %s for the %s form" % (
                            q, ent, "binary" if v.value else "text"), w(fi, c))
    # branches of set_*_symbols / find / member / *_with_config choose by the documented test
    for q, param, none_ent, some_ent in (
            ("Fst.set_input_symbols", "syms", "fst_unset_input_symbols", "fst_set_input_symbols"),
            ("Fst.set_output_symbols", "syms", "fst_unset_output_symbols", "fst_set_output_symbols")):
        fi = table.get(q)
        if not fi:
            continue
        for c in fi.calls:
            br = none_branch(fi, c, param)
            if br is True and c.func.attr == some_ent or br is False and c.func.attr == none_ent:
                ctx.violation("branch:" + q, "%s calls %s when the table is %s" % (
                    q, c.func.attr, "None" if br else "given"), w(fi, c))


def none_branch(fi, c, param):
    n = c
    while hasattr(n, "_parent"):
        p = n._parent
        if isinstance(p, ast.If):
            t = p.test
            if isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == param and isinstance(
                    t.comparators[0], ast.Constant) and t.comparators[0].value is None:
                isn = isinstance(t.ops[0], ast.Is)
                inbody = any(n is s or any(n is y for y in ast.walk(s)) for s in p.body)
                return isn if inbody else not isn
        n = p
    return None


def handles(ctx, bycls, classes):
    for cls, d in sorted(bycls.items()):
        per = {}
        for (attr, ty), (fi, c, name) in d.items():
            per.setdefault(attr, {})[ty] = (fi, c, name)
        for attr, tys in per.items():
            ctx.count("handle_classes")
            if len(tys) > 1:
                fi, c, name = sorted(tys.items())[0][1]
                ctx.violation("handle:%s" % cls, "%s passes %s as different native types %s" % (cls, attr, sorted(tys)),
                              w(fi, c))


def norm(s):
    return s.replace("_", "").lower()


def enums(ctx, prog, classes):
    native = {}
    for f in prog.fns.values():
        if f.crate == "rustfst_ffi" and f.name == "as_rust" and f.kind != "Closure":
            b = mir.inline(prog, f, lambda g, c, st: False)
            adt, m = p24.enum_map(prog, f, b, flow.Flow(prog, b))
            if m:
                native[norm(adt.split("::")[-1])] = (adt, m)
    alias = {"composefilter": "composefilterenum"}
    for name, (mod, n) in sorted(classes.items()):
        if not any(ast.unparse(b).split(".")[-1] in ("Enum", "IntEnum") for b in n.bases):
            continue
        k = alias.get(norm(name), norm(name))
        if k not in native:
            continue
        ctx.count("python_enums")
        adt, m = native[k]
        got = {}
        for s in n.body:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant):
                got[norm(s.targets[0].id)] = s.value.value
        want = {}
        for v, var in m.items():
            want[norm(var)] = v
        for mem, val in got.items():
            hit = [x for x in want if x == mem] or [x for x in want if x.endswith(mem)]
            if len(hit) > 1:
                hit = [min(hit, key=len)]
            if not hit:
                ctx.violation("enum:%s.%s" % (name, mem), "the Python value %s.%s has no native counterpart" % (name, mem),
                              "%s:%d" % (mod, n.lineno))
            elif want[hit[0]] != val:
                ctx.violation("enum:%s.%s" % (name, mem), "%s.%s is %s in Python and %s in the native library" % (
                    name, mem, val, want[hit[0]]), "%s:%d" % (mod, n.lineno))
            ctx.count("enum_members")
        if len(set(got.values())) != len(m):
            ctx.violation("enum:" + name, "%s has %d values, the native type %d" % (name, len(got), len(m)),
                          "%s:%d" % (mod, n.lineno))


def layouts(ctx, prog, exp, funcs, classes):
    pairs = [("CIntArray", "CIntArray"), ("LabelFstPair", "CLabelFstPair"), ("BytesArray", "CBytesArray")]
    for py, rs in pairs:
        ad = [a for p, a in prog.adts.items() if p.startswith("rustfst_ffi::") and p.split("::")[-1] == rs]
        if py not in classes or not ad:
            continue
        mod, n = classes[py]
        flds = None
        for s in n.body:
            if isinstance(s, ast.Assign) and getattr(s.targets[0], "id", "") == "_fields_":
                flds = [(e.elts[0].value, ctype(e.elts[1])) for e in s.value.elts]
        nat = [(x["name"], size(x["ty"])) for x in ad[0]["variants"][0]["fields"]]
        if flds is None or any(x[1] is None for x in flds) or any(x[1] is None for x in nat):
            continue
        ctx.count("record_layouts")
        po, no = offsets([x[1] for x in flds]), offsets([x[1] for x in nat])
        if po != no or any(a[1] < b[1] for a, b in zip(flds, nat)):
            ctx.violation("layout:" + py, "the record %s has fields at %s of sizes %s; the native %s has %s of sizes %s" % (
                py, po, [x[1] for x in flds], rs, no, [x[1] for x in nat]), "%s:%d" % (mod, n.lineno))


def ctype(e):
    s = ast.unparse(e).split(".")[-1] if not isinstance(e, ast.Call) else pyast.call_name(e)
    return CT.get(s)


def size(t):
    if t.startswith("*"):
        return 8
    return INT.get(t, 4 if t == "f32" else 8 if t == "f64" else None)


def offsets(sz):
    o, out = 0, []
    for s in sz:
        o = (o + s - 1) // s * s
        out.append(o)
        o += s
    return out
