"""What each C entry point is documented to do: the core operation it stands for and which of its own
parameters (by position, from 1) each argument of that operation is. `None` for an argument means: not
constrained. Several names mean: any of these operations is the same request."""

# entry: [(acceptable operations, [parameters of arg 1, ...])]; every listed operation is needed for success
OPS = {
    "fst_compose": [("compose", [[1], [2]])],
    "fst_compose_with_config": [("compose_with_config", [[1], [2], [3]])],
    "fst_concat": [("concat", [[1], [2]])],
    "fst_connect": [("connect", [[1]])],
    "fst_determinize": [("determinize", [[1]])],
    "fst_determinize_with_config": [("determinize_with_config", [[1], [2]])],
    "fst_isomorphic": [("isomorphic", [[1], [2]])],
    "fst_minimize": [("minimize", [[1]])],
    "fst_minimize_with_config": [("minimize_with_config", [[1], [2]])],
    "fst_optimize": [("optimize", [[1]])],
    "fst_optimize_in_log": [("optimize", [[1]]), ("weight_convert", [[1], None])],
    "fst_project": [("project", [[1], [2]])],
    "fst_randgen": [("randgen_with_config", [[1], [2, 3, 4, 5, 6]]), ("with_npath", [None, [2]]),
                    ("from_seed", [[3]]), ("with_max_length", [None, [4]]), ("with_weighted", [None, [5]]),
                    ("with_remove_total_weight", [None, [6]])],
    "fst_replace": [("replace", [[2, 3], [1], [4]])],
    "fst_reverse": [("reverse", [[1]])],
    "fst_rm_epsilon": [("rm_epsilon", [[1]])],
    "fst_shortest_path": [("shortest_path", [[1]])],
    "fst_shortest_path_with_config": [("shortest_path_with_config", [[1], [2]])],
    "fst_top_sort": [("top_sort", [[1]])],
    "fst_tr_sort": [("tr_sort", [[1], [2]])],
    "fst_tr_unique": [("tr_unique", [[1]])],
    "fst_union": [("union", [[1], [2]])],
    "concat_fst_compute": [("compute", [[1]])],
    "concat_fst_new": [("new", [[2], [3]])],
    "const_fst_copy": [("clone", [[1]])],
    "const_fst_draw": [("draw", [[1], [4], None])],
    "const_fst_equals": [("eq", [[1], [2]])],
    "const_fst_from_path": [("read", [[2]])],
    "const_fst_write_file": [("write", [[1], [2]])],
    "fst_final_weight": [("fst_final_weight|final_weight", [[1], [2]])],
    "fst_get_trs": [("fst_get_trs|get_trs", [[1], [2]])],
    "fst_input_symbols": [("fst_input_symbols|input_symbols", [[1]])],
    "fst_is_final": [("fst_is_final|is_final|fst_final_weight|final_weight", [[1], [2]])],
    "fst_is_start": [("fst_is_start|is_start", [[1], [2]])],
    "fst_num_trs": [("fst_num_trs|num_trs", [[1], [2]])],
    "fst_output_symbols": [("fst_output_symbols|output_symbols", [[1]])],
    "fst_set_input_symbols": [("fst_set_input_symbols|set_input_symbols", [[1], [2]])],
    "fst_set_output_symbols": [("fst_set_output_symbols|set_output_symbols", [[1], [2]])],
    "fst_start": [("fst_start|start", [[1]])],
    "fst_unset_input_symbols": [("fst_take_input_symbols|take_input_symbols", [[1]])],
    "fst_unset_output_symbols": [("fst_take_output_symbols|take_output_symbols", [[1]])],
    "fst_weight_one": [("one", [])],
    "fst_weight_zero": [("zero", [])],
    "utils_string_to_acceptor": [("acceptor", [[1, 2], [3]])],
    "utils_string_to_transducer": [("transducer", [[1, 3], [2, 4], [5]])],
    "vec_fst_add_state": [("add_state", [[1]])],
    "vec_fst_add_tr": [("add_tr", [[1], [2], [3]])],
    "vec_fst_copy": [("clone", [[1]])],
    "vec_fst_del_final_weight": [("delete_final_weight|take_final_weight", [[1], [2]])],
    "vec_fst_delete_states": [("del_all_states", [[1]])],
    "vec_fst_draw": [("draw", [[1], [4], None])],
    "vec_fst_equals": [("eq", [[1], [2]])],
    "vec_fst_from_bytes": [("load", [[1]])],
    "vec_fst_from_path": [("read", [[2]])],
    "vec_fst_new": [("new", [])],
    "vec_fst_num_states": [("num_states", [[1]])],
    "vec_fst_relabel_tables": [("relabel_tables", [[1], [2], [3], [4], [5], [6], [7]])],
    "vec_fst_set_final": [("set_final", [[1], [2], [3]])],
    "vec_fst_set_start": [("set_start", [[1], [2]])],
    "vec_fst_to_bytes": [("store", [[1], None])],
    "vec_fst_write_file": [("write", [[1], [2]])],
    "mut_trs_iterator_new": [("tr_iter_mut", [[1], [2]])],
    "mut_trs_iterator_set_value": [("set_tr", [[1], [1], [2]])],
    "state_iterator_new": [("states_iter", [[1]])],
    "trs_iterator_new": [("fst_get_trs|get_trs", [[1], [2]])],
    "string_path_istring": [("istring", [[1]])],
    "string_path_ostring": [("ostring", [[1]])],
    "string_path_weight": [("weight", [[1]])],
    "string_paths_iterator_new": [("string_paths_iter", [[1]])],
    "symt_add_symbol": [("add_symbol", [[1], [2]])],
    "symt_add_table": [("add_table", [[1], [2]])],
    "symt_copy": [("clone", [[1]])],
    "symt_equals": [("eq", [[1], [2]])],
    "symt_find_index": [("get_symbol", [[1], [2]])],
    "symt_find_symbol": [("get_label", [[1], [2]])],
    "symt_from_path": [("read|read_text", [[2]])],
    "symt_member_index": [("contains_label|get_symbol", [[1], [2]])],
    "symt_member_symbol": [("contains_symbol|get_label", [[1], [2]])],
    "symt_new": [("new|with_capacity|default", [])],
    "symt_num_symbols": [("len", [[1]])],
    "symt_write_file": [("write|write_text", [[1], [2]])],
    "trs_vec_len": [("len", [[1]])],
    "trs_vec_push": [("push", [[1], [2]])],
    "trs_vec_remove": [("remove", [[1], [2]])],
    "trs_vec_shallow_clone": [("shallow_clone", [[1]])],
}

# entry: (parameter, operation needed when it is true/nonzero, operation needed when it is false/zero)
CHOICE = {
    "symt_from_path": (3, "read", "read_text"),
    "symt_write_file": (3, "write", "write_text"),
    "fst_tr_sort": (2, ("tr_sort", "ILabelCompare"), ("tr_sort", "OLabelCompare")),
}

# entry: (field of the handle's transition record, 'get' or 'set')
FIELDS = {
    "tr_ilabel": ("ilabel", "get"), "tr_olabel": ("olabel", "get"), "tr_weight": ("weight", "get"),
    "tr_next_state": ("nextstate", "get"), "tr_set_ilabel": ("ilabel", "set"), "tr_set_olabel": ("olabel", "set"),
    "tr_set_weight": ("weight", "set"), "tr_set_next_state": ("nextstate", "set"),
}

# entry: {record: {field: parameters}}; the record built from the parameters
RECORDS = {
    "tr_new": {"CTr": {"ilabel": [1], "olabel": [2], "weight": [3], "nextstate": [4]}},
    "fst_compose_config_new": {"CComposeConfig": {"compose_filter": [1], "connect": [2], "matcher1_config": [3],
                                                  "matcher2_config": [4]}},
    "fst_matcher_config_new": {"CSigmaMatcherConfig": {"sigma_label": [1], "rewrite_mode": [2],
                                                       "sigma_allowed_matches": [3]}},
    "fst_determinize_config_new": {"CDeterminizeConfig": {"delta": [1], "det_type": [2]}},
    "fst_minimize_config_new": {"CMinimizeConfig": {"delta": [1], "allow_nondet": [2]}},
    "fst_shortest_path_config_new": {"CShortestPathConfig": {"delta": [1], "nshortest": [2], "unique": [3]}},
}
DRAW = {"title": [5], "acceptor": [6], "size": [7, 8], "portrait": [9], "vertical": [10], "ranksep": [11],
        "nodesep": [12], "fontsize": [13], "show_weight_one": [14], "print_weight": [15]}
RECORDS["vec_fst_draw"] = {"DrawingConfig": DRAW}
RECORDS["const_fst_draw"] = {"DrawingConfig": DRAW}

# methods of the crate's object-safe view of an FST: the core accessor each stands for
DYN = {
    "fst_start": ("start", [[1]]), "fst_final_weight": ("final_weight", [[1], [2]]),
    "fst_num_trs": ("num_trs|get_trs", [[1], [2]]), "fst_get_trs": ("get_trs", [[1], [2]]),
    "fst_input_symbols": ("input_symbols", [[1]]), "fst_output_symbols": ("output_symbols", [[1]]),
    "fst_set_input_symbols": ("set_input_symbols", [[1], [2]]),
    "fst_set_output_symbols": ("set_output_symbols", [[1], [2]]),
    "fst_take_input_symbols": ("take_input_symbols", [[1]]),
    "fst_take_output_symbols": ("take_output_symbols", [[1]]),
    "fst_is_final": ("is_final|final_weight|fst_is_final|fst_final_weight", [[1], [2]]),
    "fst_is_start": ("is_start|start|fst_start", [[1]]),
}
