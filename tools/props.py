PROPS = []
NA = []
NOTES = ("All checks are static: a rustc_private driver (driver/) compiles the workspace in /repo's current "
         "tree with its own callbacks and dumps the type-checked MIR, which lib/ analyses. Nothing of /repo is run.")


def prop(id, title, statement, over, forall, why, files, mech, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why, files=files,
                      mech=mech, technique=technique, note=note))


def na(id, title, statement, over, forall, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why, files=files,
                   mech=mech, reason=reason))


prop("P07", "Concurrent use of a lazy FST never deadlocks or mixes two cache snapshots",
     "Any number of threads may use the same lazy FST, cache or state table at once, including comparing it with "
     "itself or serialising it, without a deadlock. A cache lookup-or-insert is atomic: two threads asking for the "
     "same key get the same id, and what is written out is one consistent snapshot of each table.",
     ["schedules"], "every interleaving of operations on shared lazy FSTs, caches and state tables",
     "the tests are single threaded; lock order and check-then-act gaps show only under particular interleavings",
     ["rustfst/src/algorithms/lazy", "rustfst/src/algorithms/compose/compose_filters",
      "rustfst/src/algorithms/compose/state_table.rs"],
     [("Mutex guards of the caches and tables", "rustfst/src/algorithms/lazy/cache/*.rs, state_table.rs")],
     "lock-acquisition graph and guard-liveness dataflow on MIR",
     "Interprocedural over the type-checked MIR of the workspace. Lock identity is the field path of the mutex. "
     "Trusts std's Mutex and the monomorphic resolution of trait calls (candidates are over-approximated).")

prop("P10", "The C API reports every outcome: success means all outputs are written",
     "Every exported C function returns a status. If it returns success then no operation it performed failed and "
     "every output parameter has been written; if it returns failure an error message is available from the "
     "last-error call.",
     ["inputs", "fault_sequences"], "every exported function, every argument value and every internal failure",
     "tests reach the C API only through a few Python tests that are not in the suite; success paths that skip an "
     "output need specific inputs (an FST without start, a state without final weight, a missing symbol)",
     ["rustfst-ffi/src"], [("wrap() and last-error cell", "rustfst-ffi/src/lib.rs")],
     "path-separating typestate on inlined MIR",
     "All return sites of all exported functions, with helpers, closures and Result combinators inlined. "
     "Out-parameters are parameters of type pointer to scalar or pointer to pointer.")


prop("P11", "C entry points are safe to call from C with any pointer or index",
     "Every exported function uses the C calling convention and C-representable types, tests a pointer for null "
     "before reading through it and answers null with an error, checks an index or range before using it, never lets a "
     "panic that its own code raises cross the boundary, hands out heap objects exactly once and releases an object "
     "only in its destroy function (or where it takes ownership).",
     ["inputs", "api_histories"], "every exported function and every argument value, null and out-of-range ones included",
     "the tests call the C API only with well-formed arguments",
     ["rustfst-ffi/src"], [("exported functions", "rustfst-ffi/src/**/*.rs"), ("null checks", "ffi_convert macros, get! macros")],
     "guard-domination and ownership dataflow on inlined MIR, plus type-layout queries",
     "All exported functions with the FFI crate's helpers inlined. Panics inside the core library are outside this "
     "property (see P06, P17).")

prop("P12", "The Python package calls the native library as it is declared",
     "Every native call in the Python package names an existing C entry point, passes as many arguments as it takes, "
     "each by the kind of value the parameter has (handle, output by reference, encoded string, integer, float, bool), "
     "checks the returned status, reads its outputs only after the call with the declared C type, returns/wraps what the call "
     "produced, and passes the caller's values in the documented positions; ctypes structures have the layout of the "
     "native ones and every handle class releases its handle with the matching destroy function.",
     ["inputs"], "every native call site of the Python package",
     "ctypes checks nothing: a wrong arity, type or order is undefined behaviour that tests see only on the calls they make",
     ["rustfst-python/rustfst", "rustfst-ffi/src"], [("lib.* call sites", "rustfst-python/rustfst/**/*.py")],
     "cross-language signature and dataflow analysis (Python ast against the compiler's view of the C functions)",
     "All lib.<name>() call sites; two missing entry points are recorded as known findings.")

prop("P24", "C functions do what they are named for, on the arguments given",
     "Each exported C function performs the library operation it stands for on every successful call, with each "
     "argument taken unaltered from the documented parameter, and its outputs are that operation's result. Field "
     "getters and setters touch the named field; configuration constructors put each parameter in the like-named field; "
     "integer codes and enum values correspond one-to-one in both directions.",
     ["inputs"], "every exported function and every argument value",
     "swapped or dropped arguments change results only for inputs that distinguish them; most C functions have no test",
     ["rustfst-ffi/src"], [("exported functions", "rustfst-ffi/src/**/*.rs")],
     "value-provenance (parameter-to-argument) dataflow plus typestate on inlined MIR",
     "Argument provenance is a may-derive-from relation with arithmetic adjustments rejected.")


prop("P05", "A write that reports success has written everything",
     "Whenever a function that writes an FST, symbol table, cache or drawing to a file or writer reports success, every byte has been "
     "accepted by the operating system: buffered data has been flushed after the last write, no failure of a write or flush is ignored, "
     "and no partial write is taken for a complete one.",
     ["fault_sequences"], "every function of the workspace that writes, and every point at which a write can fail",
     "tests write small files to a disk with room; a failure of the last buffered write is visible only on a full or failing device",
     ["rustfst/src"], [("BufWriter/LineWriter owners", "rustfst/src/fst_traits/serializable_fst.rs, symbol_table.rs, algorithms/lazy")],
     "typestate (unflushed/flushed) of writer locals on MIR with variant tracking",
     "Covers every function owning a buffering writer and every io::Write call site. Does not cover fsync durability.")

prop("P13", "Each command-line tool does what its name and options say",
     "For every subcommand of the CLI: it reads the FST from the named input argument, performs the operation it stands for exactly once, in "
     "the way each option asks (every declared option influences the operation it documents, in the documented direction, and defaults are "
     "the declared ones), and writes the result of that operation to the named output; benchmarking happens only on request.",
     ["inputs"], "every subcommand and every combination of option values",
     "the CLI has no tests at all",
     ["rustfst-cli/src"], [("argument declarations and dispatch", "rustfst-cli/src/main.rs"), ("commands", "rustfst-cli/src/cmds/*.rs")],
     "option-to-effect provenance dataflow on inlined MIR of main and the command implementations",
     "Dispatch, argument ids, argument kinds, provenance and polarity of flags are decided; the operations themselves are other properties.")

prop("P14", "The command-line tool exits with a failure status whenever it failed",
     "If reading, computing or writing fails in any subcommand, the process reports the error and exits with a non-zero status; it exits with "
     "status zero only after the requested output has been written.",
     ["inputs", "fault_sequences"], "every subcommand and every failing step",
     "the CLI has no tests at all",
     ["rustfst-cli/src"], [("main", "rustfst-cli/src/main.rs"), ("commands", "rustfst-cli/src/cmds/*.rs")],
     "typestate with Result-variant tracking on inlined MIR",
     "Panics of argument parsing exit with 101 and so satisfy the property.")

prop("P15", "Weights: neutral elements, declared properties and work on parts are right",
     "For every weight type: zero and one are the neutral elements of sum and product, adding zero changes nothing, multiplying by one changes nothing and by zero "
     "gives zero, dividing by one changes nothing and dividing zero gives zero; a string is divided only from the sides defined for it, each from its own end; the declared properties (left or right semiring, commutative, idempotent, path) are those the weight has, and a weight made of parts never declares "
     "what a part lacks; weights made of parts (product, Gallic) add, multiply, divide, quantize, reverse and compare each part with the same part of the other "
     "operand, in order, and divide each from the side asked for; the sum of two min Gallic weights is the smaller one as a whole; string products append the right to "
     "the left; plus, times, divide and quantize equal their in-place forms and leave the operands alone.",
     ["inputs"], "every weight type and every pair of weights, including zero and one on either side",
     "tests try a few finite weights; algorithms branch on the declared properties for all inputs",
     ["rustfst/src/semirings"], [("weights", "rustfst/src/semirings/*.rs"), ("operations defined once", "rustfst/src/semirings/semiring.rs")],
     "abstract interpretation of MIR over {zero, one, left, right}; set evaluation of declared flags; provenance of the operands of part-wise operations",
     "Associativity, distributivity and rounding are not decided (P33); neither are the labels kept by the sum of two strings.")

prop("P18", "No failure inside the library is swallowed",
     "In every function of the core library that can report an error, a failing step makes the function report an error: no Result is dropped, "
     "turned into a default, or overwritten by a later success.",
     ["inputs", "fault_sequences"], "every fallible call in the core library",
     "the failing paths (an unknown state, a failing nested FST, an unreadable label) are hardly exercised by tests",
     ["rustfst/src"], [("fallible calls", "rustfst/src/**/*.rs")],
     "typestate with Result-variant tracking, all call sites",
     "Every function and closure of the core library that handles a Result. Panicking on an error (unwrap) is not swallowing.")

prop("P01", "A property bit reported for an FST is true of that FST",
     "Properties an FST reports without computing them are true. Adding or deleting states or transitions, setting the start state or "
     "a final weight, and editing a transition in place through a mutable transition iterator never leave a property bit set that the "
     "edited FST does not have. The functions that derive the properties of a result (closure, concat, union, compose, determinize, "
     "invert, project, reverse, epsilon removal, reweight, sorting, summing and deduplicating transitions, encode and decode, the "
     "transition mappers and weight converters, and the lazy forms) claim only what the operation guarantees given properties that were "
     "true of the inputs before the operation. compute_fst_properties decides every property it is asked for, over every state and "
     "transition, and reports acceptor, epsilon, sortedness, determinism, weightedness, topological-order and string bits only if they hold.",
     ["inputs", "histories"], "every FST, every sequence of edits and operations, every set of known bits",
     "a stale bit changes later results silently (a matcher trusts sortedness, determinize trusts acceptor); tests compare a few bits on "
     "a few machines",
     ["rustfst/src/fst_properties", "rustfst/src/fst_impls/vector_fst", "rustfst/src/trs_iter_mut.rs", "rustfst/src/algorithms"],
     [("property words", "rustfst/src/fst_properties/mutate_properties.rs, compute_fst_properties.rs"),
      ("edits", "rustfst/src/fst_impls/vector_fst/mutable_fst.rs, rustfst/src/trs_iter_mut.rs"),
      ("statements about results", "rustfst/src/algorithms/**: set_properties_with_mask, properties()")],
     "guarded gen/kill dataflow per property bit on MIR, decided with decision diagrams",
     "Every bit of every derived word is compared with a table of what the operation guarantees (lib/spec_props.py); loops are handled by "
     "header unknowns and step obligations. Not covered: the accessibility and cycle bits that compute_fst_properties takes from the "
     "depth-first visit, replace_properties, and set_trs_unchecked, whose caller is responsible for the properties.")

prop("P02", "Epsilon counts equal the number of transitions labelled epsilon",
     "num_input_epsilons and num_output_epsilons (checked and unchecked) answer the counter of their own side, and for an expanded FST "
     "that counter always equals the number of the state's transitions whose input (output) label is 0: adding transitions, replacing "
     "them, deleting some or all of them or the states they lead to, summing, deduplicating, editing a transition's labels through a "
     "mutable transition iterator, parsing text and converting between vector and constant FSTs all change each counter by exactly "
     "the number of such transitions added and removed.",
     ["inputs", "histories"], "every FST and every sequence of edits",
     "composition, epsilon removal and matching rely on the counts; tests look at counts after a few edits",
     ["rustfst/src/fst_impls/vector_fst", "rustfst/src/fst_impls/const_fst", "rustfst/src/trs_iter_mut.rs",
      "rustfst/src/algorithms/lazy"],
     [("counters", "rustfst/src/fst_impls/vector_fst/mutable_fst.rs, rustfst/src/trs_iter_mut.rs"),
      ("copies", "rustfst/src/fst_impls/*/converters.rs, serializable_fst.rs"),
      ("accessors", "num_input_epsilons, num_output_epsilons of every FST")],
     "guarded counter-effect analysis on MIR: path conditions as decision diagrams, compared with the transitions added or removed",
     "Exact for straight-line and single-loop counting (as in all code today); a count computed in another shape (iterator adaptors) is "
     "reported as undecided in the evidence and not judged. Binary-loaded counts are trusted as read (see P04).")

prop("P04", "Binary serialisation round-trips: the reader takes back what the writer wrote",
     "For every type with a binary format (VectorFst, ConstFst, SymbolTable, weights, caches, operation states of "
     "lazy FSTs), reading what was written gives back every component, unchanged and in its own place: start state "
     "or its absence, final weights or their absence, transitions in order, property bits, input and output symbol "
     "tables present exactly when they were. A ConstFst file is also read correctly as a VectorFst. FST and symbol "
     "table files follow OpenFst's field layout.",
     ["inputs"], "every value of every serialisable type",
     "tests round-trip a few FSTs; a field that is dropped, swapped, narrowed or made conditional shows only for values "
     "with that field set",
     ["rustfst/src/parsers", "rustfst/src/fst_impls/vector_fst/serializable_fst.rs",
      "rustfst/src/fst_impls/const_fst/serializable_fst.rs", "rustfst/src/algorithms/lazy/serialization.rs"],
     [("binary writers and nom parsers", "rustfst/src/parsers/*.rs, SerializeBinary and SerializableFst impls")],
     "wire-format automata of writer and reader extracted from inlined MIR, compared in both directions",
     "28 writer/reader pairs. Shapes of parser or writer that are not recognised are reported as undecided, not passed "
     "off as checked. Trusts nom's primitive number parsers and std's to_le_bytes.")

prop("P09", "Symbol tables follow their side through every operation",
     "The FST an operation returns or edits carries the symbol tables the operation prescribes, each on its own side, and lacks one only "
     "if the prescribed one is absent. determinize, push, reverse, shortest_path, factor_weight, weight_convert, fst_convert, "
     "tr_sort, closure, concat, union, connect, encode, decode, minimize, optimize, push_weights, reweight, rm_epsilon, "
     "state_sort, top_sort, tr_map, tr_sum, tr_unique, relabel_pairs and the lazy ClosureFst, UnionFst, ConcatFst, RmEpsilonFst, "
     "FactorWeightFst and DeterminizeFsa: both tables of the first operand. Composition (eager and lazy): input table of the first, output "
     "table of the second operand. invert exchanges the two; project gives both sides the table of the kept side; replace takes those of "
     "the first listed FST. compute() of a lazy FST and the conversions between vector and constant FSTs keep both, also for an FST "
     "without states or start state. On every FST type getter, setter and taker of a side use that side's table and leave the other alone.",
     ["inputs", "histories"], "every operand, with or without tables, start state or states",
     "tests rarely attach tables, and hardly ever to machines that take the early returns",
     ["rustfst/src/algorithms", "rustfst/src/fst_impls", "rustfst/src/fst_traits"],
     [("operations", "rustfst/src/algorithms/**"), ("accessors", "Fst::input_symbols, set_input_symbols, take_input_symbols and the output side"),
      ("helper", "MutableFst::set_symts_from_fst, rustfst/src/fst_traits/mutable_fst.rs")],
     "summary-based value-flow analysis of symbol-table provenance on MIR",
     "68 operations, 15 FST types. randgen is undecided (a visitor builds its result) and not claimed. Excluded: condense, and the lookahead "
     "helpers that relabel tables on purpose.")

prop("P16", "Results do not depend on hash order, clocks or unseeded randomness",
     "For the same inputs every operation of the core library and the C interface gives the same result in every run: the same states with the "
     "same numbers, the same transitions in the same order, the same weights, the same written bytes. No result, edited FST or written file "
     "depends on the iteration order of a hash map or set (as the order of a sequence, as a number given out while iterating, as the element "
     "that happens to come first, or as the order in which weights are added up). Random generation with a given seed, whatever its value, draws only "
     "from the generator seeded with exactly that value. Debug output is not covered.",
     ["inputs", "schedules"], "every input, every process (hash seeds differ from process to process)",
     "a test in one process cannot see what another hash seed gives; results compared up to isomorphism hide it",
     ["rustfst/src", "rustfst-ffi/src"],
     [("hash containers", "rustfst/src/algorithms/determinize, lazy, compose, rm_epsilon, relabel_pairs.rs"),
      ("random generation", "rustfst/src/algorithms/randgen/tr_selector.rs, rustfst-ffi/src/algorithms/randgen.rs")],
     "taint analysis of hash-iteration order and entropy on MIR, interprocedural summaries",
     "All functions of the two crates. Order taint is followed through iterators, collections, loops and private helpers; an order-dependent value "
     "handed to an unresolved trait method is counted as undecided. Pointer addresses are not used as numbers anywhere (not checked).")

prop("P17", "States and transitions that do not exist are refused",
     "Every safe method of VectorFst, ConstFst and TrsIterMut that takes a state (or the index of a transition), and every default method of the "
     "FST traits built on them, reports an error for one that does not exist, without panicking and without having changed anything, and "
     "reports none for one that exists; a method that cannot report errors never touches memory outside the FST. The checked and the unchecked "
     "version of an accessor or editing method answer from the same data and change the same data.",
     ["inputs"], "every state id and index, every FST",
     "tests use states that exist; an off-by-one in a range check or an unchecked access is undefined behaviour that shows on no valid input",
     ["rustfst/src/fst_impls", "rustfst/src/fst_traits", "rustfst/src/trs_iter_mut.rs"],
     [("checked methods", "rustfst/src/fst_impls/{vector_fst,const_fst}/*.rs, trs_iter_mut.rs, fst_traits/*.rs"), ("unchecked twins", "*_unchecked")],
     "conditional constant propagation under the assumption that the index is (not) in range, and data-dependence comparison of twins, on MIR",
     "35 methods in both worlds, 24 pairs. Twins are compared by what they read and write, not by value. That transitions lead to existing "
     "states is the caller's duty when it adds them, and not checked by the library.")
prop("P06", "Malformed input is refused with an error",
     "Reading an FST (binary or text, from a file or memory, also a const file as a vector FST), a symbol table or a weight never panics, whatever "
     "the bytes. A text FST or symbol table is read completely or refused: text that cannot be parsed is never dropped. A binary FST is refused "
     "when its magic number, FST type or transition type is another one than expected or its version older than supported, when its start state or "
     "the next state of a transition is not one of its states, or when the transitions of a state are not among those of the file; a symbol table is "
     "refused when a label is not the position of its symbol. Text that is not UTF-8 is refused rather than replaced. A text FST has "
     "a state for every state its rows name as start, source, target or final.",
     ["inputs"], "every byte sequence and every text",
     "tests read well-formed files; a truncated, corrupted or foreign file is a crash, an out-of-bounds access or a silently shorter FST",
     ["rustfst/src/parsers", "rustfst/src/fst_impls", "rustfst/src/symbol_table.rs", "rustfst/src/semirings"],
     [("readers", "rustfst/src/fst_impls/{vector_fst,const_fst}/serializable_fst.rs, vector_fst/parse_const.rs, fst_traits/serializable_fst.rs"),
      ("parsers", "rustfst/src/parsers")],
     "call-graph reachability of panicking constructs, and conditional constant propagation under the assumption that the input is inconsistent, on MIR",
     "40 entry points, 209 functions, 55 inconsistent files. Assumes nom's parsers do not panic, consume from the front and refuse input that is too "
     "short. Editing and property computation of the FST built in memory are the other side of the boundary (P17, P01). Memory use is not "
     "bounded: a text may name a state with a large number. Epsilon counts and property bits of a file are taken from it.")
prop("P03", "Copies are independent: editing one FST never changes what another sees",
     "Clones of an FST or symbol table, and transition lists obtained earlier, keep their content whatever is done to the original, and the other way "
     "round: what copies share is never changed in place, from any thread. An edit of an FST whose transitions are shared takes effect on it all the same "
     "(or fails with an error), never silently not at all. clone, shallow_clone, trs and to_trs_vec give exactly the content of the original: every "
     "part comes from the same part, and the list of a ConstFst state shows the transitions of that state only.",
     ["inputs", "histories", "schedules"], "every sequence of copies and edits, every thread",
     "tests rarely hold a copy or a handle while editing; sharing bugs show only then",
     ["rustfst/src/trs.rs", "rustfst/src/fst_impls", "rustfst/src/symbol_table.rs", "rustfst/src"],
     [("shared transition lists", "rustfst/src/trs.rs"), ("copy on write", "rustfst/src/fst_impls/vector_fst/{mutable_fst,allocable_fst}.rs")],
     "type reachability (no interior mutability, no raw pointers), effect analysis of every function of the core library for raw mutable access, value flow of the copying functions, and conditional constant propagation in the world 'shared', on MIR",
     "28 types, 51 parts, 3683 functions, 22 requests for an owner, 15 copying functions. Assumes Arc::make_mut of std. Lazy FSTs share caches and state "
     "tables on purpose (P07, P08); the C API's raw pointers are P13 and P14.")
prop("P08", "Caches answer what was stored; lazy FSTs compute each answer once",
     "A lazy FST (composition, replacement, determinization and the other operations on demand) gives one answer per question for good: the start state, "
     "the transitions and the final weight of a state are computed at the first question, stored under that state, and every later question gets what was "
     "stored. A cache answers for a state exactly what was inserted for it last, says 'not computed' for any other, counts transitions and epsilons of "
     "what it stored, never loses another state's entry by an insertion, forgets everything on clear, and knows the start state, every state with a "
     "final weight and every next state. Counts of a state that is known but not expanded yet are answered by expanding it. Iterating over the states "
     "gives every known state in order, expanding as it goes. Converting to a static FST copies transitions and final weight of every state reached.",
     ["inputs", "histories"], "every order of questions, every state, every cache",
     "tests ask in one or two orders, mostly through compute(); a stale or misplaced entry shows only when a state is asked again or out of order",
     ["rustfst/src/algorithms/lazy"],
     [("caches", "rustfst/src/algorithms/lazy/cache"), ("lazy FSTs", "rustfst/src/algorithms/lazy/lazy_fst.rs, lazy_fst_2.rs")],
     "value-flow analysis (stores and lookups by state) with conditional constant propagation in the worlds 'stored', 'not stored', 'another state stored', on MIR",
     "3 caches, 2 lazy FSTs, 9 insertions, 9 lookups. What the operations compute is not decided here; that a computation repeated by two threads at the "
     "same time gives the same answer is assumed. FirstCache's wrapped cache is P22's.")
prop("P21", "Two-way tables are bijections: a key and its number always find each other",
     "A symbol table, and every internal two-way table (state tables of the lazy operations, the encoding table), gives each distinct key one number, "
     "counted from 0 without holes, and keeps it for good: adding a key that is present changes nothing and returns its number, a new key gets the "
     "number of keys there were. Looking up a key gives exactly the number it was given, looking up a number exactly its key, and what is not there is "
     "reported absent. SymbolTable::new and with_hasher hold epsilon as label 0 and nothing else; len, labels, symbols and iter show every entry; "
     "add_symbols and add_table add every symbol.",
     ["inputs", "histories"], "every sequence of insertions and lookups, every key",
     "tests add a handful of symbols; a number given twice or a lookup in the wrong half corrupts labels or merges states far away",
     ["rustfst/src/symbol_table.rs", "rustfst/src/algorithms"],
     [("symbol tables", "rustfst/src/symbol_table.rs"), ("state tables", "rustfst/src/algorithms/{lazy,determinize,factor_weight}/state_table.rs"),
      ("encoding table", "rustfst/src/algorithms/encode/table.rs")],
     "value-flow analysis of every function that touches a table, with conditional constant propagation under the assumption that the key is (not) present, on MIR",
     "5 tables, 6 insertion functions, 14 lookups. Assumes the hash maps of std and bimap are correct and keys have consistent Eq and Hash. Tables read "
     "from files are P04 (round trip) and P06 (symbol tables with holes).")
prop("P20", "Options reach the stage they control, with the documented defaults",
     "For every option of an algorithm of the core crate: a `with_` builder of an option structure stores its argument in the option it is named "
     "after and keeps every other option, a constructor stores each argument in the option of that name, and the defaults are the documented "
     "ones (delta 1/1024, or 1e-6 for shortest distance, shortest path and minimization; one path; not unique; functional determinization; no "
     "non-deterministic minimization; connect after composition; total weight kept), also in Python; an operation without configuration does "
     "what the configured one does with the default configuration; an option a function receives reaches every callee that takes an option "
     "of that name unchanged (delta, nshortest, npath, max_length, reweight type, determinization type ...; label factoring keeps its own "
     "delta); and for each value of an option exactly the stages it asks for run: shortest path by nshortest and unique, pushing by push type, "
     "direction and total-weight removal, minimization by allow_nondet and input class, determinization type, composition filter and connect, "
     "star or plus closure, encode type, weighted random generation, direction of shortest distance.",
     ["inputs", "configurations"], "every option and every value of it",
     "options multiply: tests use the defaults and a few combinations, and a dropped delta or a lost option changes results only for some inputs",
     ["rustfst/src/algorithms", "rustfst-python/rustfst/algorithms"],
     [("options", "rustfst/src/algorithms/{shortest_path,push,minimize,shortest_distance,isomorphic}.rs, randgen/randgen_config.rs, compose/compose_static.rs, determinize/determinize_static.rs"),
      ("defaults", "rustfst/src/lib.rs KDELTA, KSHORTESTDELTA")],
     "value-flow analysis of option builders and forwarding; sparse conditional constant propagation per option value, on MIR",
     "For each option value the propagation over-approximates the paths that can run: a stage that must not run is unreachable, a stage that must "
     "run is on every path to a successful return.")
prop("P23", "Operations handle every transition, and keep its labels on their side",
     "For every FST: an input label of a result is never computed from an output label of an operand, nor the other way round, except by "
     "inversion (both sides exchanged, on every transition), projection (the kept side copied onto the other, by project type) and the "
     "conversion to gallic weights; a transition copied or rewritten by an operation takes its two labels and its weight from one and the same "
     "transition (composition, random generation and encoding combine them by design); each transition mapper and weight converter changes "
     "exactly the fields it is for, by the operation it is named after; invert, project, relabel_pairs, tr_map, weight_convert, fst_convert, "
     "fst_convert_from_ref, reverse, union, concat, tr_sort, tr_sum and tr_unique process every state and every transition of their operands "
     "before they report success (also for FSTs without a start state, except tr_map, weight_convert, union and concat); the input and output "
     "label comparisons order by their own side, ascending.",
     ["inputs"], "every FST, label and weight",
     "tests use acceptors, equal labels and unweighted FSTs, on which a swapped side, a lost weight or a skipped transition is invisible",
     ["rustfst/src/algorithms", "rustfst/src/tr.rs", "rustfst-ffi/src"],
     [("label sites", "every construction of Tr, write of ilabel/olabel and call with ilabel/olabel parameters"),
      ("mappers", "rustfst/src/algorithms/tr_mappers, weight_converters"),
      ("traversals", "rustfst/src/algorithms/{inversion,projection,relabel_pairs,tr_map,weight_convert,fst_convert,reverse,tr_sort,tr_sum,tr_unique}.rs, union, concat")],
     "label-side provenance (data dependence) and loop-coverage analysis on MIR",
     "Provenance of 146 label sites; a loop covers its elements if every path from one element to the next handles it or fails, and the loops lie on every "
     "path to a successful return. Which state a copied transition leads to is not decided.")
prop("P22", "Wrapped FSTs, caches, queues and matchers answer for what they wrap",
     "Every delegating type answers each delegated method with exactly what the component it wraps answers to the same method with the same "
     "arguments, on every call: the lazy FSTs (ClosureFst, ConcatFst, UnionFst, DeterminizeFsa, ComposeFst, FactorWeightFst, RandGenFst, "
     "ReplaceFst, RmEpsilonFst) for the FST accessors and iterators of their engine (the derived properties of the first four excepted), "
     "FstAddOn and MatcherFst for their FST, shared pointers to FSTs, caches, FST operations and transition mappers, FirstCache for the "
     "cache entries it does not manage itself, AutoQueue and NaturalShortestFirstQueue for their queue, and the composition filters and "
     "lookahead matchers for the accessors of their inner filter or matcher.",
     ["inputs", "histories"], "every call of every delegated method",
     "several hundred one-line methods, most never called by a test; a wrong one answers plausibly",
     ["rustfst/src/algorithms", "rustfst/src/fst_impls", "rustfst/src/fst_traits"],
     [("wrappers", "rustfst/src/algorithms/**/*_fst.rs, compose/add_on.rs, compose/matcher_fst.rs, lazy/cache, queues"),
      ("pointers", "impl CoreFst/Fst for Arc<F>, FstCache for CP, FstOp for FP, TrMapper for TP")],
     "value-flow analysis of delegating methods on MIR",
     "301 methods of 26 types; the component is inferred from the type's own methods. Setting or taking symbol tables through a shared pointer "
     "is not supported by the library and not claimed.")

_NUM = ("whether the computed weights and paths are right depends on unbounded iterations over runtime weights and graph shapes; the sound static "
        "arguments in reach (dataflow, typestate, provenance) do not bound them, and executing or solving paths is another family")
na("P30", "Optimising operations preserve the weighted language",
   "determinize, minimize, rm_epsilon, push, connect, tr_sum, tr_unique, encode followed by decode, state_sort and top_sort leave the set of accepted "
   "label pairs and their weights unchanged.", ["inputs"], "every FST", "tests compare a few machines",
   ["rustfst/src/algorithms"], [("algorithms", "rustfst/src/algorithms")], _NUM)
na("P31", "Composition, union, concatenation and closure compute the rational operation",
   "The result accepts exactly the pairs the rational operation prescribes, with the prescribed weights; lazy and eager forms agree.",
   ["inputs"], "every pair of FSTs", "tests compare a few machines", ["rustfst/src/algorithms"], [("algorithms", "rustfst/src/algorithms")], _NUM)
na("P32", "shortest_path and shortest_distance return the n best paths and true distances",
   "The returned paths are the n best by the natural order, without repeats when unique is asked; distances equal the sum over all paths.",
   ["inputs"], "every FST, n and queue discipline", "tests compare a few machines", ["rustfst/src/algorithms/shortest_path.rs"],
   [("search", "rustfst/src/algorithms/shortest_path.rs, shortest_distance.rs")], _NUM)
na("P33", "Weights obey the semiring axioms",
   "plus and times are associative, plus commutative, times distributes, zero annihilates, for every weight type up to its declared tolerance.",
   ["inputs"], "every triple of weights", "tests sample a few weights", ["rustfst/src/semirings"], [("operations", "rustfst/src/semirings")],
   "an algebraic law over floating-point and string values: needs a solver or execution, not a static analysis (P15 decides the part that is structural: neutral elements, declared properties, work on parts)")
na("P34", "Every operation terminates",
   "Operations that are defined for an input finish on it; queues and relaxations converge.", ["inputs"], "every input in an operation's domain",
   "a test that ends says nothing about other inputs", ["rustfst/src/algorithms"], [("loops", "rustfst/src/algorithms")],
   "termination depends on weight convergence (k-closed semirings, delta) and determinizability: runtime quantities no ranking argument in reach bounds")
