"""Which monitors decide which property. Case counts are the quick tier; `thorough` multiplies them."""
LIB = ["internal/PDA.cpp", "internal/Reducer.cpp"]
HARNESS = {
    "h_verdict": dict(src=["h_verdict.cpp"]),
    "h_shortest": dict(src=["h_shortest.cpp"]),
    "h_fixed": dict(src=["h_fixed.cpp"]),
    "h_sat": dict(src=["h_sat.cpp"]),
    "h_trace": dict(src=["h_trace.cpp"]),
    "h_reduce": dict(src=["h_reduce.cpp"]),
    "h_aut": dict(src=["h_aut.cpp"]),
    "h_data": dict(src=["h_data.cpp"]),
    "h_cegar": dict(src=["h_cegar.cpp"]),
    "h_json": dict(src=["h_json.cpp"], cxx="clang++", flags=["-O0"]),
    "h_paut": dict(src=["h_paut.cpp"], cxx="clang++", flags=["-O0"]),
    "h_cli": dict(src=["h_cli.cpp"], cxx="clang++", flags=["-O0", "-Dmain=pdaaal_main"], bin=["main.cpp", "parsing/Parsing.cpp"], libs=["-lboost_program_options"]),
    "h_conc": dict(src=["h_conc.cpp"], lib=["internal/PDA.cpp", "internal/Reducer.cpp", "parsing/NfaParser.cpp"], cxx="clang++", flavour="tsan"),
    "h_life": dict(src=["h_life.cpp"], cxx="clang++", flags=["-O0"]),
    "h_nfa": dict(src=["h_nfa.cpp"], lib=["parsing/NfaParser.cpp"]),
}
SAN = "Every run is under AddressSanitizer and UndefinedBehaviorSanitizer with the assertions of the code enabled; a report, failed assertion, crash or non-terminating case (30 s of CPU time, twice) counts as a violation."
MODEL = "The reference model in harness/ref.h (explicit transition tables, Kleene iteration) is trusted; it shares no code with PDAAAL."
PTRIE = "The ptrie dependency is not installed here; harnesses link the map-based stand-in in stub/ptrie."
JK = ["named_none","named_uint","named_int","named_uints","named_ints","indexed_none","indexed_uint","indexed_int","indexed_uints","indexed_ints"]
CHECKS = {
    "S01": dict(jobs=[dict(harness="h_verdict", cases=60000)], require=["oracle_reachable", "oracle_unreachable", "verdict_post", "verdict_pre", "verdict_dual", "verdict_post_no_early_stop", "verdict_pre_no_early_stop"],
                rule="one evaluation = one random pushdown system with initial and final automata answered by eight engine/trace-mode combinations and the reference; distinct = different instance texts", assumptions=[SAN, MODEL, PTRIE]),
    "S02": dict(jobs=[dict(harness="h_trace", cases=80000)], require=["nontrivial_ruletraces", "conf_traces", "rule_steps"],
                rule="one evaluation = one random instance whose configuration traces and rule traces from each engine are replayed step by step; distinct = different instance texts", assumptions=[SAN, MODEL, PTRIE]),
    "S03": dict(jobs=[dict(harness="h_shortest", cases=150000)], require=["oracle_reachable", "nonzero_optimum", "trace_post", "trace_pre", "trace_dual", "trace_post_no_early_stop", "trace_pre_no_early_stop"],
                rule="one evaluation = one random weighted instance solved by one shortest-trace engine and the reference; distinct = different instance texts", assumptions=[SAN, MODEL, PTRIE]),
    "S04": dict(jobs=[dict(harness="h_fixed", cases=150000)], require=["oracle_unbounded", "unbounded_reported", "trace_post", "trace_pre", "trace_interleaved"],
                rule="one evaluation = one random weighted instance solved by one fixed-point engine (longest or shortest, signed or unsigned) and the reference; distinct = different instance texts", assumptions=[SAN, MODEL, PTRIE]),
    "S05": dict(jobs=[dict(harness="h_sat", cases=30000)], require=[],
                rule="one evaluation = one random instance whose saturated automaton is compared with the reference on every configuration with a short stack; distinct = different instance texts", assumptions=[SAN, MODEL, PTRIE]),
    "N01": dict(jobs=[dict(harness="h_nfa", cases=20000, families=["algebra_char", "algebra_id", "algebra_int", "algebra_string"])], require=["nontrivial_languages", "edge_queries_nonempty", "graph_edges"],
                rule="one evaluation = one random expression tree built through the NFA operations and compared with a naive matcher on every word up to length 4 or 5; distinct = different trees", assumptions=[SAN]),
    "N02": dict(jobs=[dict(harness="h_nfa", cases=40000, families=["parser", "syntax"])], require=["regex_parsed", "syntax_valid", "syntax_invalid"],
                rule="one evaluation = one text parsed and compared with an independent recogniser (acceptance) or matcher (language on every short word); distinct = different texts", assumptions=[SAN]),
    "R01": dict(jobs=[dict(harness="h_reduce", cases=100000)], require=["reachable_and_reduced", "rules_removed", "terminal_unreachable"],
                rule="one evaluation = one random instance reduced at one level and compared, verdict and optimum, with the unreduced system; distinct = different instance texts", assumptions=[SAN, MODEL, PTRIE]),
    "A01": dict(jobs=[dict(harness="h_aut", cases=24000, families=["construct_u", "construct_w", "cheapest", "cheapest_signed"])], require=["nontrivial_automata", "unions", "cheapest_paths", "witnesses", "graph_edges"],
                rule="one evaluation = one alphabet, two random stack languages and state sets turned into automata by every construction and queried on every short stack; distinct = different descriptions", assumptions=[SAN, PTRIE]),
    "A02": dict(jobs=[dict(harness="h_aut", cases=60000, families=["factory_u", "factory_w", "dfs_u", "dfs_w"])], require=["factory_reachable", "factory_unreachable"],
                rule="one evaluation = one random instance compiled by a factory, solved and compared with the reference; distinct = different instance texts", assumptions=[SAN, MODEL, PTRIE]),
    "W01": dict(jobs=[dict(harness="h_data", cases=8000, families=["weights"])], require=["weight_comparisons", "weight_sums", "weight_sums_infinite", "weight_array_ops", "weight_vector_ops", "weight_functions"],
                rule="one evaluation = one set of random, extreme and infinite values of one weight type put through every algebraic law; distinct = different value sets", assumptions=[SAN]),
    "D01": dict(jobs=[dict(harness="h_data", cases=20000, families=["rules"])], require=["rules_stored", "label_set_operations", "states_cleared", "unknown_labels_refused"],
                rule="one evaluation = one random sequence of rule-store and label-set operations compared with a flat model after every step; distinct = different sequences", assumptions=[SAN, PTRIE]),
    "D02": dict(jobs=[dict(harness="h_data", cases=5000, families=["containers"])], require=["container_operations", "queue_pops", "flag_operations", "disjoint_sets", "overlapping_sets", "keys_moved_in", "keys_copied_in"],
                rule="one evaluation = one random operation sequence on every container layout compared with the standard containers after every step; distinct = different sequences", assumptions=[SAN]),
    "D03": dict(jobs=[dict(harness="h_data", cases=40000, families=["paths"])], require=["path_checks", "epsilon_removals"],
                rule="one evaluation = one random path put through an edit sequence and compared with two plain vectors after every edit; distinct = different sequences", assumptions=[SAN]),
    "D04": dict(jobs=[dict(harness="h_data", cases=20000, families=["dictionaries"])], require=["dictionary_operations"],
                rule="one evaluation = one random operation sequence on dictionaries of every key type compared with ordered maps; distinct = different sequences", assumptions=[SAN, PTRIE]),
    "C01": dict(jobs=[dict(harness="h_cegar", cases=60000, families=["cegar_post", "cegar_pre", "cegar_dual"])], require=["oracle_reachable", "oracle_unreachable", "refinement_rounds", "pair_refinements", "rules_excluded", "nontrivial_traces"],
                rule="one evaluation = one random concrete system with random label and state abstractions solved by the refinement loop and by the reference; distinct = different instance texts", assumptions=[SAN, MODEL, PTRIE]),
    "C02": dict(jobs=[dict(harness="h_cegar", cases=20000, families=["refinements", "mappings"])], require=["pairs_separated", "mapping_refinements", "combinations"],
                rule="one evaluation = one random pair of value groups (or one mapping with a sequence of refinements) checked pair by pair; distinct = different inputs", assumptions=[SAN, PTRIE]),
    "J01": dict(jobs=[dict(harness="h_json", cases=40000, families=["rt_"+k for k in JK])], require=["rules_compared", "memberships_true", "memberships_false", "printed_pdas", "printed_automata", "printed_instances", "binary_documents", "solved_reachable", "solved_unreachable"],
                rule="one evaluation = one random document parsed (JSON or a binary encoding), compared rule by rule and stack by stack with its description, printed and parsed again; distinct = different documents", assumptions=[SAN, PTRIE]),
    "J02": dict(jobs=[dict(harness="h_json", cases=40000, families=["bad_"+k for k in JK] + ["binary_noise"])], require=["malformed_refused", "malformed_binary_refused", "mutated_refused", "mutated_accepted"],
                rule="one evaluation = one malformed or randomly damaged document given to the parser; distinct = different documents", assumptions=[SAN, PTRIE]),
    "P01": dict(jobs=[dict(harness="h_paut", cases=60000)], require=["nontrivial_texts", "unions", "syntax_valid", "syntax_invalid", "noise_refused"],
                rule="one evaluation = one automaton text parsed and compared with its meaning on every short stack, or one (possibly damaged) text compared with an independent recogniser; distinct = different texts and state sets", assumptions=[SAN, PTRIE]),
    "L01": dict(jobs=[dict(harness="h_cli", cases=24000)], require=["oracle_reachable", "oracle_unreachable", "traces_replayed", "nonzero_optimum", "unbounded", "printed_instances", "printed_systems", "text_automata", "json_automata", "msgpack", "stdin", "errors_reported"],
                rule="one evaluation = one random problem written to files and given to the real main() with random options, its output compared with the reference (printed problems are solved again); distinct = different documents and options", assumptions=[SAN, MODEL, PTRIE]),
    "I01": dict(jobs=[dict(harness="h_life", cases=16000)], require=["copies_solved", "moved_after_solving", "repeated", "traces", "unbounded", "oracle_reachable", "oracle_unreachable"],
                rule="one evaluation = one random instance whose parts and instance objects are copied, moved and solved repeatedly in a random order, every answer compared with the reference; distinct = different instance texts", assumptions=[SAN, MODEL, PTRIE]),
    "T01": dict(jobs=[dict(harness="h_conc", cases=8000)], require=["threads_run", "rounds_overlapping", "answers_compared", "traces_replayed", "separate_problems", "shared_systems", "concurrent_readers", "concurrent_texts", "concurrent_reductions", "oracle_reachable", "oracle_unreachable"],
                rule="one evaluation = one round of two to four threads started together on separate problems, on copies of one instance, or reading one finished object, under ThreadSanitizer; distinct = different inputs", assumptions=["Every run is under ThreadSanitizer with the assertions of the code enabled; a race report, failed assertion, crash or wrong answer counts as a violation.", MODEL, PTRIE, "absl and the standard library are not instrumented beyond their headers."]),
}
