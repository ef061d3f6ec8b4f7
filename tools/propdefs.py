"""Single source of properties.jsonl and MANIFEST.json (tools/gen.py writes both)."""
H = "src/include/pdaaal/"
B = "src/pdaaal-bin/"
def P(id, title, statement, over, text, why, files, mech, observe, technique, note, hook=None, state=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note, hook=hook, state=state or [])

PROPS = [
P("S01", "Reachability verdicts are correct for every search engine",
  "For every pushdown system and every pair of initial and final configuration sets, the solver answers 'reachable' exactly when some initial configuration can be rewritten by the rules into a final one. Forward, backward and two-sided search, with or without early termination, with or without trace recording, and with any weight domain, give this same answer.",
  ["inputs", "configurations"], "all pushdown systems, initial/final automata, weight domains, engines and trace modes",
  "The tests check a dozen hand-made instances; a wrong worklist order, missed epsilon combination or wildcard case shows only on particular rule/automaton shapes.",
  [H+"Solver.h", H+"internal/PdaSaturation.h", H+"PAutomatonProduct.h"],
  [("saturation worklists", "internal/PdaSaturation.h PreStarSaturation/PostStarSaturation"), ("on-the-fly product with early termination", "PAutomatonProduct.h add_edge_product/initialize_product")],
  ["return value of each accepts function"], "runtime monitor: differential oracle (naive reference semantics) on random instances under ASan+UBSan",
  "Held on every explored random instance; the reference model and the stand-in for the missing ptrie dependency are trusted."),
P("S02", "Reported traces are executable runs from initial to final configurations",
  "Whenever a reachable instance's trace is requested, the configurations returned start in an initial configuration, end in a final one, and each step is one application of a rule. The rule-level trace likewise names only existing rules (with their weights), replays from the reported initial state and stack to the reported final stack, and comes with automaton paths that accept those stacks; unreachable instances yield no trace.",
  ["inputs", "configurations"], "all reachable instances, all engines, configuration and rule traces, zero-step runs included",
  "Tests compare trace lengths or single expected traces; validity over all back-pointer combinations (pushes sharing a target, merged epsilon edges, empty runs) is never checked.",
  [H+"Solver.h", H+"internal/PdaSaturation.h", H+"AutomatonPath.h", H+"PAutomatonProduct.h"],
  [("backward reconstruction of rules from edge annotations", "internal/PdaSaturation.h TraceBack::next"), ("path retrieval in the product", "PAutomatonProduct.h find_path"), ("rule trace and paths", "Solver.h _get_rule_trace_and_paths")],
  ["returned configuration traces", "returned rule traces, stacks and paths"], "runtime monitor: step-by-step trace replay against the rules under ASan+UBSan",
  "Every returned trace of every explored instance is replayed; the replay monitor is trusted."),
P("S03", "Shortest-trace search returns a minimum-weight run and its exact weight",
  "With non-negative weights, shortest-trace search reports exactly the minimum total rule weight over all runs from an initial to a final configuration. The trace returned with it is a legal run whose rules can be chosen to cost exactly that weight, for forward, backward and two-sided search.",
  ["inputs", "configurations"], "all weighted instances with non-negative weights and all three engines",
  "Optimality is a minimum over infinitely many runs; tests assert one known weight on a few examples.",
  [H+"Solver.h", H+"internal/PdaSaturation.h", H+"PAutomatonProduct.h", H+"internal/PAutomaton.h"],
  [("priority worklists keyed by weight", "internal/PdaSaturation.h shortest saturations"), ("incremental shortest product", "PAutomatonProduct.h; internal/PAutomaton.h make_back_edge_shortest")],
  ["reported weight", "returned trace"], "runtime monitor: optimum compared with a min-plus fixed-point reference, trace replay, ASan+UBSan",
  "Exact comparison on every explored instance; weights are small integers so no overflow occurs in the reference."),
P("S04", "Fixed-point search gives exact longest/shortest weights or reports unboundedness",
  "Longest-trace and general shortest-trace search terminate on every instance, report the exact supremum or infimum of run weights, and report an infinite value exactly when the weights of runs are unbounded. Finite answers come with a legal run of that weight; forward, backward and interleaved search agree.",
  ["inputs", "configurations"], "all weighted instances incl. cyclic ones and negative weights",
  "Detection of unbounded values depends on counting rounds over cyclic dependency structures which the few tests do not vary.",
  [H+"Solver.h", H+"internal/PdaSaturation.h", H+"internal/PAutomatonAlgorithms.h"],
  [("round-limited fixed-point iteration", "internal/PdaSaturation.h fixed-point saturations"), ("fixed-point path search", "internal/PAutomatonAlgorithms.h")],
  ["verdict, weight and trace"], "runtime monitor: weights compared with a Kleene/pumping reference, trace replay, CPU-time watchdog, ASan+UBSan",
  "Exact comparison on every explored instance; non-termination is judged by 30 s of CPU time, twice, on instances that normally take milliseconds."),
P("S05", "Saturated automata accept exactly the predecessor/successor configurations",
  "After full saturation, an automaton accepts a configuration exactly when it can reach (backward) or be reached from (forward) the original set, the empty stack included. For each accepted configuration the accepting path, trace and (for shortest search) minimum weight returned by a single-configuration query are correct, and unaccepted configurations yield neither path nor trace.",
  ["inputs", "configurations"], "all pushdown systems, automata, directions, and queried configurations",
  "Tests query a few stacks of one automaton; exactness quantifies over all configurations.",
  [H+"Solver.h", H+"internal/PdaSaturation.h", H+"internal/PAutomaton.h"],
  [("saturation", "internal/PdaSaturation.h"), ("membership and accepting path", "internal/PAutomaton.h accepts/accept_path")],
  ["accepts, accept_path, get_trace for one configuration", "one-shot predecessor query"], "runtime monitor: membership, weight and trace oracle per configuration under ASan+UBSan",
  "Queries cover short stacks plus configurations found by exploring runs."),
P("N01", "NFA operations build exactly the language of the expression",
  "Symbol sets (negated ones included), concatenation, union, option, plus and star produce automata that accept exactly the words of the corresponding regular expression, however they are nested. Compiling, copying, assigning and moving an automaton does not change its language and leaves the source of a copy untouched, and graph output shows exactly its states and edges.",
  ["inputs", "programs"], "all expression trees, alphabets and words",
  "The tests build a few automata and check a couple of successor sets; language errors arise from nesting (an option over a loop) that they never combine.",
  [H+"NFA.h"], [("epsilon-edge constructions", "NFA.h concat/or_extend/plus_extend/question_extend"), ("closure", "NFA.h compile/follow_epsilon/successor")],
  ["initial, successor, empty_accept", "edge and label queries"], "runtime monitor: exhaustive short-word comparison with a naive matcher under ASan+UBSan",
  "All words up to length 4-5 over the letters plus one unseen letter, for random trees up to depth 4."),
P("N02", "The regular-expression parser accepts its grammar and preserves meaning",
  "Every text of the documented expression syntax (label sets, negated sets, wildcard, grouping, repetition, alternation, comments, whitespace) parses to an automaton for exactly that expression with the usual precedences. Any other text is rejected with an error message and never crashes or yields an automaton.",
  ["inputs"], "all input texts, from strings and files",
  "Tests parse five fixed strings and only one malformed one.",
  [H+"parsing/NfaParser.cpp", H+"parsing/NfaParserGrammar.h", H+"parsing/NfaParser.h"],
  [("PEG grammar", "parsing/NfaParserGrammar.h"), ("operator stack of the builder", "parsing/NfaParserGrammar.h NfaBuilder")],
  ["parse result or exception"], "runtime monitor: generated and mutated texts against an independent recogniser and matcher, ASan+UBSan",
  "Random well-formed texts and mutations; language compared on all short words."),
P("R01", "Reduction never changes the answer or the optimal weight",
  "For every pushdown system whose initial state only pushes, every terminal state and every reduction level, removing the rules and labels that the top-of-stack analysis calls useless changes neither whether the terminal state is reachable from the initial one nor the minimum weight of doing so. Reduction only removes rules or narrows the labels they apply to, keeps rule order and predecessor index consistent, changes nothing at level 0, and never reports a larger size.",
  ["inputs", "configurations"], "all pushdown systems, initial/terminal states and reduction levels",
  "Unsound removal shows only when the removed rule is the sole way to the target; the tests for this module are not even built without ptrie.",
  [H+"internal/Reducer.h", H+"internal/Reducer.cpp", H+"internal/PDA.cpp"],
  [("top-of-stack propagation and approximation", "internal/Reducer.h, internal/Reducer.cpp"), ("label-set intersection", "internal/PDA.cpp labels_t")],
  ["reachability and optimum before and after", "rules kept", "reported sizes"], "runtime monitor: verdicts before/after compared with the reference model, rule-subset check, ASan+UBSan",
  "Every level of every explored instance is compared with the unreduced reference."),
P("A01", "Configuration automata accept exactly the described configurations",
  "A P-automaton built from a single configuration, from a set of control states and a stack language, from label sets (negated too), or as the union, copy or move of others accepts exactly the configurations described, whatever order labels were introduced in. Emptiness tests, witnesses, accepting paths and cheapest paths agree with that language, and JSON and graph output list exactly its states and edges.",
  ["inputs", "configurations"], "all label sets and orders, stack languages, state subsets and stacks",
  "Tests build automata over two or three labels given in sorted order and query a few stacks.",
  [H+"PAutomaton.h", H+"internal/PAutomaton.h", H+"PDA.h"],
  [("construction from an NFA", "internal/PAutomaton.h construct/add_edges"), ("union", "internal/PAutomaton.h or_extend"), ("path search", "internal/PAutomaton.h find_path/find_path_shortest/accept_path")],
  ["accepts, accept_path, find_path, find_path_shortest, to_json, to_dot"], "runtime monitor: membership oracle over all short stacks, Bellman-Ford optimum, ASan+UBSan",
  "All stacks up to length 3-4 for automata from random expressions."),
P("A02", "Factories build the instance they describe",
  "An instance compiled by a rule factory (all rules given) or a search-driven factory (rules produced state by state) has the same verdict, traces and optimal weight as the pushdown system its rules, initial and accepting states describe. States without rules and wildcard rules are included, and the search-driven factory expands every discovered state exactly once.",
  ["inputs", "programs"], "all rule sets, initial and accepting state sets and stack languages",
  "The tests run one fixed factory; states in no rule, wildcard rules and hash-to-vector conversion vary only with the input.",
  [H+"PDAFactory.h", H+"SolverInstance.h", H+"PDA.h", H+"internal/PDA.h"],
  [("building and conversion", "PDAFactory.h compile; internal/PDA.h converting constructor"), ("exploration", "PDAFactory.h DFS_PDAFactory::build_pda")],
  ["verdict, trace, weight of the compiled instance", "calls to rules()"], "runtime monitor: compiled instances against the reference model, expansion counter, ASan+UBSan",
  "Every explored instance is solved by one engine and compared with the reference."),
P("W01", "Weight arithmetic is a well-behaved ordered monoid for every weight type",
  "For every weight type (signed, unsigned and floating-point numbers, fixed-size and variable-size tuples) minimum and maximum weights compare by a strict order (tuples lexicographically, missing components counting as zero), addition is associative and commutative with zero neutral and infinity absorbing, and the worst value is reported as infinite. Linear and ordered weight functions evaluate exactly to the weighted sum, tuple by tuple, that was composed, without losing precision of the weight type.",
  ["inputs"], "all weight types and values whose sums are representable",
  "Tests add a few small integers; neutral, absorbing and mixed-length cases and wide values are never combined.",
  [H+"Weight.h"], [("weights", "Weight.h min_weight/max_weight/weight"), ("weight functions", "Weight.h linear_weight_function/ordered_weight_function")],
  ["add, less, zero, bottom, is_bottom, function values"], "runtime monitor: algebraic laws and an exact arithmetic oracle on random and extreme values, ASan+UBSan",
  "Values are drawn from small, extreme and infinite ones; sums outside the representable range are skipped."),
P("D01", "The rule store holds exactly the rules and label sets that were added",
  "After any sequence of adding rules (label lists in any order, wildcard, negated, repeated), adding wildcard rules, clearing states, copying, moving and converting between builder and final form, a pushdown system contains exactly those rules with their labels and weights and an up-to-date predecessor index. Label sets behave as sets under merge, intersection and difference; unknown labels are refused and the original is not affected by changes to a copy.",
  ["histories", "inputs"], "all sequences of rule and label-set operations",
  "Merging of equal rules, order of labels and conversions interact; tests add a handful of rules once.",
  [H+"PDA.h", H+"internal/PDA.h", H+"internal/PDA.cpp"],
  [("rule containers", "internal/PDA.h"), ("label sets", "internal/PDA.cpp labels_t")],
  ["states(), rules, labels, _pre_states"], "runtime monitor: model-based comparison after every operation under ASan+UBSan",
  "Compared with a flat set of rules after every step."),
P("D02", "Containers, queues and enum flags behave like their mathematical models",
  "The ordered flat set/map, nested fut sets/maps (all layouts), the vector-set view, the priority queues, disjointness helpers and flag types give the same results as a plain ordered set, map, best-weight-first queue or bit set after every sequence of operations, and references and iterators they hand out denote the right element.",
  ["histories"], "all operation sequences on all container layouts",
  "The tests insert a few elements in one order; errors depend on insertion order, duplicates and layout.",
  [H+"utils/vector_set.h", H+"utils/fut_set.h", H+"utils/flags.h", H+"utils/workset.h", H+"utils/more_algorithms.h"],
  [("binary search insertion", "utils/vector_set.h"), ("nested layouts", "utils/fut_set.h"), ("queues", "utils/workset.h")],
  ["return values, iteration order and contents"], "runtime monitor: model-based random operation sequences compared step by step, ASan+UBSan",
  "Sequences of 40-60 operations over small key ranges to force collisions."),
P("D03", "Automaton paths keep their states, labels and order under editing",
  "A path built from a list of states and labels and then extended and shortened at its front, copied, moved and stripped of leading epsilon reports exactly the resulting sequence through every accessor, and paths are equal (and hash equally) exactly when their sequences are.",
  ["histories", "inputs"], "all paths and edit sequences, for single and paired states",
  "Tests cover three fixed paths; the representation is shared between accessors in ways only edit sequences reveal.",
  [H+"AutomatonPath.h"], [("edge list and end state", "AutomatonPath.h")],
  ["front_state, edges, stack, states, comparison, hash"], "runtime monitor: model-based edit sequences under ASan+UBSan",
  "Paths up to about 20 edges."),
P("D04", "Dictionaries and serialisation give every value one stable identity",
  "Inserting values into the interning sets and maps yields a fresh consecutive id for a new value and the old id for a known one; looking up an id gives back the original value, and membership and attached data are those of an ordinary map, for text, numbers, lists, pairs and tuples of any content.",
  ["histories", "inputs"], "all values (empty, binary and nested ones included) and operation orders",
  "Byte-level serialisation of keys fails only for particular values (embedded zeros, prefixes, negative numbers).",
  [H+"utils/ptrie_interface.h"], [("key conversion", "utils/ptrie_interface.h")],
  ["insert, exists, at, get_data, iteration"], "runtime monitor: model-based comparison with ordered maps, ASan+UBSan",
  "The storage library ptrie itself is not installed and is replaced by a map; the conversion code of PDAAAL is what is exercised."),
P("C01", "Abstraction refinement reaches the concrete verdict with a concrete trace",
  "The counterexample-guided search answers every instance exactly like the concrete pushdown system, whatever the initial abstraction of labels and states: 'reachable' comes with a legal concrete run, 'unreachable' is given only if no run exists. Each refinement makes progress, so the search terminates. This holds for forward, backward and dual search.",
  ["inputs", "configurations"], "all concrete rule sets, initial and accepting sets, abstractions and refinement strategies",
  "Spurious counterexamples arise from combinations of abstraction and rules; the tests of this module are not built without ptrie and run one network.",
  [H+"cegar/CegarPdaFactory.h", H+"cegar/AbstractionPDA.h", H+"cegar/AbstractionPAutomaton.h"],
  [("abstract construction", "cegar/AbstractionPDA.h"), ("trace reconstruction", "cegar/CegarPdaFactory.h CegarPdaReconstruction"), ("refinement loop", "cegar/CegarPdaFactory.h CEGAR::cegar_solve")],
  ["verdict and concrete trace", "refinement rounds"], "runtime monitor: refinement loop against the concrete reference model, trace replay, CPU-time watchdog, ASan+UBSan",
  "Random concrete systems with random abstractions; every verdict is compared."),
P("C02", "Refinements separate what they must and abstractions remain partitions",
  "A refinement computed for two groups of labelled values puts no value of one group in the same class as a value of the other, assigns every value a class, and leaves other values alone. An abstraction mapping, before and after any refinements, maps every known value to exactly one abstract value, lists precisely its members and refines without mixing earlier classes.",
  ["inputs", "histories"], "all value groups, mappings and refinement sequences",
  "Tests check a few fixed groups; greedy class assignment depends on order and overlap.",
  [H+"cegar/Refinement.h", H+"cegar/AbstractionMapping.h"],
  [("class assignment", "cegar/Refinement.h make_refinement/best_refinement"), ("mapping", "cegar/AbstractionMapping.h")],
  ["classes returned, exists, get_concrete_values, maps_to"], "runtime monitor: partition and separation oracle over random groups and refinement sequences, ASan+UBSan",
  "Pairs are checked exhaustively in every explored case."),
P("J01", "Instances read from JSON mean what they say and survive printing",
  "A well-formed document describing a pushdown system, automata or a whole instance (states by name or by index, any key order, any weight type, unknown keys ignored, JSON or a binary encoding) is read as exactly the rules, weights and accepted configurations it describes. Printing a parsed system, automaton or instance and reading the text again gives the same rules, accepted configurations and verification answers.",
  ["inputs"], "all well-formed documents and all weight types",
  "The parser is an event machine whose outcome depends on key order, nesting and naming; tests read two or three fixed documents.",
  [B+"parsing/PdaJsonParser.h", B+"parsing/PAutomatonJsonParser.h", B+"parsing/SolverInstanceJsonParser.h", H+"utils/SaxHandlerHelpers.h", H+"PAutomaton.h", H+"internal/PDA.h"],
  [("event-driven parsers", "parsing/*JsonParser.h, utils/SaxHandlerHelpers.h"), ("printing", "internal/PDA.h to_json, internal/PAutomaton.h to_json, SolverInstance.h to_json")],
  ["parsed rules and automata, printed text, verdicts"], "runtime monitor: generated documents with a known meaning, round trips through the printer, ASan+UBSan",
  "Documents with up to about six states, four labels and twelve rules; membership compared on all short stacks."),
P("J02", "Malformed JSON input is refused, never crashes or corrupts",
  "A document that is not a well-formed description (wrong value types, missing or repeated required parts, pops with labels, nested lists, truncated or damaged text or binary data) makes the parser throw an exception; no document whatsoever causes a crash, failed assertion, undefined behaviour or endless loop.",
  ["inputs"], "all byte sequences offered as documents",
  "Tests only read good documents; each state of the event machine has its own set of wrong events.",
  [B+"parsing/PdaJsonParser.h", B+"parsing/PAutomatonJsonParser.h", B+"parsing/SolverInstanceJsonParser.h", H+"utils/SaxHandlerHelpers.h"],
  [("expected-value checks", "parsing/*JsonParser.h"), ("context stack", "utils/SaxHandlerHelpers.h")],
  ["exceptions, sanitizer reports, assertions"], "runtime monitor: structured and byte-level mutation of documents under ASan+UBSan and assertions",
  "Malformed classes are known to be wrong by construction; free mutations are only required not to crash."),
P("P01", "Automaton texts denote exactly the configurations they describe",
  "A text of the form <states, regular expression> | ... over a pushdown system (states by name, quoted name or number; comments and blanks anywhere between tokens) yields an automaton accepting exactly the configurations whose state is listed and whose stack matches the expression of some part. Text outside the grammar or naming a state the system does not have is refused with an error; no text causes a crash.",
  ["inputs"], "all texts, named and numbered systems",
  "The parser combines a grammar, an expression builder and a union of automata; tests do not build this module.",
  [B+"parsing/PAutomatonParser.h", H+"parsing/NfaParserGrammar.h", H+"internal/PAutomaton.h", H+"NFA.h"],
  [("grammar and actions", "src/pdaaal-bin/parsing/PAutomatonParser.h"), ("union", "internal/PAutomaton.h or_extend")],
  ["accepted configurations, exceptions"], "runtime monitor: generated texts with a known meaning, independent recogniser, ASan+UBSan",
  "Stacks up to length 3 or 4 over up to four labels; negated sets only where the system knows every label."),
P("L01", "The command line tool prints the correct verdict, weight and trace",
  "For every problem given as instance file, standard input, MessagePack or separate system and automaton files, and every engine and trace option, the tool prints JSON with the engine used, the correct verdict, for weighted searches the optimal weight (or that it is unbounded) and, if asked for, a trace that is a legal run of that weight from an initial to a final configuration. Systems and instances it prints are accepted again and give the same answers. Unreadable or unwritable files, malformed input, unknown option values and weighted searches without weights end with an error and no verdict.",
  ["inputs", "configurations"], "all problems, input channels, engines, trace and output options",
  "Tests never run the tool; its option handling and output select among thirty engine, trace and weight combinations.",
  [B+"main.cpp", B+"Verifier.h", B+"parsing/Parsing.h", B+"parsing/Parsing.cpp", B+"utils/json_stream.h", H+"Solver.h"],
  [("dispatch on engine and trace type", "src/pdaaal-bin/Verifier.h verify"), ("input selection", "src/pdaaal-bin/parsing/Parsing.h parse_instance"), ("output", "src/pdaaal-bin/utils/json_stream.h, main.cpp do_output")],
  ["standard output, printed files, exit"], "runtime monitor: real main() run in process on generated files, output compared with the reference model, ASan+UBSan",
  "Shortest traces (-t 2) are asked only for non-negative weights, -t 2 to 4 only for weighted systems."),
P("I01", "Copying, moving and solving never changes the problem or later answers",
  "Solving an instance, asking for its trace (once or again), copying the automata pair of an instance and solving the copy, and moving an instance before or after solving leave the pushdown system as it was and every other instance and copy untouched. Each instance, copy or moved instance gives the correct verdict, weight and trace, whatever was done before and in whatever order.",
  ["histories", "inputs"], "all sequences of building, copying, moving, solving and trace queries over several instances",
  "Instances hold references between system, automata and product; a stale reference or shared state shows only after particular sequences. Tests solve one instance once.",
  [H+"SolverInstance.h", H+"PAutomatonProduct.h", H+"internal/PAutomaton.h", H+"Solver.h"],
  [("move constructor re-binds automata to the moved system", "SolverInstance.h"), ("copy for repeated solving", "PAutomatonProduct.h copy")],
  ["verdicts, weights, traces, dump of system and automata after each operation"], "runtime monitor: random operation histories with state dumps and a reference oracle, ASan+UBSan",
  "Up to seven operations over up to about ten instances; move assignment of instances is not offered by the code and not claimed."),
P("T01", "Threads working on separate problems never interfere",
  "Threads that each solve, reduce or parse their own problem, threads that solve copies of one instance and so share one pushdown system read-only, and threads that only query one finished automaton or expression automaton cause no data race. Each thread gets the answer it would get alone.",
  ["schedules", "inputs"], "all interleavings of threads that share nothing or only read what they share",
  "Tests are single-threaded; hidden shared state (a static buffer, a lazily filled cache in a const query) would not show in them.",
  [H+"Solver.h", H+"internal/PdaSaturation.h", H+"internal/PAutomaton.h", H+"NFA.h", H+"internal/Reducer.h", H+"parsing/NfaParserGrammar.h"],
  [("no static or mutable state in the library", "whole of src/include/pdaaal"), ("const queries", "internal/PAutomaton.h accepts/accept_path, NFA.h successor")],
  ["ThreadSanitizer reports, verdicts, weights, traces"], "runtime monitor: ThreadSanitizer on rounds of concurrent threads with seeded start delays, answers compared with a reference",
  "ThreadSanitizer sees races between the accesses that executed, independent of the exact interleaving; the missing ptrie dependency is replaced by a stand-in, so its own thread safety is not covered."),
]
NOT_APPLICABLE = []
HOOKS = dict(guard="PDAAAL_VERIF_HOOKS", enable="no hooks are needed: the monitors observe public interfaces", source_commits=[])
