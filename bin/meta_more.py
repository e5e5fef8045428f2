prop("C18", "Interaction and signature files mean what they say",
 "Reading a signature (.hsf) or interaction (.hif) file yields exactly the declared names and the interaction the text denotes, whatever the layout, comments, operator arities, nesting and legal names. An interaction written by the tool and read again is the same one, up to associativity.",
 ["inputs", "programs"], "every signature and every interaction, in every legal spelling",
 UNIT + "reads or writes a file.",
 ["src/io/input/hif", "src/io/input/hsf", "src/io/output/to_hfiles/interaction"],
 [("interaction parser", "src/io/input/hif/interaction.rs"), ("signature parser", "src/io/input/hsf/implem.rs"), ("grammar", "src/io/input/hif/hif_syntax.pest"), ("writer", "src/io/output/to_hfiles/interaction/interaction.rs")],
 "property-based testing: round trips through an independent writer of the file format, and through the tool's writer",
 "Names that look like keywords included; nesting depth up to about 8.", ["parsed interaction", "parsed signature"])
prop("C19", "Multi-trace files mean what they say",
 "Reading a multi-trace (.htf) file yields the co-localizations and the sequences of (multi-)actions the text denotes, components left out being empty traces of singleton co-localizations. A multi-trace written by the tool and read again is the same one.",
 ["inputs", "histories"], "every multi-trace over every co-localization, in every legal spelling",
 UNIT + "reads or writes a multi-trace file.",
 ["src/io/input/htf", "src/io/output/to_hfiles/trace"],
 [("multi-trace parser", "src/io/input/htf/implem.rs"), ("grammar", "src/io/input/htf/htf_syntax.pest"), ("writer", "src/io/output/to_hfiles/trace/multi_trace.rs")],
 "property-based testing: round trips through an independent writer of the file format, and through the tool's writer",
 "At most 5 lifelines and 5 multi-actions per component.", ["parsed co-localizations", "parsed multi-trace"])
prop("C20", "Malformed files are errors: no crash, no silent acceptance",
 "Whatever the text of a .hsf, .hif, .htf or .hcf file, or the path, the tool answers with a value or an error and never crashes. A file with undeclared names, an action without target, a non-observable or misplaced action, or overlapping co-localizations is an error.",
 ["inputs", "fault_sequences"], "every text and path",
 UNIT + "reads a file, let alone a malformed one.",
 ["src/io/input"],
 [("interaction parser", "src/io/input/hif/interaction.rs"), ("multi-trace parser", "src/io/input/htf/implem.rs"), ("signature parser", "src/io/input/hsf/implem.rs"), ("configuration parser", "src/io/input/hcf")],
 "grammar-based and mutation-based fuzzing of the parsers, plus definite mistakes inserted in well-formed files",
 "Texts up to a few hundred characters, nesting depth below 30.", ["parser result"])
prop("C21", "Configuration files set the options they state",
 "Reading a .hcf file for a command yields exactly the options its section states, in any order and any of the accepted spellings, options that are left out keep their defaults, and the sections of other commands have no influence.",
 ["configurations", "inputs"], "every combination of options, order and spelling",
 UNIT + "reads a configuration file.",
 ["src/io/input/hcf"],
 [("analysis options", "src/io/input/hcf/ana/options.rs"), ("grammar", "src/io/input/hcf/hcf_syntax.pest"), ("exploration options", "src/io/input/hcf/explo"), ("canonization options", "src/io/input/hcf/canon")],
 "property-based testing: random option records written independently and compared with the options read",
 "Filters are compared by what they filter around their bounds; loggers by their number (what they write is C14).", ["parsed options"])

prop("C13", "Exploration visits exactly the executions of the interaction",
 "Exploring an interaction executes, from each node it reaches, each possible step exactly once, except those that its filters (depth, loop instantiations, nodes) remove and, with memoization, without creating twice a node for an interaction already explored under no stronger limits. A node is reported accepting exactly when its interaction can express the empty behaviour, and deadlocks are reported exactly when one is reached.",
 ["programs", "configurations", "schedules"], "every interaction and every combination of strategy, priorities, memoization and filters",
 UNIT + "explores an interaction.",
 ["src/process/explo"],
 [("steps of a node", "src/process/explo/handling/handler.rs"), ("memoized nodes", "src/process/explo/node.rs"), ("filters", "src/process/explo/filter/filter.rs"), ("priorities", "src/process/explo/priorities.rs")],
 "property-based testing: the explored graph recorded by a logger vs the executions of the term and a denotational model",
 "Models up to 10 nodes, at most 3000 explored nodes; the steps themselves are the subject of C01.", ["explored graph", "node count"])
prop("C14", "Generated traces are those of the interaction, and all of them",
 "Exploring with the trace generator writes exactly one readable multi-trace file per explored execution that is accepted (resp. of the requested depth, or of a multiple of it), projected on the requested partition of the lifelines. With no_duplicates each multi-trace is written once and each written one comes from such an execution.",
 ["programs", "configurations"], "every interaction, generation criterion, partition and exploration limits",
 UNIT + "generates a trace file.",
 ["src/loggers/tracegen"],
 [("generation", "src/loggers/tracegen/printer.rs"), ("logger", "src/loggers/tracegen/object.rs"), ("options", "src/io/input/hcf/explo")],
 "property-based testing: the files written by the command vs the executions of the term and a denotational model",
 "Executions of at least one step. With no_duplicates the external library stops below a multi-trace already written, so only multi-traces without a written proper prefix are required.", ["generated files"])
prop("C15", "Automata from explorations accept only, and enough of, the traces",
 "The automaton obtained by exploring an interaction has the whole alphabet of the interaction and its signature, accepts only traces of the interaction, and accepts all of them if every loop is strict, otherwise at least those with an execution instantiating loops at most twice their number.",
 ["programs"], "every interaction",
 UNIT + "builds an automaton.",
 ["src/nfa_translation"],
 [("translation", "src/nfa_translation/get_nfa_from_logger.rs"), ("alphabet", "src/nfa_translation/alphabet.rs"), ("exploration of the interaction", "src/process/explo/handling/handler.rs")],
 "property-based testing: words of the automaton vs a denotational model",
 "Words up to length 9 (5 with loops), graphs up to 1200 nodes.", ["language of the automaton"])
prop("C16", "Compositional automata recognize exactly the traces",
 "The automaton composed from the operators of an interaction recognizes exactly its traces when it has one lifeline, or when weak sequencing occurs only in sequences of actions, without co-regions, synchronization operators and loops other than strict ones.",
 ["programs"], "every such interaction",
 UNIT + "builds an automaton.",
 ["src/nfa_translation/compositional.rs"],
 [("composition", "src/nfa_translation/compositional.rs")],
 "property-based testing: words of the automaton vs a denotational model",
 "Words up to length 9 (5 with loops). The composition is documented for such interactions only.", ["language of the automaton"])
prop("C17", "Automaton-based analysis answers whether a trace is an execution",
 "Analysing a global trace with the automaton of an interaction answers that it is re-enacted without deviation if it labels the start of an execution (within the loop limit of the translation, unless every loop is strict), and that it is not if it labels the start of no execution.",
 ["programs", "inputs"], "every interaction and every sequence of multi-actions over its signature",
 UNIT + "analyses a trace.",
 ["src/nfa_translation", "src/ui/commands/cli_nfa_ana.rs"],
 [("command", "src/ui/commands/cli_nfa_ana.rs"), ("alphabet", "src/nfa_translation/alphabet.rs")],
 "property-based testing: verdict of the command vs paths of the semantics and prefixes of a denotational model",
 "Words up to about 10 multi-actions; nothing is claimed for words whose executions are all beyond the loop limit.", ["verdict"])

prop("C22", "Slices of a multi-trace are all, and only, its slices",
 "The exhaustive generation of prefixes, suffixes or slices writes, in the requested folder and without touching its other files, one readable file per combination of prefixes, suffixes or contiguous parts (the empty one once) of the components. The random generation writes at most the requested number of distinct ones, each of which can be drawn, and with the wide option keeps at least a third of each component of more than four actions.",
 ["inputs", "configurations"], "every multi-trace, kind of slice and options",
 UNIT + "writes a slice; one test slices one sequence.",
 ["src/trace_manip/slice", "src/util/slicer.rs", "src/ui/commands/cli_slice.rs"],
 [("exhaustive slices", "src/trace_manip/slice/exhaustive.rs"), ("windows of a sequence", "src/util/slicer.rs"), ("random slices", "src/trace_manip/slice/random.rs"), ("command", "src/ui/commands/cli_slice.rs")],
 "property-based testing: the files written by the command vs an own enumeration of the slices",
 "At most 400 slices per case, components up to 16 actions.", ["written files"])
prop("C23", "Mutants differ from the multi-trace only as requested",
 "A mutant with noise is the multi-trace with the requested number of additional actions, on the lifelines of their component, at most one per component or at the end only if so requested. Mutants by removal, by swapping actions or by swapping components with another multi-trace are the multi-trace up to at most the requested number of such changes, multi-traces with other co-localizations being refused. Each single such change can be drawn.",
 ["inputs", "configurations"], "every multi-trace, mutation and options",
 UNIT + "writes a mutant; four tests mutate one sequence of four numbers.",
 ["src/trace_manip/mutate", "src/ui/commands"],
 [("noise", "src/trace_manip/mutate/insert_noise.rs"), ("removal", "src/trace_manip/mutate/remove_actions.rs"), ("swapped actions", "src/trace_manip/mutate/swap_actions.rs"), ("swapped components", "src/trace_manip/mutate/swap_component.rs")],
 "property-based testing: mutants written by the commands vs the original (subsequence, permutation and count invariants)",
 "Components up to 5 actions; each case is drawn three times, as the tool is randomized, and 400 to 1500 times where every change must be met.", ["written files"])
prop("C25", "Metrics are those of the interaction and of its automata",
 "The metrics of an interaction count its symbols of each kind, its depth, its nested loops and its lifelines. The metrics commands report those of the canonical form of the interaction, the states and edges of the automaton of its exploration, and those of the minimal automaton of the same language.",
 ["programs"], "every interaction",
 UNIT + "computes a metric.",
 ["src/core/language/syntax/metrics.rs", "src/ui/commands/cli_get_metrics.rs"],
 [("metrics of a term", "src/core/language/syntax/metrics.rs"), ("command", "src/ui/commands/cli_get_metrics.rs")],
 "property-based testing: metrics vs own counts on the term, own graph of executions and own minimization",
 "Automata of at most 800 interactions. Where the exploration is cut by its limit on loops, the automaton itself depends on the run when an interaction is met several times with fewer and fewer loops; nothing is required of it then.", ["metrics"])
prop("C26", "Random interactions are distinct, canonical and as requested",
 "Generating random interactions writes at most the requested number of distinct interactions, in readable files, in canonical form, with at least the requested number of symbols, at most the requested depth and only the symbols that the chosen probabilities allow. The same seed gives the same interactions, of which a smaller number is the first ones.",
 ["configurations"], "every signature, number, depth, size, probabilities and seed",
 "The existing tests of the generator print interactions and check nothing.",
 ["src/experiments/interaction_random_gen", "src/ui/commands/cli_rng_gen_interactions.rs"],
 [("generator", "src/experiments/interaction_random_gen/gen.rs"), ("probabilities", "src/experiments/interaction_random_gen/probas.rs"), ("command", "src/ui/commands/cli_rng_gen_interactions.rs")],
 "property-based testing: invariants of the files written by the command and differential with the generator",
 "Up to 12 interactions of depth up to 5 per case.", ["written files"])
prop("C27", "PlantUML sequence diagrams show the interaction",
 "The PlantUML sequence diagram written for an interaction (without broadcasts, co-regions and synchronization operators) is well formed, and its messages, groups and branches are those of the interaction, in order, with the kinds of its loops.",
 ["programs"], "every such interaction",
 UNIT + "writes a diagram.",
 ["src/plantuml/sequence.rs"],
 [("diagram", "src/plantuml/sequence.rs"), ("command", "src/ui/commands/cli_puml_sd.rs")],
 "property-based testing: the diagram is parsed and compared with the structure of the term",
 "The text only, no PlantUML is run.", ["written diagram"])
prop("C28", "PlantUML state machines accept the local traces",
 "The PlantUML document written for an interaction (without co-regions, synchronization operators, interleaving loops and messages of a lifeline to itself) contains one well-formed state machine per lifeline, over states of its own, whose runs from its initial to its final state are exactly the local traces of that lifeline.",
 ["programs"], "every such interaction",
 UNIT + "writes a state machine.",
 ["src/plantuml/automata_product.rs", "src/core/language/eliminate_lf"],
 [("state machines", "src/plantuml/automata_product.rs"), ("projection on a lifeline", "src/core/language/eliminate_lf/eliminable.rs"), ("command", "src/ui/commands/cli_puml_ap.rs")],
 "property-based testing: runs of the parsed state machines (as a net) vs the traces of the projection in a denotational model",
 "Local traces up to 8 actions (5 with loops). Loops are read as repeated composite states.", ["written state machines"])
prop("C29", "Drawings show the interaction",
 "The term drawing of an interaction is one tree, whose nodes are the operators and actions of the interaction in order. The sequence diagram of an interaction shows its lifelines and, from top to bottom and in order, each of its actions with its message, sender, recipients, gates and synchronicity and a frame around each operator with its name. Drawing it twice gives the same image, which the drawing command writes, and interactions that differ by one visible change have different images.",
 ["programs"], "every interaction and signature (sequence diagrams: without messages of a lifeline to itself)",
 UNIT + "draws anything.",
 ["src/io/output/draw_interactions", "src/io/output/draw_commons", "src/ui/commands/cli_draw.rs"],
 [("term drawing", "src/io/output/draw_interactions/as_term"), ("sequence diagram", "src/io/output/draw_interactions/as_sd"), ("command", "src/ui/commands/cli_draw.rs")],
 "property-based testing: the written tree is parsed and compared with the term; diagrams vs a drawing of our own from the term, and vs diagrams of interactions one change apart",
 "Colours are not compared; distances and sizes are the constants of the repository.", ["written tree", "image"])
prop("C30", "Graphs of processes show what the process did",
 "The graph that the graphic logger writes for an exploration, an analysis or a canonization is well formed and contains exactly the nodes of the process, their interactions and multi-traces, the steps between them with what each one does, the filtered steps and the local verdicts. Its legend gives the parameters of the process and the verdict that the command prints.",
 ["programs", "inputs", "configurations"], "every interaction, multi-trace and configuration with a graphic logger",
 UNIT + "writes a graph.",
 ["src/loggers/graphviz", "src/process/ana/loggers/glog", "src/process/explo/loggers/glog", "src/process/canon/loggers/glog"],
 [("nodes", "src/loggers/graphviz/state.rs"), ("steps", "src/loggers/graphviz/transition.rs"), ("analysis", "src/process/ana/loggers/glog/drawer.rs"), ("exploration", "src/process/explo/loggers/glog/drawer.rs"), ("canonization", "src/process/canon/loggers/glog/drawer.rs")],
 "property-based testing: the written graph and images are compared with an own exploration of the same process along the steps of the graph",
 "At most 60 nodes; no local analyses in the graphs (their texts are read from drawings of generated states); at most 5 components. The image of one interaction is that of the drawing function (C29); texts of steps and multi-traces are compared with own ones, whatever their colours.", ["written graph", "images"])
prop("C31", "The automata experiment reports both translations of an interaction",
 "The automata experiment gives the automaton of the executions of the interaction and the one composed from its parts, minimizes each without changing its language (unless it has as many states as the limit), reports their numbers of states and those of the minimal deterministic ones, and says that the composed one is correct exactly when both accept the same words. The interactions generated for these experiments (parallel and strict combinations, loops of alternatives, doors) are all those of their family, once each, with the requested numbers of actions and operators.",
 ["programs", "configurations"], "every interaction of alternatives, sequences, interleavings and strict loops, every number of tries and limit",
 UNIT + "translates an interaction into an automaton.",
 ["src/nfa_translation", "src/experiments", "src/ui/commands/cli_nfa_experiment.rs"],
 [("experiment", "src/nfa_translation/experiments.rs"), ("metrics of both automata", "src/nfa_translation/experiments2.rs"), ("doors", "src/experiments/doors_interactions_generation.rs"), ("loops of alternatives", "src/experiments/loopalt_interaction_generation.rs"), ("parallel and strict", "src/experiments/parstrict_interaction_generation.rs"), ("command", "src/ui/commands/cli_nfa_experiment.rs")],
 "property-based testing: results of the experiment and printed lines vs own denotational model, equivalence check and minimization of automata",
 "Up to 10 nodes; nothing is required of the states of an exploration cut by its limit on loops. The second experiment (hours by default) is checked through its parts only.", ["automata", "printed lines"])
prop("C32", "Drawn automata are those of the behaviours",
 "The automata that glosem, the automaton logger of an exploration and nfa_analyze draw accept exactly the complete behaviours explored, with each transition labelled by its multi-action; the numbers of states printed are those drawn. The deterministic automaton of glosem is the least equivalent one, and those of a lifeline are it with the multi-actions of that lifeline made silent, and then closed. The drawn analysis of a word shows after each letter the rest of the word and exactly the states the automaton can be in, and the verdict printed.",
 ["programs", "inputs", "configurations"], "every interaction (an automaton limited by loops that are not strict: some of the behaviours), word, and exploration limited by depth and instances of loops, or memoized",
 UNIT + "draws an automaton.",
 ["src/ui/commands/cli_glosem.rs", "src/ui/commands/cli_nfa_ana.rs", "src/process/explo/loggers/nfait", "src/nfa_translation"],
 [("global semantics", "src/ui/commands/cli_glosem.rs"), ("analysis of a word", "src/ui/commands/cli_nfa_ana.rs"), ("letters of an exploration", "src/process/explo/loggers/nfait/printer.rs"), ("logger", "src/io/input/hcf/loggers/nfait.rs")],
 "property-based testing: drawn automata are parsed and compared with an own exploration by exact product constructions; an own minimization, hiding and run of the word",
 "Explorations up to 300 interactions (1500 executions without memoization). Where loops that are not strict limit an automaton: all the behaviours within the limit are required, and those it accepts are verified up to 5 letters.", ["drawn automata", "printed lines"])
prop("C33", "Commands repeat themselves and leave other files alone",
 "Run again on the same files, wherever these are and whatever they are called, whatever else lies in the folder and whatever was run there before, a command prints the same answer (times apart) and writes the same files. It writes the files it announces, named after its inputs, and changes or removes neither its inputs nor any file that is not an output of its own.",
 ["histories", "configurations", "inputs"], "every command, its options and inputs, a previous run of it on other inputs, and other files (commands that draw at random: only that they leave other files alone)",
 "A test runs a function once, on files of its own; what a second run leaves, mixes up or removes shows in histories of runs only.",
 ["src/ui/commands", "src/io/output", "src/trace_manip", "src/plantuml", "src/loggers"],
 [("commands", "src/ui/commands"), ("slices", "src/trace_manip/slice/generate.rs"), ("drawings", "src/io/output/draw_interactions"), ("configurations of loggers", "src/io/input/hcf/loggers")],
 "property-based testing: two runs in generated folders, places and histories are compared with each other and with the contents of the folders before",
 "Automata are compared up to the numbers and order of their states, traces of explorations up to their numbers, and steps of analyses by name. Left out because the order of a map of a dependency decides them: automata limited by loops that are not strict, and the nodes of memoized processes with loops or simulation. The folders of loggers (temp, graphviz_temp_l*, of traces) are theirs.", ["printed lines", "written files", "other files"])
