p("P01", "Progression search: every printed plan is a correct solution",
  "Whenever the progression planner reports that it solved a problem, the printed action sequence is executable from the initial state, reaches the goal, and is a linearisation of the printed decomposition, in which every abstract step is decomposed by a method for its task with one child per subtask and all method orderings are respected. The reported plan cost and length are those of the printed plan. No plan is printed without that status.",
  ["inputs", "configurations"], "every well-formed ground problem and every combination of search options",
  NOT + " Correctness of a plan depends on effects, orderings and decomposition structure jointly; samples cannot cover their combinations.",
  ["src/search/PriorityQueueSearch.h", "src/Model.cpp", "src/ProgressionNetwork.cpp", "src/SearchEngine.cpp"],
  [("apply / decompose build the successor node", "Model.cpp Model::apply, Model::decompose"), ("goal test", "Model.cpp Model::isGoal"), ("plan extraction and printing", "Model.cpp/ProgressionNetwork.cpp printTrace, extract2PanPan")], ["planner output between ==> and <=="])
p("P02", "Progression search decides solvability on finite search spaces",
  "On a problem whose search space is finite, the progression planner terminates with a verdict: it reports a solution if and only if the problem has one, and reports the problem as proven unsolvable if and only if it has none. This holds for every heuristic and every visited-list option that is not announced as incomplete.",
  ["inputs", "configurations"], "every well-formed ground problem with a finite progression space (and, with duplicate detection, cyclic ones), every non-inverted heuristic, inverted depth/cost heuristics in suboptimal mode, all duplicate-detection options except those documented as incomplete",
  NOT + " Wrong pruning (heuristic, reachability, duplicate detection) shows only on problems where the pruned branch is the only solution.",
  ["src/search/PriorityQueueSearch.h", "src/VisitedList.cpp", "src/heuristics/rcHeuristics/hhRC2.h", "src/Model.cpp", "src/search/fringes/OneQueueWAStarFringe.cpp"],
  [("search loop", "PriorityQueueSearch::search"), ("duplicate detection", "VisitedList::insertVisi"), ("dead-end detection", "hhRC2::setHeuristicValue")], ["status line of the search result"])
p("P03", "A* with admissible settings returns optimal plans",
  "With weight 1, optimal search mode and an admissible heuristic whose estimate matches the chosen g value, the first plan returned is optimal: no solution has a smaller sum of action costs (g=action), fewer actions plus decompositions (g=path), or a smaller sum of costs and decompositions (g=mixed). With weight w, the plan is at most w times as expensive as an optimal one.",
  ["inputs", "configurations"], "every acyclic well-formed problem and all non-negative action costs; zero heuristic, or relaxed-composition LM-cut / filter heuristic with matching estimate",
  NOT + " Optimality compares the returned plan with every other solution for every assignment of costs.",
  ["src/search/PriorityQueueSearch.h", "src/search/fringes/OneQueueWAStarFringe.cpp", "src/VisitedList.cpp", "src/heuristics/rcHeuristics/hhRC2.h", "src/heuristics/rcHeuristics/hsLmCut.cpp"],
  [("f value and queue order", "OneQueueWAStarFringe::push, CmpNodePtrs"), ("late goal test", "PriorityQueueSearch::search"), ("reopening", "VisitedList::insertVisi")], ["printed plan"])
p("P12", "SAT planner: bounded completeness and correct plans",
  "For every decomposition depth d, the formula the SAT planner builds is satisfiable if and only if the problem has a solution whose decomposition tree has depth at most d, so the planner stops at the smallest such depth. The plan read off any satisfying assignment is executable, reaches the goal, and is a linearisation of the printed decomposition that respects every method's orderings, with the printed true cost. Pruning, mutexes, block compression and separate leaves for effectless actions do not change this.",
  ["inputs", "models", "configurations"], "every well-formed ground problem, every depth, every satisfying assignment the solver may return, all encoding options",
  NOT + " An encoding error shows only for particular combinations of effects, orderings and models; a solver returns one model.",
  ["src/sat/sat_planner.cpp", "src/sat/pdt.cpp", "src/sat/sog.cpp", "src/sat/state_formula.cpp", "src/sat/partial_order.cpp", "src/sat/disabling_graph.cpp", "src/Invariants.cpp"],
  [("decomposition clauses", "PDT::addDecompositionClauses"), ("leaf order and matching", "SOG::expandSOG, generate_matching_formula"), ("state transition, frame axioms", "generate_state_transition_formula"), ("blocks", "compute_block_compression"), ("plan extraction", "printSolution")], ["printed plan", "clauses passed to ipasir_add"])
p("P15", "Declared and computed invariants hold in every reachable state",
  "No state reachable from the initial state by executable actions contains two literals for which the planner's invariant table says that they cannot occur together: neither through the variables, mutexes, strict mutexes and invariants extracted from the input nor through the pair invariants computed by the fixpoint. The relation is symmetric.",
  ["inputs", "histories"], "every ground problem whose declared mutexes and invariants are true, every executable action sequence",
  NOT + " An unsound mutex removes solutions only on problems where exactly that pair matters.",
  ["src/Invariants.cpp", "src/Model.cpp"],
  [("extraction from the input", "extract_invariants_from_parsed_model"), ("fixpoint", "compute_Rintanen_Invariants, compute_Rintanen_initial_invariants"), ("query", "can_state_features_co_occur")], ["can_state_features_co_occur"])
p("P24", "Clause encodings are equivalent to the constraints they stand for",
  "Each clause generator of the SAT planner produces clauses that, projected to its arguments, are exactly the stated constraint: at most one, at most K, at least one, (negated) implications, implications from conjunctions and to disjunctions, not all. Every assignment satisfying the clauses satisfies the constraint, every assignment satisfying the constraint extends to the auxiliary variables, and clauses are always terminated.",
  ["inputs"], "every list length (bounded), every K, every assignment",
  NOT + " Equivalence quantifies over all assignments of all variables.",
  ["src/sat/sat_encoder.cpp"],
  [("at most one (binary / pairwise)", "atMostOne"), ("sequential counter", "atMostK"), ("implications", "implies*, andImplies, notAll")], ["clauses passed to ipasir_add"])
p("P14", "Translation to classical planning: plans correspond",
  "The SAS+ task written for a progression bound is well formed. Every plan of it, read back by the planner, is an executable action sequence that reaches the goal together with a decomposition that it linearises and that respects every method's orderings. With growing bounds the classical task becomes solvable if and only if the hierarchical problem is solvable. With real costs, the classical plan cost is the cost of its actions. This holds for every translation type on the problems it is applicable to.",
  ["inputs", "plans", "configurations"], "every well-formed ground problem, every plan the classical planner may return, every translation type and bound",
  NOT + " A translation error shows only for particular interleavings of orderings, stack positions and returned plans.",
  ["src/translation/htnToSAS.cpp", "src/translation/translationController.cpp"],
  [("encodings", "htnToCondSorted, tohtnToStrips, htnPS, htnToStrips, htnToCond"), ("SAS+ variables", "sasPlus"), ("task order", "reorderTasks"), ("file writer", "writeToFastDown"), ("plan read back", "planToHddl")], ["SAS+ file", "printed plan"])
p("P13", "Symbolic (BDD) planner: verdict, correct and cheapest plans",
  "On a totally ordered problem whose methods have at most two subtasks, the symbolic planner reaches the goal if and only if the problem is solvable, and otherwise reports it as unsolvable. The plan it reconstructs is executable, reaches the goal and linearises the printed decomposition, which respects method orderings. Its cost is the reported one and is the smallest of all solutions.",
  ["inputs"], "every well-formed totally ordered problem with binary methods, all non-negative action costs, recursion included",
  NOT + " Sharing of automaton edges between costs and depths goes wrong only for particular combinations of states, costs and recursion.",
  ["src/symbolic_search/automaton.cpp", "src/symbolic_search/sym_variables.cpp", "src/symbolic_search/transition_relation.cpp"],
  [("automaton construction", "build_automaton"), ("plan reconstruction", "extract, extract2From, checkStack, generatePredecessor"), ("images", "TransitionRelation::init, image, preimage")], ["printed plan", "Goal reached! Length"])
p("P06", "Progression operators compute exactly the successor search nodes",
  "Applying an action to a search node yields its state with the action's effects (an add prevails over a delete of the same fact) and its task network without the action; decomposing an abstract task replaces it by the method's subtasks, which inherit all its orderings, in addition to the method's own. The available tasks of a node are exactly those without predecessor; task counts, reachable tasks, number and costs of modifications, applicability and goal tests match. Eager progression applies only actions that have no alternative, and nodes are marked dead only if nothing can be applied. Creating or freeing a node leaves all other nodes unchanged.",
  ["inputs", "histories"], "every well-formed ground problem, every state, every sequence of decompositions and action applications, every order of freeing nodes",
  NOT + " Shared, reference-counted plan steps go wrong only for particular sequences of modifications and orderings.",
  ["src/Model.cpp", "src/ProgressionNetwork.cpp"],
  [("successor nodes", "Model::apply, Model::decompose"), ("eager progression", "Model::apply (oneModAction), effectLess"), ("task counts and reachability", "Model::updateReachability, updateTaskCounterM"), ("goal and applicability", "Model::isGoal, isApplicable"), ("lifetime", "~searchNode, ~planStep")], ["searchNode fields"])
p("P04", "Relaxed-composition heuristics: safe dead ends, admissible estimates",
  "A relaxed-composition heuristic reports a search node as dead end exactly if its delete- and ordering-relaxed composition is unsolvable, hence never a node with a solution. LM-cut and filter estimates never exceed the cost of any solution of the node in the estimated measure (distance, action costs, or mixed). h_add on the relaxed composition equals its definition, LM-cut and h_FF are never below h_max, and stored cuts are landmarks. Values do not depend on earlier evaluations.",
  ["inputs", "histories"], "every acyclic well-formed problem, every search node, all non-negative costs, every inner heuristic and estimate; the distance estimate with task count correction is exempt from admissibility",
  NOT + " An inadmissible or unsafe value shows only on particular states and networks, and only through a suboptimal plan or a missed solution.",
  ["src/heuristics/rcHeuristics/hhRC2.h", "src/heuristics/rcHeuristics/RCModelFactory.cpp", "src/heuristics/rcHeuristics/hsLmCut.cpp", "src/heuristics/rcHeuristics/hsAddFF.cpp", "src/heuristics/rcHeuristics/hsFilter.cpp"],
  [("relaxed composition", "RCModelFactory::getRCmodelSTRIPS"), ("encoding of a search node", "hhRC2::setHeuristicValue"), ("classical heuristic", "getHeuristicValue")], ["heuristic value, goalReachable"])
p("P26", "Delete-relaxation heuristics compute what they are defined to compute",
  "For every state and goal of a classical problem, h_add is the additive heuristic, the filter heuristic decides relaxed reachability, h_FF is at least the cost of a cheapest relaxed plan and at most that of using every operator once, and LM-cut lies between h_max and the cost of a cheapest relaxed plan with every stored cut a landmark. All of them report unreachable exactly if the goal is not relaxed reachable, whatever was evaluated before, within their buffers.",
  ["inputs", "histories"], "every delete-free operator set whose operators have preconditions, every state, every goal, all non-negative operator costs",
  NOT + " A wrong value shows only for particular costs and sharing of preconditions.",
  ["src/heuristics/rcHeuristics/hsAddFF.cpp", "src/heuristics/rcHeuristics/hsLmCut.cpp", "src/heuristics/rcHeuristics/hsFilter.cpp"],
  [("h_add / h_FF", "hsAddFF::getHeuristicValue"), ("LM-cut", "hsLmCut::getHeuristicValue"), ("reachability", "hsFilter::getHeuristicValue")], ["returned value, stored cuts"])
p("P08", "Integer containers behave like the sets, stacks and heaps they stand for",
  "After every sequence of operations the integer sets contain exactly the inserted and not removed elements, report their size, and iterate over each element once (sorted where promised), also while elements are removed during the iteration; union, intersection and difference are the mathematical ones. Stacks are last-in first-out, the heap always yields a smallest key with its value, sorting permutes and sorts, and searching finds an element exactly if it is there.",
  ["inputs", "histories"], "every sequence of operations within the capacity given at initialisation (growing containers: any), every element",
  NOT + " Container bugs show only for particular operation sequences.",
  ["src/intDataStructures/noDelIntSet.cpp", "src/intDataStructures/bucketSet.cpp", "src/intDataStructures/bIntSet.cpp", "src/intDataStructures/delIterIntSet.cpp", "src/intDataStructures/IntStack.cpp", "src/intDataStructures/FlexIntStack.cpp", "src/intDataStructures/IntPairHeap.h", "src/intDataStructures/IntUtil.cpp"],
  [("sets", "noDelIntSet, bucketSet, bIntSet, delIterIntSet"), ("stacks", "IntStack, FlexIntStack"), ("heap", "IntPairHeap"), ("arrays", "IntUtil")], ["results of the operations"])
p("P09", "The visited list's tries map equal keys, and only equal keys, together",
  "A trie of bit sequences stores one entry per distinct sequence: inserting a sequence that was inserted before yields its entry with its value, whatever was inserted in between, and inserting a different one, including a prefix or an extension of a stored one, yields a fresh entry. The hash table in front of it keeps different buckets apart.",
  ["inputs", "histories"], "every set of bit sequences, every order of insertion",
  NOT + " Splitting a node is wrong only for particular lengths and positions of the first difference.",
  ["src/intDataStructures/CompressedSequenceSet.cpp", "src/intDataStructures/SequenceSet.cpp", "src/intDataStructures/HashTable.cpp"],
  [("lookup and insertion", "compressed_sequence_trie::insert, sequence_trie::insert"), ("node split", "split_me_at"), ("buckets", "hash_table::get")], ["payload"])
p("P10", "Duplicate detection never drops a search node that is new",
  "The visited list reports a search node as visited only if a node with the same state and an isomorphic task network was inserted before; in optimal search, only if that node's f-value was not larger. For totally ordered problems and problems of parallel sequences every such duplicate is recognised, and in every mode a node reached by the same modifications is. This holds for all hash and memory options, also when hashes collide.",
  ["inputs", "histories", "configurations"], "every well-formed ground problem, every pair of reachable search nodes and f-values, every combination of visited-list options with the isomorphism test on",
  NOT + " A wrong merge needs two networks that agree in everything the list compares and differ in what it ignores.",
  ["src/VisitedList.cpp", "src/intDataStructures/CompressedSequenceSet.cpp", "src/Model.cpp"],
  [("insertion", "VisitedList::insertVisi"), ("isomorphism test", "matching, matchingDFS, matchingGenerate"), ("sequence information", "topSort, to_dfs"), ("mode selection", "Model isTotallyOrdered, isParallelSequences")], ["return value of insertVisi"])

p("P05", "The planner works on the problem its input describes",
  "For every well-formed ground input, the loaded model has exactly the facts, variables, mutexes, invariants, actions with costs, preconditions and (conditional) effects, initial state, goal, tasks, methods and initial task of the file, whatever the order and repetition of entries; a fact both added and deleted is added. Method orderings are equivalent to the given ones; inverse tables, first and last tasks, task counts and topological orders agree with them. The problem is classified as totally ordered, parallel sequences or unique paths exactly if it is, and the initial search node is the initial task in the initial state.",
  ["inputs"], "every well-formed ground input file",
  NOT + " A wrong derived table or classification shows only for particular lists or orderings, and then changes what all planners compute.",
  ["src/Model.cpp", "src/Model.h"],
  [("parser", "Model::read, readClassical, readHierarchical"), ("derived tables", "Model::generateMethodRepresentation, calcPrecLessActionSet, removeDuplicates"), ("orderings", "buildOrderingDatastructures, computeTransitiveClosureOfMethodOrderings")], ["Model fields", "initial search node"])
p("P07", "Decomposition-graph analyses are exact",
  "The components of the decomposition graph are exactly the classes of mutually reachable tasks, with their edges, cyclicity, sizes and a topological order; the tasks reachable from a task are exactly those occurring in some decomposition of it. The minimal implied distance of a task is the smallest number of modifications that refine it completely, and none if it cannot be refined; its minimal implied cost never exceeds the cost of any refinement and is exact on acyclic problems. All analyses terminate.",
  ["inputs"], "every well-formed decomposition graph, recursive or not, all non-negative action costs",
  NOT + " Wrong components, reachability or estimates show only on particular graphs, as lost plans, inadmissible estimates or endless loops.",
  ["src/Model.cpp"],
  [("components", "Model::calcSCCs, tarjan, calcSCCGraph, analyseSCCcyclicity"), ("reachability", "Model::calcSCCGraph, updateReachability, calcReachability"), ("implied distance and costs", "Model::calcMinimalImpliedX")], ["Model fields"])
p("P11", "The search queue always yields a best node",
  "After every sequence of insertions and removals the fringe reports its size and returns an inserted, not yet returned node than which no remaining one is better: none has a smaller f = g + w*h for the chosen g value (none, action costs, path, mixed) and first heuristic, and among equal f none is smaller in the further heuristics in their order. The simple heuristics have their defined values, inverted or not.",
  ["inputs", "histories"], "every sequence of pushes and pops, all heuristic values, costs and depths, all weights and numbers of heuristics",
  NOT + " A wrong comparison shows only for particular value combinations, and then only as a suboptimal plan.",
  ["src/search/fringes/OneQueueWAStarFringe.cpp", "src/ProgressionNetwork.cpp", "src/heuristics/hhSimple.cpp"],
  [("queue order", "CmpNodePtrs"), ("f value", "OneQueueWAStarFringe::push"), ("simple heuristics", "hhModDepth, hhMixedModDepth, hhCost, hhZero")], ["pop(), size(), isEmpty()"])
p("P21", "The exported HDDL files describe the loaded problem",
  "The HDDL domain and problem written for a model are well formed, use only declared names, and describe the same problem: the same facts in the initial state and the goal, the same actions with preconditions and effects, and for each abstract task the same methods, where dropping a no-op or turning a method-precondition action into a precondition keeps the other subtasks and all orderings between them, also those implied through dropped tasks. Different tasks and facts have different names.",
  ["inputs"], "every well-formed ground problem without conditional effects; action costs are not exported",
  NOT + " Lost orderings or merged names show only for particular orders around dropped tasks, or particular names.",
  ["src/Model.cpp"],
  [("writer", "Model::writeToPDDL")], ["exported domain and problem files"])
p("P16", "Extracted landmarks hold in every solution, and the planning graph is exact",
  "The planning graph of a state and a set of allowed tasks contains exactly the facts, tasks and methods that are reachable under delete and ordering relaxation. If all tasks of a network and all goals are relaxed reachable, the extracted landmarks of the AND/OR graph are exactly the facts, tasks and methods without which one of them is not, so each holds in every solution; both extraction algorithms agree on that. Local landmarks are the tasks common to all methods, recursively. Results do not depend on earlier calls.",
  ["inputs", "histories"], "every well-formed ground problem, every search node",
  NOT + " A wrong landmark shows only on problems with a particular alternative to it, and then as a lost plan or an overestimate.",
  ["src/heuristics/landmarks/lmExtraction/LmCausal.cpp", "src/heuristics/landmarks/lmExtraction/LMsInAndOrGraphs.cpp", "src/heuristics/planningGraph.cpp"],
  [("propagation", "LmCausal::pCalcLMs, setUnion, setIntersection, copyGlobalLMsToResultSet"), ("AND/OR landmarks", "LMsInAndOrGraphs::generateAndOrLMs"), ("local landmarks", "LMsInAndOrGraphs::generateLocalLMs"), ("planning graph", "planningGraph::calcReachability")], ["lists of landmarks", "reachable facts, tasks and methods"])
p("P18", "The command line means what it says",
  "Every documented option has its documented effect and no other: the selected planner is run, once; progression search gets exactly the heuristics asked for, in order, with their arguments however they are written (positional or named), one object for equal ones, and the documented default otherwise; the g value, weight, optimality, time limit, plan output, visited-list options, seed, and the SAT and translation planners' options are the ones given or their defaults. A command line that cannot be satisfied (unknown option, value or heuristic, two planners, several or unreadable input files) runs no planner and ends with an error code.",
  ["configurations", "inputs"], "every combination of documented options within each group; all values of the search nodes in the queue",
  NOT + " There are thousands of ways to combine and write the options; a wrong one silently runs another search.",
  ["src/SearchEngine.cpp", "src/options.ggo", "src/cmdline.c"],
  [("heuristics", "parse_heuristic_with_arguments_from_braced_expression, main"), ("search set-up", "main"), ("planner selection", "main")], ["arguments given to the selected planner", "exit code"])
p("P20", "Runs with the same input, options and seed are the same",
  "The planner's output, apart from times, and the formulas and SAS+ tasks it generates depend only on the input problem, the options and the seed: not on what fresh memory happens to contain, nor on earlier runs in the same process.",
  ["inputs", "histories", "configurations"], "every well-formed ground problem; progression search, SAT and translation planner",
  NOT + " Uninitialised data shows only for particular inputs and memory contents, typically not in tests.",
  ["src/SearchEngine.cpp", "src/search/PriorityQueueSearch.h", "src/Model.cpp", "src/sat/sat_planner.cpp", "src/translation/translationController.cpp"],
  [("search", "PriorityQueueSearch::search"), ("SAT planner", "solve_with_sat_planner"), ("translation", "runTranslationPlanner")], ["standard output", "generated formulas", "generated SAS+ file"])
