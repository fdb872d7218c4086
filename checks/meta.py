"""Text of the properties: what is claimed, why tests cannot settle it, where it is anchored, how it is decided."""

P = {}


def prop(pid, title, statement, over, quant, why, files, mechanism, technique, level, note, rule, state=(), observe=(), assumptions=()):
    P[pid] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mechanism=[dict(name=n, where=w) for n, w in mechanism],
                  state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe=list(observe),
                  technique=technique, level=level, note=note, rule=rule, assumptions=list(assumptions))


ENUM = "exhaustive enumeration of every small instance, real code against a brute-force oracle"
REAL = "Bounded-exhaustive: inside the stated bounds nothing is sampled. Larger instances are not decided. "
FAMILY = "All weighted graphs of up to 6 vertices over small alphabets, and every member of a parametric family (six topologies, five cost patterns, four prize patterns, six tour lengths, salts) with 8 to 70 vertices (150 thorough); on large members with too many ties only the tour itself is judged. "
PYFAM = "Every member of a parametric family (nine topologies, cost patterns, salts, roots) of larger graphs, judged against a flow computation that agrees with brute force on the small ones: %s. "
SHIM = "The C++ is compiled from /repo's sources against small stand-in headers for SCIP and pybind11 on top of the real libscip binary. "

prop("C01", "Disjoint path pairs from the root are optimal",
     "For every graph, root and non-negative costs, the disjoint-paths algorithm labels exactly the vertices that have two disjoint paths from the root, reports the minimum total cost of such a pair, and the two extracted paths really are disjoint root-to-vertex paths of that total cost. The derived maps over the original undirected graph contain exactly the vertices on a simple cycle through the root, with internally vertex-disjoint paths of minimum cost, however long the cycle is.",
     ["inputs"], "every weighted directed or undirected graph, every root, every vertex labelling and insertion order",
     "The tests run two fixed graphs; correctness depends on the interleaving of labelling, subtree splitting and edge-list removal that only unusual cost patterns reach.",
     ["pctsp/suurballe/suurballe.py", "pctsp/preprocessing/preprocessing.py"],
     [("suurballe_shortest_vertex_disjoint_paths", "pctsp/suurballe/suurballe.py"), ("extract_suurballe_edge_disjoint_paths", "pctsp/suurballe/suurballe.py"), ("undirected_vertex_disjoint_paths_map / vertex_disjoint_cost_map", "pctsp/preprocessing/preprocessing.py")],
     "exhaustive enumeration of small weighted graphs; the algorithm's whole execution on each is compared with brute-force enumeration of path pairs", "exploration",
     REAL + "Directed asymmetric graphs up to 5 vertices with two costs, dense ones with 6, undirected up to 6 (7 thorough), plus long cycles up to 1100 vertices. " + PYFAM % "7 to 35 vertices (90 thorough)",
     "every weighted graph within the bounds (all labelled graphs up to 5 vertices, one per rooted isomorphism class at 6) under several labellings and edge orders; non-trivial when at least one vertex has a disjoint pair; distinct by the map of optimal costs",
     observe=["returned tree labels and costs", "extracted paths", "cost and path maps"])

prop("C02", "Tree numberings, ancestor test and reduced costs are exact",
     "For every rooted tree, of any depth, the preorder and postorder traversals list each tree vertex once in a valid order and number it by its position, and the ancestor test answers true exactly for an ancestor (or the vertex itself). For every weighted directed graph, parents taken from a shortest-path map are each path's second-to-last vertex and adjusted arc costs equal cost plus distance of the tail minus distance of the head.",
     ["inputs"], "every rooted tree shape and depth, every weighted directed graph and source",
     "The tests check one tree; wrong numbering shows only on particular shapes, and deep trees only at large sizes.",
     ["pctsp/suurballe/suurballe.py"],
     [("preorder / postorder / is_ancestor", "pctsp/suurballe/suurballe.py"), ("adjust_edge_cost_for_graph / find_parents_in_shortest_path_tree", "pctsp/suurballe/suurballe.py")],
     "exhaustive enumeration of all rooted trees up to 7 vertices and deep chains; all digraphs on 4 vertices", "exploration",
     REAL + "All parent arrays up to 7 vertices (8 thorough) in 8 presentations, chains up to depth 8000; reduced costs on all digraphs with 4 vertices and a parametric family of long paths with shortcuts, up to 120 vertices.",
     "every parent array (rooted labelled tree) within the bound in 8 presentations, and every weighted asymmetric digraph on 4 vertices; non-trivial when it has an arc; distinct by shape / adjusted costs",
     observe=["traversal lists", "pre and post attributes", "ancestor answers"])

prop("C03", "Preprocessing removes exactly the useless vertices and no tour",
     "Each preprocessing step returns the subgraph induced by exactly the vertices it should keep: those connected to the root; those left after repeatedly removing vertices with at most one neighbour (self loops not counted); those sharing a biconnected component of at least three vertices with the root, plus the root. Attributes are preserved, and applying the steps in any order never removes an edge of a tour through the root.",
     ["inputs", "histories"], "every graph with or without self loops, every root, every order of the steps",
     "The tests use one or two hand-made graphs; keep/remove decisions depend on cut vertices, chains of leaves and self loops.",
     ["pctsp/preprocessing/preprocessing.py"],
     [("remove_components_disconnected_from_vertex", "pctsp/preprocessing/preprocessing.py"), ("remove_leaves / degree_without_self_loops", "pctsp/preprocessing/preprocessing.py"), ("remove_one_connected_components", "pctsp/preprocessing/preprocessing.py")],
     "exhaustive enumeration of graphs and of every sequence of preprocessing steps, against brute-force cycles and components", "exploration",
     REAL + "All labelled graphs up to 5 vertices, one per rooted isomorphism class at 6, all sequences of 2 and 3 steps, tails of up to 2500 vertices. " + PYFAM % "8 to 35 vertices (120 thorough)",
     "every graph within the bounds and every order of steps; non-trivial when a step removes something; distinct by the kept vertex sets",
     observe=["returned graph", "input graph afterwards"])

prop("C04", "Tours built from disjoint paths and random tours are valid and best",
     "A tour built from a pair of disjoint paths is the closed walk along the first and back along the second, and invalid pairs are rejected. The Suurballe heuristic returns a cheapest pair-tour that meets the quota and an empty list exactly when none does; the tour initialisation then falls back to the pair-tour of largest prize. For every outcome of the random generator, the random tour functions return a simple closed tour meeting their documented conditions.",
     ["inputs", "schedules"], "every graph, root, prize assignment and quota, and every sequence of random choices",
     "The tests sample one random outcome per run on one fixture; the least-cost and the largest-prize selections need ties, zero prizes and infeasible quotas to go wrong.",
     ["pctsp/algorithms/heuristic.py"],
     [("tour_from_vertex_disjoint_paths", "pctsp/algorithms/heuristic.py"), ("suurballes_heuristic / suurballes_tour_initialization", "pctsp/algorithms/heuristic.py"), ("random_tour_complete_graph / random_tour_from_disjoint_paths_map", "pctsp/algorithms/heuristic.py")],
     "stateless exploration of every random-choice sequence under a controlled random source, and exhaustive enumeration of instances", "exploration",
     REAL + "Random functions: every outcome of every draw (the generator's _randbelow is replaced by a scheduler that enumerates choices). " + PYFAM % "8 to 30 vertices",
     "every instance within the bounds x every sequence of random choices; non-trivial when a tour is returned; distinct by returned tour",
     observe=["returned tours", "raised errors"])

prop("C05", "The breadth-first search finds a cycle through the root iff one exists",
     "For every undirected graph and root, the breadth-first cycle finder returns a simple closed tour of at least three vertices that starts and ends at the root, whenever some simple cycle passes through the root. It returns an empty list when none exists, and never changes the graph.",
     ["inputs"], "every undirected graph (with or without self loops), root, labelling and adjacency order",
     "The tests look at three fixtures in one adjacency order each; which cycle is found depends on the order in which neighbours are visited.",
     ["pctsp/algorithms/heuristic.py"],
     [("find_cycle_from_bfs / path_to_vertex_in_tree", "pctsp/algorithms/heuristic.py")],
     "exhaustive enumeration of all labelled graphs on up to 6 vertices, against brute-force cycle enumeration", "exploration",
     REAL + "All labelled graphs up to 6 vertices; 7 vertices by extension of isomorphism classes. " + PYFAM % "8 to 35 vertices (120 thorough)",
     "every labelled graph up to 6 vertices x roots x labellings x insertion orders; all are non-trivial (an answer is required either way); distinct by returned cycle",
     observe=["returned cycle", "graph afterwards"])

H = ["include/pctsp/heuristic.hh", "include/pctsp/walk.hh", "include/pctsp/graph.hh"]
prop("C06", "Extension by unitary gain follows its greedy rule",
     "Starting from any valid tour, the unitary-gain extension returns a simple closed tour through the root that keeps every vertex of the starting tour. Each inserted vertex is one of largest prize-to-extra-cost ratio among all positions, insertion stops once the best ratio is not above the initial average, and the until-prize-feasible variant stops exactly when the quota is reached or nothing can be inserted.",
     ["inputs"], "every complete or sparse weighted graph, starting tour, prize vector and quota",
     "The tests extend a few fixture tours once; the greedy choice, the average threshold and the stopping rule only differ on other instances.",
     H, [("extensionUnitaryGain / extensionUntilPrizeFeasible / unitaryGainOfVertex", "include/pctsp/heuristic.hh")],
     "explicit-state exploration of a nondeterministic reference transition system; the real code's result on every instance must be one of its final states", "model_checking",
     REAL + SHIM + "Ties and equal-to-average comparisons are left nondeterministic in the reference model. " + FAMILY,
     "every weighted graph / starting tour / prize vector / quota of the bounds; the reference model's reachable tours are the states; non-trivial when the tour was extended",
     observe=["returned tour"])
prop("C07", "Path extension follows its least-loss rule and stopping rule",
     "Starting from any valid tour, path extension returns a simple closed tour through the root whose prize is never below the starting prize. Every replacement swaps a tour segment of the given step size for an external path within the depth limit, found by breadth-first search, that has strictly more prize and the smallest cost increase per prize, it stops when the best loss exceeds the initial average, and the until-prize-feasible variant stops once the quota is reached.",
     ["inputs"], "every weighted graph, starting tour, prize vector, step size, depth limit and quota",
     "The tests fix step size and depth on a handful of tours; wrap-around segments containing the root and stopping decisions need systematic coverage.",
     H, [("pathExtension / pathExtensionUntilPrizeFeasible / unitaryLossOfPath", "include/pctsp/heuristic.hh")],
     "explicit-state exploration of a nondeterministic reference transition system; the real code's result on every instance must be one of its final states", "model_checking",
     REAL + SHIM + "When several hop-shortest external paths exist the reference accepts any of them. " + FAMILY,
     "every weighted graph / starting tour / prize vector / step / depth / quota of the bounds; non-trivial when the tour changed",
     observe=["returned tour"])
prop("C08", "Collapse never loses feasibility and never costs more",
     "For every valid tour through the root and every quota the tour meets, collapsing returns a simple closed tour through the root that still meets the quota and costs no more than the input. It returns a cheapest tour among the shortcuts it is defined to consider (closing a quota-missing subpath with one outside vertex, or with a shortest path when that option is on).",
     ["inputs"], "every weighted graph, tour, quota and either collapse mode",
     "The tests collapse three fixture tours; wrong feasibility or root handling appears only for particular quotas and tour rotations.",
     H, [("collapse / findCollapsePaths", "include/pctsp/heuristic.hh"), ("dijkstraBlacklist", "include/pctsp/graph.hh")],
     "exhaustive enumeration of instances; the set of collapse moves of a reference model decides each result", "model_checking",
     REAL + SHIM + FAMILY, "every weighted graph / tour / quota / mode of the bounds; non-trivial when the tour changed", observe=["returned tour"])
prop("C09", "Path extension and collapse composes its two phases correctly",
     "For every graph, starting tour, quota and parameters, path extension followed by collapse returns either an empty tour, only when neither the starting tour nor its extensions reach the quota, or a simple closed tour through the root that meets the quota. A starting tour below the quota is extended with one step size after another, each going on from the last tour, until it meets the quota; the tour is collapsed; then, for each step size in turn, the best tour so far is extended and collapsed and kept if it is cheaper. Hence the result never costs more than collapsing the extended tour once, and never more than a starting tour that already met the quota.",
     ["inputs"], "every weighted graph, starting tour, quota, step size, depth limit and collapse mode",
     "The tests call it on two fixtures; the phases interact through quotas reached part-way.",
     H, [("pathExtensionCollapse", "include/pctsp/heuristic.hh")],
     "exhaustive enumeration of instances; each result is judged against the composed phases and the tour, quota and cost invariants", "exploration",
     REAL + SHIM + FAMILY, "every weighted graph / tour / quota / parameters of the bounds; non-trivial when the tour changed", observe=["returned tour"])

LAB = ["pctsp/lab/lab.py", "pctsp/vial/result.py"]
prop("C27", "Saved experiments and results read back unchanged",
     "Every experiment and every result that is saved reads back equal to what was saved: all fields of every vial, in order, with name and timestamp, from the file of that experiment and that kind (full, or only missing results) and from no other. Reading something that was never saved is reported. Missing, complete and infeasible vials are classified by the saved results alone: missing when there is no readable result, infeasible when the saved prize is below the quota.",
     ["inputs"], "every value of every field of a vial, experiment and result, and every combination of present, absent and torn result files",
     "The tests write one vial; optional fields, enums, big integers, time zones, and mixtures of present and absent results need systematic values.",
     LAB, [("Lab.write_experiment_to_file / read_experiment_from_file", "pctsp/lab/lab.py"), ("Result.write_to_json_file / read_from_json_file", "pctsp/vial/result.py"), ("Lab.missing_vials / infeasible_vials / read_results_from_file", "pctsp/lab/lab.py")],
     "exhaustive enumeration of field values and of all present/absent/torn combinations of result files, each written and read back by the real code", "exploration",
     "Bounded-exhaustive: every value of each field's finite domain one at a time, all combinations of flags, all 3^5 file states of five vials. ",
     "every field value / flag combination / file-state combination of the bounds; all are non-trivial (something is written and read); distinct by the values",
     observe=["files in the lab directory", "returned objects"])
prop("C28", "A crash while an experiment is saved never corrupts what is read later",
     "Whenever a run dies while setting up, running or saving an experiment, at any file-system operation or after any number of bytes of any file, what is read afterwards is right: no result that is returned differs from what was computed, vials whose results were completely saved are complete, all others are reported missing, no reader fails, and re-running the missing vials completes the experiment. The same holds when the directory holds files of an earlier run.",
     ["crash_points"], "every file-system operation and every byte offset of every file written by a run",
     "No test interrupts a run; torn files exist only at particular byte offsets.",
     LAB, [("Result.write_to_json_file", "pctsp/vial/result.py"), ("Lab.missing_vials / infeasible_vials / read_results_from_file / run_batch", "pctsp/lab/lab.py")],
     "exhaustive crash injection: a child process runs the real workload and dies at each file-system event and at each byte of each file; recovery is then checked", "fault_enumeration",
     "All crash points of one workload (three vials, feasible, infeasible and a second algorithm); process death only, not loss of unsynced pages. ",
     "every file-system event and every byte length of every file of the workload; non-trivial when the child died before the end; distinct by what was readable afterwards",
     state=[("vial result file", "absent, torn or complete", "pctsp/vial/result.py")], observe=["what is read after the crash", "what a re-run does"])
prop("C29", "Batches and re-runs process exactly the vials they should",
     "In every history of batches, single-vial runs, re-runs and queries, each operation runs exactly its vials: a batch is the given slice of the experiment (or of the saved list of missing vials), restricted to vials without a result when asked. The saved result of every other vial is untouched, a vial that fails never stops the others, the batches cover every vial exactly once, and missing, infeasible, counts and number of batches are reported as they are.",
     ["histories", "inputs"], "every reachable combination of vial states and saved missing lists, every operation with every start index and batch size",
     "No test runs a lab at all; slicing and filtering interact only in particular states.",
     LAB + ["pctsp/apps/main_app.py"],
     [("Lab.run_batch / run_experiment / run_vial / get_nbatches", "pctsp/lab/lab.py"), ("batch / vial / missing / nmissing / infeasible / nbatches commands", "pctsp/apps/main_app.py")],
     "explicit-state model of vial states; every transition from every reachable state is replayed on the real lab and its files compared with the model", "model_checking",
     "Every reachable state of three vials (four kinds in thorough) and every operation from each; longer histories follow because every reachable state is a starting state; the same operations from mixed states of 5 to 30 vials (50 thorough) whose ids are not in order. ",
     "every (reachable state, operation) pair is a trace replayed on the real code; non-trivial when the operation runs a vial or answers a query; distinct by pair",
     state=[("status of each vial", "absent, torn or done", "lab directory"), ("missing list", "saved list of missing vials or none", "missing results experiment file")], observe=["files", "returned results", "printed answers"])

prop("C10", "Heuristics give the same tours from Python under any vertex labels",
     "Every Python heuristic returns exactly what the algorithm computes on the given graph, whatever non-negative integers label its vertices, however they are spread or ordered, and whether or not the graph has self loops or isolated vertices. Each argument (quota, root, step size, depth limit, shortest-path collapse) reaches the algorithm as passed. The graph is left unchanged; a root or tour vertex that is not on any edge is an error, never a wrong tour. The unitary gain and loss functions match their definitions.",
     ["inputs"], "every graph, labelling, tour, root, quota, step size and depth limit",
     "Tests use consecutive labels from zero with one parameter set, so a dropped, swapped or un-renamed argument is invisible.",
     ["pctsp/algorithms/extension_collapse.py", "pctsp/algorithms/path_extension_collapse.py", "pctsp/pypctsp.cpp", "include/pctsp/renaming.hh"],
     [("collapse / extension_* wrappers", "pctsp/algorithms/extension_collapse.py"), ("path_* wrappers", "pctsp/algorithms/path_extension_collapse.py"), ("*Bind functions", "pctsp/pypctsp.cpp")],
     "exhaustive enumeration of small graphs x tours x parameters x labellings; the Python result is compared with the C++ algorithm called directly", "exploration",
     REAL + SHIM + "All graphs of 4 vertices and dense ones with 5 (6 thorough), and members of the family of larger graphs with 8 to 40 vertices (80 thorough), four label sets. Reference runs over several vertex numberings, so that tie-breaking by index is allowed.",
     "every case within the bounds; non-trivial when the tour changes; distinct by returned tour and parameters",
     observe=["returned tours", "raised errors", "input graph afterwards"])

RUNFILES = ["pctsp/lab/run_algorithm.py", "pctsp/algorithms/algorithms.py"]
prop("C30", "Running a vial returns a truthful result, optimal if exact",
     "For every graph, root, quota and algorithm configuration, the result's edges form a simple closed tour through the root in the given graph, or are empty, and its objective, prize, vial id and start and end times describe that tour and run. Exact algorithms return a least-cost tour meeting the quota whatever their options, and nothing when there is none; heuristics return what their parts composed produce. Preprocessing applies exactly the steps switched on. Options that do not exist are refused. The graph is never changed.",
     ["inputs"], "every graph, labelling, quota, preprocessing flag set, heuristic and combination of solver options",
     "No stable test runs any algorithm end to end; a cutting plane that removes the optimum needs particular options on particular instances.",
     RUNFILES + ["src/cost_cover.cpp", "src/subtour_elimination.cpp"],
     [("run_algorithm / run_heuristic / run_preprocessing", "pctsp/lab/run_algorithm.py"), ("solve_pctsp", "pctsp/algorithms/algorithms.py"), ("branch and cut", "src/algorithms.cpp")],
     "exhaustive enumeration of small graphs x quotas, cycling through every configuration; whole runs of the real code and solver are compared with brute-force optima", "exploration",
     REAL + SHIM + "All graphs up to 4 vertices and dense ones with 5 (all in thorough), each with several quotas; configurations are assigned cyclically and all of them run on three dense graphs; members of the family of larger graphs with 7 to 12 vertices (16 thorough).",
     "every (graph, quota, configuration) of the bounds; non-trivial when a feasible tour exists; distinct by graph, quota and configuration",
     observe=["returned result", "input graph afterwards", "raised errors"])

prop("C36", "A vial is run on the graph and options its configuration describes",
     "Running a vial solves exactly the instance its data configuration names: that dataset, graph and generation, with its vertices, prizes, edges and costs; sparsified to kappa edges per vertex when asked, keeping self loops; under the named cost function (original, uniform random between 1 and 100, MST or semi-MST cost, self loops always free); with the vial's root and quota. The same vial always gives the same instance, and one vial never influences another. Every solver option of the vial reaches the solver unchanged. Missing data is reported.",
     ["inputs", "histories"], "every dataset instance, generation, kappa, cost function, root, quota, option value and mixture of vials in one experiment",
     "No stable test loads a dataset through the lab; a stale or swapped value affects only one combination of settings.",
     ["pctsp/lab/lab.py", "pctsp/lab/run_algorithm.py", "pctsp/algorithms/algorithms.py", "src/algorithms.cpp"],
     [("Lab.run_experiment_from_vial_list", "pctsp/lab/lab.py"), ("run_algorithm", "pctsp/lab/run_algorithm.py"), ("solve_pctsp", "pctsp/algorithms/algorithms.py")],
     "exhaustive enumeration of configurations over twelve synthetic instances in the real file formats; what reaches the solver is recorded and compared with an independently computed instance", "exploration",
     "Bounded-exhaustive over the stated instances (nine OPLib-format, three londonaq-format), kappas, cost functions, quotas; all pairs of option values; all ordered pairs of data configurations. Four instances with 14 to 26 vertices, where the graph handed to the solver is judged but not the optimum. The last step, from the call of the C++ library to the settings of the real solver, is judged over some 3500 solves. " + SHIM,
     "every configuration of the bounds is run twice by the real lab; non-trivial when a feasible tour exists; distinct by configuration",
     observe=["arguments of the solver call", "returned results"])

prop("C26", "Named experiments contain every combination exactly once, correctly set",
     "The product of any lists of parameter values holds each combination exactly once. Every named experiment holds, for its dataset, each combination of its data, model and preprocessing parameters in exactly one vial, with a uuid of its own. Every vial's root is its instance's depot and its quota the stated percentage of its instance's total prize; its kind flags, name and settings agree with each other, so that it can be run; the instances, algorithms, settings and preprocessing of each named experiment are exactly those of the study; asking for another name, for a dataset the experiment is not defined over, or for data that is missing, is an error.",
     ["inputs"], "every list of parameter values within the bounds, every experiment name and dataset",
     "No stable test builds an experiment; a combination dropped, doubled or given the quota of another instance shows only in the full product.",
     ["pctsp/compare/product_of_params.py", "pctsp/compare/exact_experiment.py", "pctsp/compare/heuristic_experiment.py", "pctsp/compare/relaxation_experiment.py", "pctsp/compare/dryrun_experiment.py", "pctsp/compare/params.py"],
     [("product_of_* functions", "pctsp/compare/product_of_params.py"), ("*_experiment functions", "pctsp/compare/exact_experiment.py")],
     "exhaustive enumeration of parameter sub-lists and of all named experiments, compared with an independent cross product and independently computed quotas and roots", "exploration",
     "Bounded-exhaustive over lists of at most two values per parameter and every named experiment of each dataset, over synthetic instances in the real file formats for every graph the experiments name. ",
     "every product case within the bounds and every (experiment, dataset); non-trivial when the product is not empty; distinct by returned set of configurations",
     observe=["returned data configurations, model parameters and vials", "raised errors"])

prop("C32", "Every command line does what its arguments say",
     "Each command runs exactly the vial, batch or experiment its arguments describe: every option reaches the data configuration, preprocessing and model parameters of the vial it is named after, nothing else changes, and the result saved and shown is that of this vial. Setting up an experiment, counting its batches and submitting its slurm script processes every vial exactly once for every batch size, running one vial by its uuid runs that vial and no other, with the time limit of the vials respected (a job asks for enough time for all its vials, never more than two hours above it or two days in all); a combination of arguments that cannot be run is an error.",
     ["inputs", "histories"], "every option value, every pair of an option and a command, every experiment, batch size and time limit",
     "No stable test calls the command line; options are passed by position and by keyword through several layers.",
     ["pctsp/apps/main_app.py", "pctsp/apps/options.py"],
     [("tsplib / londonaq / setup / lab / batch / nbatches / slurm commands", "pctsp/apps/main_app.py"), ("options", "pctsp/apps/options.py")],
     "exhaustive enumeration of option values and of whole flows (setup, slurm script run by bash with a stand-in srun, batch), with the files and solver calls compared with a model", "exploration",
     "Bounded-exhaustive over the stated option values, one at a time and in pairs, batch sizes and experiments; the slurm script is really executed by bash with a stub scheduler. " + SHIM,
     "every invocation or flow of the bounds; non-trivial when a vial is run or a script printed; distinct by arguments",
     observe=["exit codes and output", "files of the lab directory", "arguments of the solver call", "generated scripts"])

MIPFAM = "Larger: nine graph families (ladders, prisms, joined cliques, rows of triangles, rings with chords, grids, wheels, Petersen) with 8 to 16 vertices, few enough cycles to list them all. "
MIP = "The real SCIP binary solves every instance; the test driver intercepts the calls that add rows and constraints. "

prop("C11", "The integer model has exactly the prize-collecting tours as solutions",
     "For every graph, root, prizes and quota, the variables of the model are one binary variable per edge and per vertex, and the 0/1 assignments that satisfy every constraint of the model including the subtour constraint are exactly the simple cycles of at least three vertices through the root whose prize meets the quota, with objective value equal to the cost of the cycle. Both ways of building the model (from a graph, from edge and cost maps) agree, and a starting tour is accepted.",
     ["inputs"], "every graph, root, prize assignment, quota, edge order and overload",
     "No C++ test is compiled by the build; the tests that exist check feasibility of a few constraints, not that nothing else is feasible.",
     ["include/pctsp/algorithms.hh", "src/algorithms.cpp", "src/separation.cpp", "src/sciputils.cpp"],
     [("modelPrizeCollectingTSP", "src/algorithms.cpp"), ("isSimpleCycle", "src/separation.cpp"), ("addHeuristicVarsToSolver", "src/algorithms.cpp")],
     "explicit enumeration of every 0/1 assignment of the model built by the real code, membership compared with brute-force enumeration of tours", "exploration",
     REAL + MIP + "All graphs of 3 and 4 vertices with every quota, a stride of those with 5 (and 6, thorough). " + MIPFAM + "There the points are every cycle, every tour with one edge or loop more or less, and tours together with a cycle apart.",
     "every model within the bounds; states are assignments; non-trivial when a tour exists; distinct by the set of solutions",
     observe=["variables, bounds, objective and linear constraints of the model", "verdict on every assignment"], assumptions=["the subtour constraint is decided by the code's isSimpleCycle on integral points, as in the constraint handler"])

prop("C12", "Branch and cut returns an optimal tour, or proves there is none",
     "Whatever the options (branching strategy and depth, cost cover, cycle cover, separators, tailing-off, starting tour, plug-ins, overload), solving returns the edges of one simple cycle through the root that meets the quota and has minimum cost, with status optimal; if no such cycle exists the status is infeasible and no edges are returned; if a limit stops the solver, it returns the edges of the best feasible tour it has found, or nothing if it has found none. Every option given is the one the solver works with: time limit, separation frequency, plug-ins, branching strategy and depth.",
     ["inputs", "histories"], "every instance and every combination of solver options",
     "No C++ test is compiled by the build; an invalid cut or a wrong bound only shows when the optimum itself is cut off, on a particular instance under particular options.",
     ["src/algorithms.cpp", "src/subtour_elimination.cpp", "src/separation.cpp", "src/solution.cpp"],
     [("solvePrizeCollectingTSP", "include/pctsp/algorithms.hh"), ("PCTSPconshdlrSubtour", "src/subtour_elimination.cpp"), ("getSolutionEdges", "src/solution.cpp")],
     "bounded-exhaustive exploration of instances times option settings; every run of the real branch and cut is compared with brute-force enumeration of tours", "exploration",
     REAL + MIP + "All graphs of 3 and 4 vertices, half (all, thorough) of those with 5, hard ones with 6; eight cost patterns, three prize patterns, every quota; option settings are spread over the instances in a fixed stride. " + MIPFAM,
     "every (instance, option setting) of the bounds; states are branch-and-bound nodes; non-trivial when a tour exists; distinct by status, optimum and size of the tree",
     observe=["returned edges", "solver status"])

prop("C13", "Subtour elimination is valid, violated and complete",
     "Every inequality that the separators add is satisfied by every tour through the root and violated by the point it was separated from. At an integral point with a cycle that misses the root, disjoint-tour separation cuts off every such cycle; max-flow separation finds an inequality whenever the flow from the root to a surely visited vertex is too small. The result says that cuts were added exactly when they were.",
     ["inputs", "states"], "every graph, root and every fractional point of the degree polytope with values in a fixed grid",
     "No C++ test is compiled by the build; the points a solver run passes through are a tiny part of those the separators must handle.",
     ["src/subtour_elimination.cpp", "src/separation.cpp", "src/data_structures.cpp"],
     [("PCTSPseparateDisjointTour / PCTSPseparateMaxflowMincut", "src/subtour_elimination.cpp"), ("addSubtourEliminationConstraint", "src/subtour_elimination.cpp"), ("ProbDataPCTSP", "src/data_structures.cpp")],
     "exhaustive enumeration of all points of the degree polytope on a grid, each given to the real separators inside a solver, against brute-force tours and minimum cuts", "exploration",
     REAL + MIP + "Every point with values in halves on all graphs of up to 5 vertices, thirds and quarters on complete graphs with 4 and 5, halves on hard graphs with 6, thirds and fifths on K4, a ladder of 5 and a prism of 6 vertices in three insertion orders (the library orders edges by address, which an arena makes the order of insertion); plus the cuts of every branch-and-cut run. " + MIPFAM + "There the points are all sums, in halves, thirds and fifths, of two or three pieces (a cycle through the root, perhaps with a cycle that avoids it).",
     "every point of the grid on every graph within the bounds; states are points, transitions are separated inequalities; non-trivial when something is separated; distinct by both counts",
     observe=["rows added by the separators", "result codes"], assumptions=["completeness of max-flow separation is checked for vertices visited with value 1: root-side marks are heuristic"])

prop("C14", "Cost cover inequalities never cut off an optimal tour",
     "Every cost cover inequality, from disjoint paths or from shortest paths, before or during the solve, is satisfied by every tour that is at least as good as the best known tour; before the solve there is one for exactly the vertices whose bound exceeds the cost of the starting tour; whenever a better tour is found, every vertex whose bound exceeds its cost is excluded by one; none is added when switched off, and the counters agree with what was added.",
     ["inputs", "histories"], "every instance, starting tour and combination of options",
     "No C++ test is compiled by the build; a cover is only wrong if the objective is scaled, the bound is infinite or the vertex is the root.",
     ["src/cost_cover.cpp", "include/pctsp/cost_cover.hh", "src/algorithms.cpp"],
     [("CostCoverEventHandler", "src/cost_cover.cpp"), ("includeShortestPathCostCover / includeDisjointPathsCostCover", "src/cost_cover.cpp"), ("separateCostCoverPaths", "include/pctsp/cost_cover.hh")],
     "bounded-exhaustive exploration of instances times option settings; every inequality added in any run of the real branch and cut is checked against every tour of the instance", "exploration",
     REAL + MIP + "Bounds as for the optimum (C12).",
     "every (instance, option setting) of the bounds; transitions are recorded inequalities; non-trivial when a tour exists; distinct by status, optimum and size of the tree",
     observe=["constraints added through the solver interface", "counters in the statistics file"])

prop("C15", "Cycle cover inequalities are valid and violated",
     "Every cycle cover inequality is satisfied by every tour through the root that meets the quota, and violated by the point it was separated from; it is only separated for a set of vertices whose prize is below the quota; the result code and the counter agree with what was added.",
     ["inputs", "states"], "every graph, root, prize assignment, quota and every point of the degree polytope on a grid",
     "No C++ test is compiled by the build; validity depends on the prize of the component and whether it contains the root.",
     ["src/cycle_cover.cpp", "include/pctsp/cycle_cover.hh"],
     [("CycleCoverConshdlr", "src/cycle_cover.cpp"), ("separateCycleCover", "src/cycle_cover.cpp")],
     "exhaustive enumeration of all points of the degree polytope on a grid, each given to the real separator inside a solver, against brute-force tours; plus every cover of every branch-and-cut run", "exploration",
     REAL + MIP + "Every point in halves on all graphs with 3 and 4 vertices and a stride of those with 5; thirds and quarters on the complete graph with 4; sums of cycles on the larger graphs named under C13.",
     "every point of the grid on every instance within the bounds; states are points, transitions are inequalities; distinct by both counts",
     observe=["rows added by the separator", "result codes", "counter in the statistics file"])

prop("C17", "Branching strategies set exactly the priorities they name",
     "After any sequence of choices of a branching strategy, the rule that the last strategy names has the highest priority of all rules (strong branching first and reliability branching second for the strong strategies), the depth limit is applied to strong branching exactly for the strategy that has one, and nothing else is changed; an unknown or default strategy changes nothing. This holds in every solve for the strategy and depth it was called with.",
     ["inputs", "histories"], "every strategy, depth, set of plug-ins, previous priorities and sequence of choices",
     "No C++ test is compiled by the build; a priority is only wrong relative to the other rules that happen to be loaded.",
     ["src/branching.cpp", "include/pctsp/branching.hh"],
     [("setBranchingStrategy / includeBranchRules", "src/branching.cpp")],
     "exhaustive enumeration of sequences of strategy choices over the real solver's branching rules", "model_checking",
     REAL + MIP + "Sequences of one and two choices over 7 strategies and 5 depths, with raised priorities of every rule; then about 3500 solves with every strategy and three depths, whose rules are read afterwards.",
     "every sequence within the bounds; states are settings after each choice; distinct by final settings",
     observe=["priority, depth and bound distance of every branching rule"])

prop("C18", "The summary statistics describe the solve that was run",
     "After every solve the statistics file holds the final status, number of nodes, bounds equal to the optimum in the units of the instance, and for each family of inequalities the number that was added, zero for families that are switched off; per-node counters add up to what was separated.",
     ["inputs", "histories"], "every instance and every combination of solver options",
     "No C++ test is compiled by the build; counters go wrong only if a node is revisited, a family is off or the objective is scaled.",
     ["src/stats.cpp", "src/event_handlers.cpp", "src/algorithms.cpp"],
     [("SummaryStats", "include/pctsp/stats.hh"), ("NodeEventhdlr", "src/event_handlers.cpp"), ("getSummaryStatsFromSCIP", "src/algorithms.cpp")],
     "bounded-exhaustive exploration of instances times option settings; every statistics file is compared with the calls intercepted during the run", "exploration",
     REAL + MIP + "Bounds as for the optimum (C12). A known finding (counters of a revisited node start again) is tolerated only where the count equals the prediction for it.",
     "every (instance, option setting) of the bounds; states are nodes; non-trivial when a tour exists; distinct by status, optimum and size of the tree",
     observe=["the statistics file", "status, nodes and added inequalities of the solver"])

prop("C16", "Separation tails off exactly when the gap has stopped improving",
     "With a limit of k iterations, the list of recent gaps always holds the last k gaps of the node in order, and a node is tailing off exactly when k is at least two, k gaps are known and the gap improved by less than the threshold between the oldest and the newest of them; with a limit below two no node ever tails off. In every solve, a relaxation that is not a tour is answered by branching exactly when its own node is tailing off under the limit and threshold of the call, and otherwise by separation.",
     ["inputs", "histories"], "every sequence of gaps, every iteration limit and threshold",
     "No C++ test is compiled by the build; the rule fails only at the boundary between a full and an almost full list, or for limits zero, one and negative.",
     ["src/separation.cpp", "src/subtour_elimination.cpp"],
     [("pushIntoRollingLpGapList / isNodeTailingOff", "include/pctsp/subtour_elimination.hh")],
     "exhaustive enumeration of all gap sequences up to length 6 over five values, with every limit and threshold; the state after every step is compared with the definition, and so is every decision of bounded-exhaustive real solves", "exploration",
     REAL + SHIM + "All sequences over five gap values up to length 6 (7 thorough), limits -2..5, five thresholds; every member of a family of histories of up to 120 gaps (steps down, up, mixed) with limits up to 100. Then about 3500 solves (five limits, four thresholds, every branching strategy, hard graphs) in the real solver, where every gap that the library computes and every decision to branch is intercepted and compared with the rule per node.",
     "every (limit, threshold, gap sequence); states are list contents after a step; non-trivial with at least two gaps; distinct by the answers along the sequence",
     state=[("rolling list of gaps", "last k gaps of the node", "include/pctsp/subtour_elimination.hh")], observe=["the rolling list", "the answer of isNodeTailingOff"])

prop("C19", "Statistics files keep every value under its own name",
     "A summary written to YAML reads back unchanged in every field, each value stands under its own key, an older file is replaced, and a missing folder is neither created nor an error; the node and bound tables have one row per record with each value under its column; timestamps are UTC with three digits of milliseconds whatever the local time zone.",
     ["inputs"], "every summary, list of node statistics and bounds, instant and time zone",
     "No C++ test is compiled by the build; swapped fields are invisible when counters are equal, and time zones when the machine runs in UTC.",
     ["src/stats.cpp", "src/event_handlers.cpp"],
     [("writeSummaryStatsToYaml / readSummaryStatsFromYaml", "src/stats.cpp"), ("writeNodeStatsToCSV / writeBoundsToCSV", "src/event_handlers.cpp"), ("timePointToString", "src/event_handlers.cpp")],
     "exhaustive enumeration of field values one at a time against all bound pairs, of instants in several time zones and of small tables; files are parsed independently and compared", "exploration",
     REAL + SHIM + "Six statuses, all pairs of ten bounds, every counter at four values, 15 instants times every third millisecond (all thorough) in four time zones, tables of up to 4 rows.",
     "every value of the bounds; distinct by the values written",
     observe=["the written files", "the values read back"])

prop("C20", "The solver called from Python is optimal under any vertex labels",
     "For every graph, whatever the integer labels, edge orientations and orders, loops or isolated vertices, solve_pctsp returns the edges of an optimal tour in the caller's labels, or nothing exactly when no tour meets the quota; the model then has the matching status and bounds; only a feasible starting tour is handed on; no argument is changed; nothing depends on memory that has been released.",
     ["inputs"], "every labelled graph, quota, starting tour and combination of options",
     "The build does not compile the extension, so no test calls the solver; labels, orientations and lifetimes go wrong only in combinations.",
     ["pctsp/pypctsp.cpp", "pctsp/algorithms/algorithms.py", "include/pctsp/renaming.hh", "src/algorithms.cpp"],
     [("pySolvePrizeCollectingTSP / pyBasicSolvePrizeCollectingTSP", "pctsp/pypctsp.cpp"), ("solve_pctsp", "pctsp/algorithms/algorithms.py")],
     "exhaustive enumeration of all small graphs times labellings, quotas, starting tours and option combinations through the real extension and solver, against brute force; released Python memory is overwritten", "exploration",
     REAL + "The extension is compiled against a stand-in for pybind11 and linked to the real libscip. " + "All graphs of up to 5 vertices with five quotas; every one of 5760 option combinations at least once; four label sets, eight presentations; members of the family of larger graphs with 7 to 12 vertices (16 thorough) whose tours can still be listed.",
     "every (graph, quota, labelling, presentation, option) of the bounds; options, labels and presentations are dealt round over the graphs; non-trivial when a tour exists; distinct by the tour",
     observe=["returned edges", "status and bounds of the Python model", "arguments that reach the extension"])

prop("C21", "Renaming vertices is a bijection that never renumbers",
     "After any sequence of renaming vertices and edges into one map, the numbers in use are exactly 0..k-1 in order of first appearance, earlier numbers never change, edges keep their order and orientation, looking names up in either direction is inverse, an unknown name raises a not-found error, and costs and prizes copied through the map reach the vertices and edges they belong to.",
     ["inputs", "histories"], "every sequence of renaming operations and look-ups, every set of labels",
     "No C++ test is compiled by the build; the existing cases rename once into an empty map.",
     ["include/pctsp/renaming.hh"],
     [("renameVertices / renameEdges", "include/pctsp/renaming.hh"), ("getOldVertices / getNewVertices / getOldEdges / getNewEdges", "include/pctsp/renaming.hh"), ("fillRenamedVertexMap / fillCostMapFromRenamedMap", "include/pctsp/renaming.hh")],
     "exhaustive exploration of operation sequences up to depth 3 (4 thorough) against a reference list of names", "exploration",
     REAL + SHIM + "All sequences of one or two operations on up to three vertices or two edges over four labels, all sequences of three small operations, four label sets, two label types; the edges of every member of a graph family over 13, 40 and 90 labels, in several orders and chunks, with vertices before, between or after.",
     "every operation sequence within the bounds; states are maps after an operation; distinct by final numbering and edges",
     state=[("bimap of names", "number to label, dense", "include/pctsp/renaming.hh")], observe=["the bimap", "returned vertices and edges", "exceptions"])

prop("C22", "Walks, tours and graph helpers mean what they say",
     "On every graph: the edges, cost, prize and text of a walk are those of its consecutive vertices, and a walk over a missing edge is an error; a tour reordered from any of its vertices, and any subpath of it, follow the same cyclic order; simple cycles, induced edges, self loops, cuts, filtered graphs, reachable vertices and blocked shortest paths are exactly those of the definition; breadth-first search marks exactly the unmarked vertices within the depth limit with shortest parents; depth-first search never exceeds it.",
     ["inputs"], "every graph, walk, subset of edges or vertices, source, target and depth limit",
     "No C++ test is compiled by the build; each helper is used by the heuristics or separators on inputs a handful of tests never samples.",
     ["include/pctsp/walk.hh", "include/pctsp/graph.hh", "src/graph.cpp", "src/walk.cpp", "include/pctsp/separation.hh", "src/preprocessing.cpp", "include/pctsp/constraint.hh"],
     [("getEdgesInWalk / totalCost / totalPrize / ReorderTourFromRoot", "include/pctsp/walk.hh"), ("breadthFirstSearch / depthFirstSearch / getSubpathOfCycle / getEdgesInducedByVertices", "include/pctsp/graph.hh"), ("dijkstraShortestPathBlacklist", "include/pctsp/walk.hh"), ("isSimpleCycle / getReachableVertices / getEdgesFromCut", "include/pctsp/separation.hh")],
     "exhaustive enumeration of all small graphs; on each, every walk, subset of edges, subset of vertices, source and target is tried and compared with the definition", "exploration",
     REAL + SHIM + "All graphs of up to 4 vertices and a quarter of those with 5 (all, and a share of 6, thorough), all walks up to 4 or 5 steps; every member of a graph family (seven topologies, salts) with 8 to 100 vertices, there with families of walks, edge sets, vertex sets, sources and limits.",
     "every (graph, orientation, loops, cost pattern) of the bounds; states are walks and subsets, transitions shortest-path queries; non-trivial with an edge; distinct by graph, walks and cycles",
     observe=["returned edges, vertices and paths", "exceptions"])

prop("C23", "Components are split without losing or inventing vertices",
     "For every assignment of vertices to component numbers, the component vectors list each vertex exactly once under its own number in order, and the non-singular ones are exactly those with more than one vertex, in order, through either overload; the input is not changed.",
     ["inputs"], "every assignment of vertices to components, with empty components",
     "No C++ test is compiled by the build; positions and numbers coincide unless a singular component precedes a larger one.",
     ["include/pctsp/data_structures.hh"],
     [("getConnectedComponentsVectors", "include/pctsp/data_structures.hh"), ("getNonSingularConnectedComponentVectors", "include/pctsp/data_structures.hh")],
     "exhaustive enumeration of all set partitions of up to 7 vertices (8 thorough), numbered in several ways", "exploration",
     REAL + SHIM + "All set partitions of up to 7 vertices, with and without an empty component, forward and reversed numbering; a family of partitions of 9 to 300 vertices, and four partitions of 70000.",
     "every numbered partition within the bounds; distinct by the non-singular components", observe=["component vectors"])

prop("C24", "The knapsack example solves its model to optimality",
     "For every list of values and weights and every capacity, the knapsack routine builds a model whose optimum is the best total value of a set of items that fits, solves it and frees it.",
     ["inputs"], "every small list of values and weights, every capacity",
     "No C++ test is compiled by the build.",
     ["src/knapsack.cpp"], [("knapsack", "src/knapsack.cpp")],
     "exhaustive enumeration of all instances with up to three items through the real solver, against brute force", "exploration",
     REAL + SHIM + "Up to 3 items, values 0..3, weights 0..3, capacities 0..5; a family of 4 to 20 items judged by dynamic programming.",
     "every (values, weights, capacity) within the bounds; states are item sets; non-trivial when an item fits; distinct by optimum", observe=["status and primal bound of the model when it is freed"])

prop("C25", "Log levels let through exactly the messages at or above them",
     "Each Python level maps to the engine level of the same meaning, any other number to info; after any sequence of settings exactly the messages at or above the last level are written, by the engine and by the Python loggers, each exactly once however often the logger was requested; a level given to an algorithm changes nothing but the messages.",
     ["inputs", "histories"], "every level and every sequence of logger requests and level settings",
     "The tests set one level once and check no output; messages are lost or repeated only after a second setting.",
     ["src/logger.cpp", "pctsp/utils/utils.py", "pctsp/pypctsp.cpp"],
     [("getBoostLevelFromPyLevel / PCTSPinitLogging", "src/logger.cpp"), ("get_pctsp_logger / get_scip_log_filepath", "pctsp/utils/utils.py"), ("the level argument of the bindings", "pctsp/pypctsp.cpp")],
     "exhaustive exploration of setting sequences up to depth 3 (4 thorough), observing which messages of every level are written after each step", "exploration",
     REAL + "All levels -5..70, all sequences of up to three settings over seven levels, of up to three logger requests over two names and seven levels, and of engine calls over nine levels after each of three.",
     "every sequence within the bounds; states are settings, transitions are messages tried; distinct by sequence and outcome",
     state=[("filter of the engine's logging core", "lowest severity written", "src/logger.cpp"), ("handlers of a Python logger", "exactly one, at the last level", "pctsp/utils/utils.py")], observe=["lines written to standard error and output"])

prop("C37", "Reading a solution back from the solver loses nothing",
     "For every solution value of every variable, the edges, vertices, graph and filtered graph read from it contain exactly the edges and loops whose variable is positive beyond the tolerance for zero (1e-9), a solution is integral exactly when every value is within that tolerance of an integer, the variables of edges and their joined names come in the given order, and a missing loop or variable is an error.",
     ["inputs"], "every graph and every assignment of zero, tiny, fractional and integral values",
     "No C++ test is compiled by the build; tolerances matter only for values near zero and one.",
     ["src/solution.cpp", "src/sciputils.cpp", "include/pctsp/solution.hh", "include/pctsp/graph.hh"],
     [("getSolutionEdges / getSolutionVertices / getSolutionGraph", "src/solution.cpp"), ("isSolutionIntegral / isVarPositive", "src/solution.cpp"), ("joinVariableNames / fillPositiveNegativeVars", "src/sciputils.cpp"), ("getEdgeVariables", "src/graph.cpp")],
     "exhaustive enumeration of all small graphs times all assignments of up to eight values to their variables, inside the real solver", "exploration",
     REAL + SHIM + "All graphs of up to 4 vertices (a share with 5), eight values on up to 4 variables, three on up to 7, two on up to 11; a family of graphs of 8 to 30 vertices with twelve assignments each (60 thorough).",
     "every assignment within the bounds; states are assignments; non-trivial with a variable; distinct by the numbers of positive variables",
     observe=["returned edges, vertices, graphs and names", "exceptions"])

prop("C31", "Tables and figures report exactly what was measured",
     "For every combination of runs with missing, unreadable, infeasible and feasible results and statistics: the CSV file of an experiment has exactly one row per run that has what the file needs, with every setting and measurement in its own column, the objective and overshoot only of runs that meet the quota; the gap of a heuristic is relative to the lower bound of the exact run on the same instance; every number of the cost cover, tailing off, heuristics and dataset tables and of the heuristics figure is the count or mean of the measured values of exactly the runs its row and column name; making a table pretty changes names only.",
     ["inputs", "histories"], "every combination of states of the runs of an experiment, every shape of table",
     "No test reads an experiment into a table; wrong joins, filters or replacements give plausible numbers.",
     ["pctsp/apps/csv_app.py", "pctsp/apps/tables_app.py", "pctsp/apps/plot_app.py", "pctsp/vial/vial.py", "pctsp/lab/lab.py", "pctsp/algorithms/data_structures.py"],
     [("experiment_summary_df / summary_stats_df", "pctsp/apps/csv_app.py"), ("get_heuristics_df / heuristics_table / cost_cover_table / tailing_off_table / pretty_dataframe", "pctsp/apps/tables_app.py"), ("plot_heuristics_figure", "pctsp/apps/plot_app.py"), ("flat_dict_from_vial", "pctsp/vial/vial.py")],
     "exhaustive enumeration of the states of the files of an experiment (result and statistics of each run: absent, unreadable, infeasible, at the quota, above it) and of measured outcomes, run through the real commands from the files to the CSV file, the table or the figure", "exploration",
     "The real commands run on files written by the real classes; only the rendering of a finished table to LaTeX and of a finished figure to PDF is replaced by a recorder, because the packages for it are not installed. The oracle computes every cell from the definition. "
     "All states of one and two runs, all results of three; all outcomes of the three cover settings; all settings of the tailing off table; all outcomes of four heuristics; all choices of up to six columns and two index levels.",
     "every case within the bounds; states are runs or table groups, transitions are cells; non-trivial when some run has a result; distinct by case",
     observe=["CSV files", "data frames of the tables", "traces of the figure"])

prop("C33", "Archives give back exactly the experiments that were put in",
     "After any sequence of zipping, unzipping, changing, adding to and removing experiments, unzipping restores every file and empty directory of exactly the experiments named, byte for byte as of the last time each was zipped; nothing else of the lab, of another experiment or of another dataset is touched; archiving what is not there is an error.",
     ["inputs", "histories"], "every sequence of operations on the archives of a lab",
     "No test calls the commands; a wrong root or base directory shows only when the archive is unpacked again.",
     ["pctsp/apps/utils_app.py"], [("zip_experiments / unzip_experiments", "pctsp/apps/utils_app.py")],
     "exhaustive exploration of all histories up to depth 3 (4 thorough) of zip, unzip, change, add and remove on the real files against a model of directories and archives", "exploration",
     "The real commands run in a scratch directory. All histories of up to three of fourteen operations over two experiments, three directory trees, two datasets.",
     "every history within the bounds; states and transitions are operations; distinct by history",
     state=[("lab directory", "files of each experiment", "pctsp/apps/utils_app.py"), ("archives", "the files when last zipped", "pctsp/apps/utils_app.py")], observe=["all files of the lab after each step", "exceptions"])

prop("C34", "Statistics of a dataset describe its graphs",
     "For every connected or disconnected graph with a cycle through the root and every cost and prize function: the reported numbers of vertices and edges, totals, share of metric edges, largest prize and largest cost of a least-cost pair of vertex-disjoint paths from the root, and the same after preprocessing, are those of the definition; the ratios are of the total prize, hence never above one; the graph is not changed; the command writes one row per instance of the dataset, sparsified and with the cost function its row names.",
     ["inputs"], "every small graph, root, cost and prize function, self loops, vertex labels; every list of instances",
     "No test computes statistics; ties, the root's own entry and disconnected graphs are never sampled.",
     ["pctsp/apps/dataset_app.py", "pctsp/preprocessing/preprocessing.py", "pctsp/suurballe/suurballe.py"],
     [("get_graph_stats / stats_of_dataset", "pctsp/apps/dataset_app.py"), ("undirected_vertex_disjoint_paths_map / vertex_disjoint_cost_map", "pctsp/preprocessing/preprocessing.py")],
     "exhaustive enumeration of all graphs of up to 4 vertices and a share of those with 5 and 6, times costs, prizes, loops, labels and roots, against brute force over all simple cycles through the root", "exploration",
     "Larger members of a parametric family (7 to 40 vertices, 90 thorough) are judged by flows that agree with brute force on the small ones. The real function and command on graphs and generated dataset files. Where optimal pairs of paths tie, any of them may be reported.",
     "every case within the bounds; non-trivial when the root is on a cycle and the metric share is defined; states are graphs or rows",
     observe=["reported row", "CSV file", "the graph afterwards"])

prop("C35", "Drawings show the graph and the tour, nothing more",
     "For every graph, column naming, order of rows and direction of edges: the line segments of the edge trace are exactly the edges at the coordinates of their vertices, those of the tour trace exactly the edges of the tour, the vertex trace has one marker per vertex coloured by its own value; options given by the caller win; the data frames are not changed.",
     ["inputs"], "every small graph, every tour in it, label and column naming, row order",
     "No test draws anything; a line through unrelated vertices is a valid trace.",
     ["pctsp/plot/plot_edges.py", "pctsp/plot/plot_graph.py", "pctsp/plot/plot_tour.py", "pctsp/plot/plot_vertices.py"],
     [("edge_scatter", "pctsp/plot/plot_edges.py"), ("tour_edges_trace", "pctsp/plot/plot_tour.py"), ("vertex_scatter", "pctsp/plot/plot_vertices.py"), ("graph_trace / graph_layout", "pctsp/plot/plot_graph.py")],
     "exhaustive enumeration of all graphs of up to 3 vertices in every naming (4 thorough), all with 4, a share with 5, and of every cycle and there-and-back walk in each; the trace is decoded into segments", "exploration",
     "The real functions with the real plotting library; also members of the family of larger graphs with 8 to 60 vertices (120 thorough) and long walks in them.",
     "every case within the bounds; states are tours drawn; non-trivial with an edge; distinct by graph",
     observe=["segments and markers of the traces", "the data frames afterwards"])
