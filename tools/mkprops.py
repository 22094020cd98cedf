#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept in one place so ids stay stable)."""
import json, os
P = []
B = "PyCTBN/PyCTBN/"
NOTEST = "The data files of most tests are missing, so 66 of 89 tests never run; "
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [B + f for f in files], "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

# ------------------------------------------------------------------ import
p("C01", "Imported rows are per-trajectory time deltas and successor states",
  "After import, every trajectory with n rows contributes exactly n-1 processed rows, in order and one trajectory after the other: row k holds the time until row k+1 of the same trajectory, the states of row k, and the states of row k+1 of that same trajectory. No processed row mixes two trajectories, is dropped, duplicated or reordered, whatever row labels, column names or variable labels the input frames carry.",
  ["inputs"], "all lists of trajectories, all lengths, all row indexes and variable labels",
  NOTEST + "and those that would only look at one data set with default row index.",
  ["utility/abstract_importer.py"],
  [("per-frame difference and shift, last row dropped", "AbstractImporter.compute_row_delta_sigle_samples_frame"),
   ("one call per frame, then concatenation in list order", "AbstractImporter.compute_row_delta_in_all_samples_frames")],
  ["AbstractImporter.concatenated_samples"])
p("C02", "Importing never alters the caller's trajectories or tables",
  "Importing data and building the sample path leave every trajectory table, variable table, structure table and header list supplied by the caller unchanged (values, rows, columns, order). The same input objects can be imported again with the same result.",
  ["inputs", "histories"], "all input frames and lists handed to an importer, any number of imports",
  NOTEST + "no test compares inputs before and after an import.",
  ["utility/abstract_importer.py", "utility/sample_importer.py", "structure_graph/sample_path.py"],
  [("deep copy before the in-place column writes", "AbstractImporter.compute_row_delta_sigle_samples_frame"),
   ("header copied before it is extended", "AbstractImporter.compute_row_delta_in_all_samples_frames")])
p("C03", "Columns, labels, indexes and cardinalities stay aligned, or are refused",
  "The processed data has the time column first, then one column per variable in header order, then one successor column per variable in the same order. Building the network description succeeds only if the data header equals the variable table's labels in order, otherwise it fails with RuntimeError, and then the k-th label, the k-th state column, the index k and the k-th cardinality all describe the same variable.",
  ["inputs"], "all column orders, time-column names, variable tables and their row indexes",
  NOTEST + "the mismatch test and the alignment tests are among those that cannot run.",
  ["utility/abstract_importer.py", "utility/json_importer.py", "utility/sample_importer.py", "structure_graph/sample_path.py"],
  [("header built from the sorter", "AbstractImporter.compute_row_delta_in_all_samples_frames"),
   ("order check before the Structure is built", "SamplePath.build_structure"),
   ("sorter derivation", "JsonImporter.build_sorter, SampleImporter.build_sorter")])
p("C04", "A sample path is never built from an importer without processed data",
  "Creating a sample path from an importer whose variable table or processed samples are missing (None) or empty, as a table or as an array, raises RuntimeError; with both present and non-empty it succeeds.",
  ["inputs", "histories"], "all importer states: before import, after import, after its buffers were cleared",
  NOTEST + "all tests of this constructor fail at set-up here.",
  ["structure_graph/sample_path.py"], [("guards in the constructor", "SamplePath.__init__")])
p("C05", "One import reads every section from the one selected data set",
  "Importing data set i of a JSON file takes trajectories, structure, variables and (when requested) intensity matrices all from element i of the file, each from the section whose key was configured for it, and reports i as the data-set id. A file holding a single object behaves like a one-element list.",
  ["inputs"], "all indexes i and all files with one or more data sets", NOTEST + "tests only import index 0.",
  ["utility/json_importer.py"], [("index stored once and used for all sections", "JsonImporter.import_data"),
   ("section lookups", "JsonImporter.import_trajectories / import_structure / import_variables")])
# ------------------------------------------------------------------ statistics
p("C06", "Residence times are the exact time per state and parent configuration",
  "For every variable and every set of parents, the residence time computed for state x under parent configuration u equals the sum of the time deltas of exactly those processed rows whose current states are x for the variable and u for the parents, also when variables have different numbers of states. Configurations or states that never occur get zero.",
  ["inputs"], "all trajectories, variables, parent sets and cardinalities",
  NOTEST + "no running test calls the estimation; the missing data sets have equal cardinalities only.",
  ["estimators/parameters_estimator.py", "structure_graph/network_graph.py", "structure_graph/trajectory.py"],
  [("mixed-radix index and weighted bincount", "ParametersEstimator.compute_state_res_time_for_node"),
   ("strides and column filter", "NetworkGraph.build_time_scalar_indexing_structure_for_a_node, build_time_columns_filtering_for_a_node")],
  ["SetOfCims.actual_cims[].state_residence_times"])
p("C07", "Transition counts are exact; the diagonal is the row total",
  "For every variable and every set of parents, the count for x to x' (x different from x') under parent configuration u equals the number of processed rows in which the variable goes from x to x' while the parents are currently in u, also when variables have different numbers of states; rows whose successor state is the negative end-of-trajectory marker are not counted. The diagonal entry of x is the sum of the counts from x to every other state.",
  ["inputs"], "all trajectories, variables, parent sets and cardinalities",
  NOTEST + "no running test calls the estimation.",
  ["estimators/parameters_estimator.py", "structure_graph/network_graph.py"],
  [("mixed-radix index and bincount, diagonal overwritten", "ParametersEstimator.compute_state_transitions_for_a_node"),
   ("strides and column filter", "NetworkGraph.build_transition_scalar_indexing_structure_for_a_node, build_transition_filtering_for_a_node")],
  ["SetOfCims.actual_cims[].state_transition_matrix"])
p("C08", "Parent-configuration table enumerates exactly the layout of the statistics",
  "For every list of parent cardinalities, the table of parent configurations lists every combination exactly once, column k taking values 0..card_k-1, and its r-th row is the configuration to which the r-th intensity matrix of the variable belongs (first parent varying fastest). With no parents it has a single empty configuration.",
  ["inputs"], "all numbers of parents and all, also unequal, cardinalities",
  "Running tests only use equal cardinalities, for which wrong enumerations coincide with right ones.",
  ["structure_graph/network_graph.py", "structure_graph/set_of_cims.py"],
  [("grid enumeration", "NetworkGraph.build_p_comb_structure_for_a_node"),
   ("one CIM per row of the statistics", "SetOfCims.build_cims")], ["SetOfCims.p_combs"])
p("C09", "Intensities are (M+1)/(T+1) and computing them keeps the counts intact",
  "Every estimated intensity is (M[x,x']+1)/(T[x]+1) for x' different from x and (1-M[x,x])/(T[x]+1) on the diagonal, with M and T the variable's own counts and residence times. Computing intensities does not change the counts and residence times, which stay readable afterwards.",
  ["inputs", "histories"], "all count matrices and residence-time vectors, also when the arrays are shared views",
  "The unit test compares with a relative tolerance of 10, on one random 3x3 matrix, and never looks at the counts afterwards.",
  ["structure_graph/conditional_intensity_matrix.py", "structure_graph/set_of_cims.py"],
  [("copying cast, then in-place sign flip", "ConditionalIntensityMatrix.__init__, compute_cim_coefficients"),
   ("per-configuration construction", "SetOfCims.build_cims")])
p("C10", "Selecting matrices by parent values returns exactly the agreeing ones",
  "Selecting a variable's intensity matrices by the values of some of its parents returns, in table order, all and only the matrices whose configuration has those values at those parents; when the variable has at most one parent the full set is returned.",
  ["inputs"], "all parent sets, masks and value combinations",
  "Tests use two parents, one-element combinations and equal expectations computed by the same expression.",
  ["structure_graph/set_of_cims.py"], [("row-wise comparison on the masked columns", "SetOfCims.filter_cims_with_mask")])
# ------------------------------------------------------------------ score
p("C11", "The family score is the Bayesian-Dirichlet marginal likelihood",
  "For all counts M, residence times T and hyper-parameters, the family score of a variable is the sum over all its parent configurations u and states x of lgamma(a+M[x|u]+1) + (a+1) log(tau) - lgamma(a+1) - (a+M[x|u]+1) log(tau+T[x|u]), plus lgamma(a) - lgamma(a+M[x|u]), plus the sum over x' different from x of lgamma(a'+M[x,x'|u]) - lgamma(a'), where a' = a/(number of states - 1).",
  ["inputs"], "all sufficient statistics, cardinalities and hyper-parameters", NOTEST + "no running test computes a score.",
  ["estimators/fam_score_calculator.py"],
  [("q part", "FamScoreCalculator.marginal_likelihood_q and helpers"), ("theta part", "FamScoreCalculator.marginal_likelihood_theta and helpers"),
   ("total", "FamScoreCalculator.get_fam_score")])
p("C12", "A graph is scored on its own parents, the data and the user's parameters",
  "The score of a variable in a candidate graph is computed from the statistics of that variable under exactly the parents it has in that graph, over the estimator's whole data set, with the estimator's own tau and alpha. Scoring does not change the candidate graph's edges.",
  ["inputs", "histories"], "all candidate graphs, variables and hyper-parameters",
  NOTEST + "score-based estimation never runs.",
  ["estimators/structure_score_based_estimator.py", "structure_graph/network_graph.py"],
  [("graph initialised for the node, parameters estimated, scored", "StructureScoreBasedEstimator.get_score_from_graph")])
# ------------------------------------------------------------------ searches
p("C13", "A score-based search keeps a move only if the score strictly improves",
  "In hill climbing and in tabu search, a proposed change of the parent set is kept exactly when its score is strictly greater than the best score so far, which then becomes the new best; otherwise the parent set is restored exactly to what it was before the proposal, including any parent evicted to make room. The returned edges are therefore always the best-scoring parent set visited.",
  ["inputs", "histories"], "all score functions, all random proposal sequences, all limits",
  NOTEST + "the searches never run, and end-result tests would not notice a wrong undo.",
  ["optimizers/hill_climbing_search.py", "optimizers/tabu_search.py"],
  [("accept/undo branches", "HillClimbing.optimize_structure, TabuSearch.optimize_structure")])
p("C14", "Edges declared as known are always in the estimated structure",
  "Whatever the data and the random choices, the structure returned by constraint-based estimation, hill climbing and tabu search contains every edge the user declared as known. No step of a search ever removes a known edge, not even to satisfy the limit on the number of parents.",
  ["inputs", "histories"], "all data, known-edge lists, limits and random choices",
  NOTEST + "the only test passing known edges cannot run and does not check them.",
  ["estimators/structure_estimator.py", "optimizers/hill_climbing_search.py", "optimizers/tabu_search.py", "optimizers/constraint_based_optimizer.py"],
  [("matrix of removable edges", "StructureEstimator.build_removable_edges_matrix"),
   ("known parents inserted and excluded from proposals", "HillClimbing/TabuSearch.optimize_structure"),
   ("known edges never tested", "ConstraintBasedOptimizer.optimize_structure")])
p("C15", "The limit on the number of parents is never exceeded by a search step",
  "When a maximum number of parents is given, no step of hill climbing or tabu search leaves a variable with more parents than the larger of that maximum and its number of known parents: a parent is added at the limit only after another one has been removed. Without a maximum no parent is ever evicted.",
  ["inputs", "histories"], "all maxima and random choices", NOTEST + "no test checks the number of parents.",
  ["optimizers/hill_climbing_search.py", "optimizers/tabu_search.py"], [("max_parents branch", "HillClimbing/TabuSearch.optimize_structure")])
p("C16", "Each per-variable search changes only edges into that variable",
  "The search for a variable returns only edges that point into that variable, come from another variable of the network, and never form a self loop; every other variable of the network that is not already a known parent is a possible proposal.",
  ["inputs", "histories"], "all networks and random choices", NOTEST + "no test inspects the per-variable result.",
  ["optimizers/hill_climbing_search.py", "optimizers/tabu_search.py", "optimizers/constraint_based_optimizer.py"],
  [("candidate list and edge construction", "optimize_structure of the three optimizers")])
p("C17", "Score searches always finish within their iteration and patience limits",
  "Hill climbing and tabu search evaluate at most the configured number of proposals, stop once more than `patience` consecutive proposals brought no improvement (if set), and never block or fail for any network, limit or known-edge set, including when there is no candidate parent at all. The patience count restarts at every improvement.",
  ["inputs", "histories"], "all networks, limits, tabu lengths and durations (also zero candidates)",
  NOTEST + "tests use networks where candidates always exist.",
  ["optimizers/hill_climbing_search.py", "optimizers/tabu_search.py"],
  [("bounded loop, patience counter, queue operations", "HillClimbing/TabuSearch.optimize_structure")])
p("C18", "Tabu search never re-proposes a tabu variable while others are free",
  "A variable proposed in a tabu search is marked tabu afterwards and is not proposed again while it is marked and some unmarked candidate exists; only when all candidates are marked is the one marked longest ago proposed. At most `tabu_length` variables are marked at the end of an iteration, the longest-marked one is released when that bound or the rule duration is reached, and both default to the number of candidates.",
  ["inputs", "histories"], "all proposal sequences, tabu lengths and durations", NOTEST + "no test observes the tabu list.",
  ["optimizers/tabu_search.py"], [("tabu set and queue updated together", "TabuSearch.optimize_structure")])
p("C19", "CTPC removes an edge exactly when some separating set is accepted",
  "For each variable the constraint-based search starts from all other variables as parents and, for growing separating-set size b = 0, 1, 2, ... while b is smaller than the number of remaining parents, tests every remaining removable parent against every size-b subset of the other remaining parents. A parent is removed exactly when one of its tests reports independence, and the search returns the parents that remain.",
  ["inputs", "histories"], "all test outcomes, networks and known edges", NOTEST + "constraint-based estimation never runs.",
  ["optimizers/constraint_based_optimizer.py", "estimators/structure_estimator.py"],
  [("nested loops", "ConstraintBasedOptimizer.optimize_structure"), ("subset generation", "StructureEstimator.generate_possible_sub_sets_of_size")])
p("C20", "Independence is declared only if no F or chi-square test rejects",
  "Two intensity matrices are judged independent exactly if, for every state x, the ratio of the second to the first diagonal intensity lies within the two-sided F interval at the exponential significance for (M1[x,x], M2[x,x]), and sum over x'!=x of (K M2[x,x'] - L M1[x,x'])^2/(M1[x,x']+M2[x,x']) with K = sqrt(M1[x,x]/M2[x,x]) and L = 1/K does not exceed the chi-square quantile at 1 - chi significance with (states-1) degrees of freedom. For variables with more than two states, too few observed transitions (total transitions of the first matrix divided by the thumb value below the threshold) also mean 'not independent'.",
  ["inputs"], "all pairs of matrices, cardinalities and significance levels", NOTEST + "the tests of the estimator never run.",
  ["estimators/structure_constraint_based_estimator.py"],
  [("statistics and thresholds", "StructureConstraintBasedEstimator.independence_test, compute_thumb_value")])
p("C21", "An independence test compares matrices of matching parent states",
  "Testing parent p of child c given the set S compares, for every configuration u of S, the child's matrix given u with every one of its matrices given u and some state of p, estimated from the data for the parent sets S and S+p respectively; the pair is declared independent only if all these comparisons are.",
  ["inputs", "histories"], "all p, c, S, label orders and cardinalities, with empty or filled cache", NOTEST + "constraint-based estimation never runs.",
  ["estimators/structure_constraint_based_estimator.py"], [("graph construction, mask and pairing", "StructureConstraintBasedEstimator.complete_test")])
p("C22", "Cached statistics are only reused for the same child and parent set",
  "A lookup in the estimation cache returns a stored value exactly if one was stored for an equal parent set since the last clear, and then the value stored first for it. Estimation never uses cached statistics of another child: the cache is empty when the search for a variable ends, on every path, and every stored entry belongs to the parent set it is stored under.",
  ["histories"], "all sequences of put, find, clear and all orders of per-variable searches",
  "The cache tests cover two entries; no running test reaches the estimator that owns the cache.",
  ["utility/cache.py", "estimators/structure_constraint_based_estimator.py", "optimizers/constraint_based_optimizer.py"],
  [("parallel lists", "Cache.put/find/clear"), ("clear at the end of the per-variable search", "ConstraintBasedOptimizer.optimize_structure")])
# ------------------------------------------------------------------ estimation as a whole
p("C23", "Parallel and serial estimation do the same work",
  "With multiprocessing enabled or disabled, estimation runs the same per-variable search once for every variable with the same settings, and combines the results of all of them. The number of worker processes is at most the number requested and the number of processors.",
  ["configurations", "schedules"], "all settings of disable_multiprocessing and processes_number", NOTEST + "no running test estimates a structure.",
  ["estimators/structure_constraint_based_estimator.py", "estimators/structure_score_based_estimator.py"],
  [("two branches calling the same function", "ctpc_algorithm, StructureScoreBasedEstimator.estimate_structure")])
p("C24", "The reference network never influences the estimated structure",
  "Structure estimation gives the same result whatever reference structure came with the data: the reference edges are removed from the working structure before the first per-variable search starts, on every path, and are used only for reporting.",
  ["inputs", "configurations"], "all reference structures, both estimators, both execution modes", NOTEST + "tests always use the true structure as reference, so leaking it would improve their result.",
  ["estimators/structure_constraint_based_estimator.py", "estimators/structure_score_based_estimator.py", "structure_graph/structure.py", "structure_graph/network_graph.py"],
  [("edges cleaned first", "clean_structure_edges calls in ctpc_algorithm and estimate_structure")])
p("C25", "Returned edges, stored graph, matrix and saved file show one structure",
  "After an estimation the returned edge set is the union of the per-variable results, and the graph kept by the estimator has exactly these edges and all variables as nodes, also those without any edge. The adjacency matrix has a True at row i, column j exactly for an edge from the i-th to the j-th variable of the data, and the saved JSON holds that graph's nodes and directed edges.",
  ["inputs"], "all estimation results, also with isolated variables", NOTEST + "no running test estimates a structure.",
  ["estimators/structure_estimator.py", "estimators/structure_constraint_based_estimator.py", "estimators/structure_score_based_estimator.py"],
  [("graph rebuilt from the edge set", "ctpc_algorithm, estimate_structure"), ("adjacency_matrix, save_results", "StructureEstimator")])
p("C26", "Spurious edges are the estimated edges missing from the reference",
  "If the data came with a reference structure, the spurious edges reported after an estimation are exactly the estimated edges that the reference does not contain; without a reference the report is empty.",
  ["inputs", "histories"], "all estimates and reference structures, before and after estimation", NOTEST + "the only test asks that the report is empty.",
  ["estimators/structure_estimator.py"], [("graph difference", "StructureEstimator.spurious_edges")])
p("C27", "The requested optimizer runs with the user's settings",
  "Score-based estimation uses tabu search when 'tabu' is requested and hill climbing for 'hill', and hands the variable, the maximum number of parents, the iteration limit, the patience and (for tabu) the tabu length and rule duration to it unchanged, each as what it is, in both execution modes.",
  ["configurations"], "all option combinations", NOTEST + "no running test estimates a structure.",
  ["estimators/structure_score_based_estimator.py", "optimizers/hill_climbing_search.py", "optimizers/tabu_search.py"],
  [("dispatch and keyword arguments", "StructureScoreBasedEstimator.estimate_structure, estimate_parents"), ("fields", "optimizer constructors")])
# ------------------------------------------------------------------ graph structures
p("C28", "Removing a variable keeps labels, indexes, cardinalities, edges aligned",
  "Removing a variable from a network description removes its label, index, cardinality and all edges touching it, and nothing else; every remaining label still maps to its own data-set index and cardinality, and the total number of data-set variables stays the same. Looking up a label's index or cardinality always gives the entry at the position of that label.",
  ["inputs", "histories"], "all networks and removal sequences", "Running tests only look up nodes of hand-made structures; removal is never exercised.",
  ["structure_graph/structure.py", "structure_graph/network_graph.py"], [("positional removal", "Structure.remove_node"), ("lookups", "Structure.get_node_indx, get_states_number")])
p("C29", "Parent labels, indexes and cardinalities are reported in label order",
  "For every graph and variable, the parents are reported in the order of the variable labels, with indexes and cardinalities in that same order and belonging to the respective parent; adding or removing edges or preparing the graph for one variable never changes another variable's attributes. The order does not depend on the order in which edges were added.",
  ["inputs", "histories"], "all graphs, edge insertion orders and cardinalities", NOTEST + "the graph tests cannot run.",
  ["structure_graph/network_graph.py"], [("sorting by label position", "NetworkGraph.get_ordered_by_indx_set_of_parents"), ("node attributes", "NetworkGraph.add_nodes")])
# ------------------------------------------------------------------ generation
p("C30", "Sampled waiting times have the rate given by the variable's matrix",
  "When a variable's next transition time is drawn during trajectory sampling, it is the current time plus an exponential delay with rate equal to minus the diagonal entry, at the variable's current state, of the intensity matrix selected by the current states of its parents (so the mean delay is the inverse of that rate). Drawn times are recorded in the trajectory as real numbers in non-decreasing order.",
  ["inputs", "histories"], "all networks, matrices and sampled histories", "The exporter test samples trajectories but checks only that a file exists.",
  ["structure_graph/trajectory_generator.py"], [("draw of the transition time", "TrajectoryGenerator.CTBN_Sample")])
p("C31", "Each sampled transition changes only the earliest-firing variable",
  "Each transition of a sampled trajectory happens at the smallest pending time, and changes only the variable that owns it, to a different state drawn with probability proportional to the off-diagonal entries of its current row in the intensity matrix selected by its parents' current states. All other variables keep their state in the new row.",
  ["inputs", "histories"], "all networks, matrices and sampled histories", "No running test looks into a sampled trajectory.",
  ["structure_graph/trajectory_generator.py"], [("argmin, multinomial draw, new row", "TrajectoryGenerator.CTBN_Sample")])
p("C32", "After a transition exactly the affected pending times are redrawn",
  "After each sampled transition, the pending times of the variable that changed and of every variable that has it as a parent are discarded and redrawn, and all other pending times are kept.",
  ["inputs", "histories"], "all networks and sampled histories", "No running test looks into a sampled trajectory.",
  ["structure_graph/trajectory_generator.py"], [("reset of pending times", "TrajectoryGenerator.CTBN_Sample")])
p("C33", "Sampling stops at the requested bound and ends with the -1 row",
  "A trajectory sampled with a transition limit has exactly that many transitions after the initial all-zero row at time 0, one sampled with an end time contains no transition drawn at or after that time, and in both cases the last row has all variables set to -1 and is the only one so marked.",
  ["inputs", "histories"], "all limits and sampled histories", NOTEST + "the generator tests cannot run.",
  ["structure_graph/trajectory_generator.py"], [("stop test before a row is added", "TrajectoryGenerator.CTBN_Sample")])
p("C34", "Parallel sampling yields one independent trajectory per requested bound",
  "Sampling several trajectories at once returns exactly one trajectory for each entry of the given list of end times (or, if none is given, of transition limits), each sampled with its own bound. Every worker process uses its own random stream, so the trajectories are not copies of each other.",
  ["inputs", "schedules"], "all request lists and process schedules", NOTEST + "the multi-trajectory test cannot run and compares only lengths.",
  ["structure_graph/trajectory_generator.py"], [("one process per request", "TrajectoryGenerator.multi_trajectory, worker")])
p("C35", "Random graphs have the requested variables, density and no self loops",
  "A generated random network contains all requested variables and no self loop; with mandatory density it has exactly density*n*(n-1) distinct edges chosen among all ordered pairs, and it is refused with RuntimeError if that is not a whole number; otherwise each ordered pair of different variables is an edge independently with the given probability.",
  ["inputs"], "all label lists, cardinalities and densities", "The running test uses six labels and density 0.3 without the mandatory option.",
  ["structure_graph/network_generator.py"], [("edge lists", "NetworkGenerator.generate_graph")])
p("C36", "Random intensity matrices are valid and one per parent configuration",
  "Generated parameters give every variable one intensity matrix per configuration of its parents (one if it has none), stored with the matching configuration table and sized by the variable's own cardinality. In each matrix, up to rounding, off-diagonal entries are non-negative, each row sums to zero, and minus the diagonal lies between the given minimum and maximum.",
  ["inputs"], "all networks, cardinalities and value ranges", "Running tests use equal cardinalities and only look at signs.",
  ["structure_graph/network_generator.py"], [("matrix construction", "NetworkGenerator.__generate_cim"), ("one per configuration", "NetworkGenerator.generate_cims")])
# ------------------------------------------------------------------ export
p("C37", "Exported matrices are keyed by their own parent configuration",
  "In an exported file every variable has one entry per configuration of its parents, keyed by the comma-separated 'parent=value' pairs (the variable's own label if it has none), whose rows are exactly the rows of the matrix for that configuration. A generator built from an importer of that file assigns each matrix to the same configuration again, for any cardinality.",
  ["inputs"], "all networks, cardinalities (also above ten) and matrices", "The exporter test checks only that a file exists.",
  ["utility/json_exporter.py", "structure_graph/trajectory_generator.py"], [("key construction", "JsonExporter.cims_to_json"), ("key parsing", "TrajectoryGenerator.__init__")])
p("C38", "An exported file holds the whole network and all added trajectories",
  "The exported file is a one-element list whose element holds the structure, the variables, the matrices and the samples under the keys 'dyn.str', 'variables', 'dyn.cims' and 'samples'; the samples are all trajectories added so far, in the order they were added, each complete with its time and variable columns.",
  ["inputs", "histories"], "all networks and sequences of added trajectories", "The exporter test checks only that a file exists.",
  ["utility/json_exporter.py", "utility/abstract_exporter.py"], [("file content", "JsonExporter.out_file"), ("list of trajectories", "AbstractExporter.add_trajectory")])
p("C39", "Files are written only by the explicit save operations, where asked",
  "The library creates or overwrites a file only when the user calls one of its save operations (export, save results, save plot), and then only the file named by the caller. Importing, estimating, sampling and generating never write, delete or rename files, and input files are opened for reading only.",
  ["histories"], "all sequences of library calls", "Tests do not watch the file system.",
  ["utility/json_exporter.py", "utility/json_importer.py", "estimators/structure_estimator.py"], [("three write sinks", "JsonExporter.out_file, StructureEstimator.save_results, save_plot_estimated_structure_graph")])
p("C40", "Separate estimators, importers and generators share no mutable state",
  "Objects created independently do not influence each other: apart from the random number generators there is no module-level, class-level or default-argument object that any library call modifies, so results do not depend on which other objects were used before in the process.",
  ["histories", "schedules"], "all interleavings of uses of several library objects", "Tests use one object at a time.",
  ["__init__.py", "estimators/structure_score_based_estimator.py", "estimators/structure_constraint_based_estimator.py", "utility/cache.py"],
  [("state kept in instance fields only", "all constructors"), ("default arguments never modified", "known_edges defaults")])
# ------------------------------------------------------------------ not applicable
p("C80", "With enough data the true structure is recovered",
  "For data sampled from a network, as the data grows, the probability that constraint-based and score-based estimation return exactly the generating structure tends to one.",
  ["inputs"], "all networks and samples", "A statistical limit; tests sample a few data sets.", ["estimators/structure_constraint_based_estimator.py", "estimators/structure_score_based_estimator.py"], [("estimation algorithms", "estimate_structure")])
p("C81", "Independence tests keep their nominal error rate",
  "For independent variables the test rejects with probability at most the requested significance level.",
  ["inputs"], "all sampling distributions", "A statement about sampling distributions.", ["estimators/structure_constraint_based_estimator.py"], [("tests", "independence_test")])
p("C82", "Sampled trajectories follow the law of the CTBN",
  "The joint distribution of sampled trajectories is the one defined by the network's intensity matrices.",
  ["histories"], "all networks", "A statement about distributions; see C30-C33 for its structural clauses.", ["structure_graph/trajectory_generator.py"], [("sampler", "CTBN_Sample")])
p("C83", "Scores and statistics are numerically accurate",
  "Computed residence times, scores and test statistics differ from their exact real values by no more than a small relative error, for all magnitudes of counts and times.",
  ["inputs"], "all magnitudes", "Floating-point error bounds over unbounded inputs.", ["estimators/fam_score_calculator.py", "estimators/parameters_estimator.py"], [("floating-point sums", "marginal likelihoods")])
p("C84", "Estimation time grows polynomially when the number of parents is bounded",
  "For a bounded number of parents the running time of an estimation is polynomial in the number of variables and rows.",
  ["inputs"], "all data sets", "A timing property.", ["estimators/structure_constraint_based_estimator.py"], [("search loops", "optimizers")])
p("C85", "The plotted picture shows the estimated graph",
  "The image written by the plot operation shows every node and every directed edge of the estimated structure.",
  ["inputs"], "all estimated structures", "Pixels are decided inside matplotlib.", ["estimators/structure_estimator.py"], [("plot", "save_plot_estimated_structure_graph")])
p("C86", "Exported numbers survive a file round trip unchanged",
  "Every number written to a file and read back is equal to the one in memory, bit for bit.",
  ["inputs"], "all floating-point values", "Precision of text formatting inside pandas and json.", ["utility/json_exporter.py", "utility/json_importer.py"], [("to_json / json.load", "out_file, read_json_file")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for q in P:
            f.write(json.dumps(q, ensure_ascii=True) + "\n")
    print(len(P))
