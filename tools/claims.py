VG = 'abstract interpretation into gated value graphs, normal-form comparison with a specification'
EV = 'abstract interpretation into gated value graphs with the scoring and test functions uninterpreted, obligations on the sequence of their calls'
CLAIMS = {
 'C01': (VG, 'Processed rows are derived for one to three trajectories of any number of rows, row labels and column names, and for colliding names.'),
 'C02': (VG, 'Every store into cells reachable from the caller\'s tables is collected; the tables and a second import are compared.'),
 'C03': (VG, 'Header, arrays and network description are derived for tables of symbolic size, matching or not.'),
 'C04': (VG, 'The refusal condition of the constructor is derived for absent, empty and filled tables, lists and arrays of symbolic shape.'),
 'C05': (EV, 'Sections of files of one to three objects with decoy keys, standard and permuted key names, repeated imports.'),
 'C13': (EV, 'For networks of up to four variables with symbolic data and every outcome of scores and draws, the sequence of parent sets handed to the scoring function is derived and each proposal must differ by one move from the best set so far, which must be the one returned.'),
 'C14': (EV, 'Every scored parent set and the returned set must contain the known parents, for every outcome of scores and draws.'),
 'C15': (EV, 'Every scored parent set and the returned set must respect the limit, for every outcome of scores and draws.'),
 'C16': (EV, 'All scored and returned edges must end in the variable, and every other variable must be reachable as a proposal.'),
 'C17': (EV, 'No path may fail, score more often than allowed, go on after the patience is exceeded or stop before, for every outcome of scores and draws.'),
 'C18': (EV, 'The proposals of a tabu search must follow the tabu rule, and every proposal the rule allows must be reachable.'),
 'C19': (EV, 'The edges left by CTPC and the tests it makes are derived for every outcome of the tests and compared with the specification.'),
 'C20': (VG, 'The verdict of an independence test is derived for symbolic counts, times and rates of any number of states and compared with the specification.'),
 'C21': (VG, 'The pairs of matrices compared by an independence test are derived for every position of the tested variable among up to three other parents, with caches filled by the tests CTPC makes before, and compared with the specification.'),
 'C06': (VG, 'The residence-time entry is derived as a term over symbolic data, network, parents and cardinalities (any number of each) and compared with the mixed-radix specification.'),
 'C07': (VG, 'The count entry, diagonal included, is derived as a term over symbolic data, network, parents and cardinalities (any number of each) and compared with the mixed-radix specification.'),
 'C08': (VG, 'The table cell (row r, parent q) is derived for any number of parents with any cardinalities and compared with the mixed-radix digit.'),
 'C09': (VG, 'The coefficients, and the count matrix and time vector after computing them, are derived for symbolic matrices of any size.'),
 'C10': (VG, 'The selected matrices are derived for every mask of up to four parents and for a symbolic mask of any length.'),
 'C11': (VG, 'The score is derived as a term over symbolic counts, residence times, hyper-parameters, parent configurations and states and compared with the closed formula.'),
 'C12': (VG, 'The score of a variable in a graph edited between scorings is derived for symbolic data and any edges and compared with the score of the statistics under the parents of the edited graph.'),
 'C22': (VG, 'The result of a lookup after symbolic sequences of stores and clears (and any number of stores) is compared with the first-match specification.'),
 'C23': (EV, 'The searches started, their settings, the worker pools created and the combined result are derived for both modes, for any settings and any result of the searches.'),
 'C24': (EV, 'The reference edges left in the network when a search starts, and the result of whole estimations with and without reference edges, are derived for every outcome of scores, draws and tests.'),
 'C25': (EV, 'The returned edges, the adjacency matrix and the saved file are derived for any result of the searches.'),
 'C26': (EV, 'The spurious edges are derived for any result of the searches and several references.'),
 'C27': (EV, 'The class and the settings of every search started are derived for symbolic settings, in both modes.'),
 'C28': (VG, 'Every accessor after removals is derived for a network of symbolic size and compared with the specification.'),
 'C29': (VG, 'Parent labels, indexes and cardinalities are derived for a network of symbolic size and any edges.'),
 'C30': (EV, 'The sampler is run symbolically over every sequence of up to three (thorough: four) transitions for networks of up to three variables; each recorded time and state is compared, as a term over the same random draws, with a reference race of exponential clocks; matrices given directly and imported with keys in three orders.'),
 'C31': (EV, 'The clocks of one symbolic run are derived: which variable moves, which clocks are redrawn after a move and from which matrix row.'),
 'C32': (EV, 'The successor state of every symbolic transition is derived as a term over its draw: distribution, support and effect on the recorded row.'),
 'C33': (EV, 'Start, final and intermediate rows of a sampled trajectory and the end conditions (number of transitions, end time) are derived for symbolic networks and draws within the transition bound.'),
 'C34': (EV, 'The process, seed and result events of a multi-trajectory run are derived: number of workers, seeds, the target each one runs and the conversion of results.'),
 'C35': (EV, 'The condition of every edge is derived as a term over the random draws: which draw decides it, its probability for the given density, and the number of edges under a mandatory density.'),
 'C36': (EV, 'Number, size and cells of the generated matrices are derived for symbolic cardinalities, ranges and draws, for networks of up to four variables.'),
    'C37': (EV, 'Keys and matrices of the exported file are derived for concrete parent cardinalities (including more than ten states) with symbolic matrix cells, and the generator built from an importer of that file is derived from them.'),
    'C38': (EV, 'The content of the written file is derived for symbolic structures, variables, matrices and trajectories, through every order of the add operations considered.'),
    'C39': ('call graph and file-effect analysis over all functions; abstract interpretation of the three save operations for the written path', 'Every construct of the package that may change files is located, and no operation other than the save operations reaches one; the path written by each save operation is derived for any name.'),
    'C40': ('inclusion-based points-to analysis (field-sensitive, flow-sensitive locals) with a mutation-site check for objects that outlive a call', 'Every store, deletion and mutating call of every function is checked against the module-level objects, class attributes, default arguments and cached results of the package. The state of matplotlib is covered for pictures only.'),
}
NOT_APPLICABLE = {
 'C80': 'statistical consistency: quantifies over the distribution of data and the limit of infinite samples, which no static rule on the source bounds',
 'C81': 'error rate of a test: a probability over data, not a property of the shape of the code',
 'C82': 'law of a stochastic process: a statement about distributions; the structural clauses (rates, winners, redraws) are claimed as C30-C32',
 'C83': 'floating-point accuracy: quantifies over run-time magnitudes; the real-number formulas are claimed as C06, C07, C09, C11',
 'C84': 'running time growth: depends on run-time sizes and library costs that no static argument in reach bounds',
 'C85': 'content of a rendered picture: produced inside matplotlib/networkx, outside the source analysed',
 'C86': 'decimal round trip of json floats is a property of the json library, not of this source',
}
