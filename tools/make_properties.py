#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/make_properties.py)."""
import json, os

P = []


def prop(id, title, statement, over, over_text, why, files, mechanism, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": over_text},
              "why_tests_cant": why, "anchors": a})


G = "cdmir/graph/"
prop("G01", "A graph stores exactly what its edit history put in it",
     "After any sequence of node and edge additions, overwrites and removals, every query on a graph (node and edge listings and counts, neighbours, adjacency, endpoint marks, directed/undirected tests, matrix, dataframe and text export) reports exactly the nodes, in insertion order, and the at most one marked edge per node pair that the history left there. "
     "Invalid edits - an edge on a missing node, a second edge on an already joined pair without overwrite, duplicate initial nodes, an endpoint mark the graph class does not allow - are rejected and leave the graph unchanged.",
     ["histories", "inputs"], "every sequence of public edit calls over any node labels and edge marks, for each graph class",
     "The unit tests replay one fixed five-node script per method; state left behind by interleaved add/overwrite/remove calls and rejected edits is never explored.",
     [G + "graph.py", G + "edge.py", G + "mark.py", G + "digraph.py", G + "pdag.py"],
     [("adjacency dictionary kept symmetric by add/remove", G + "graph.py:Graph.add_edge"), ("mark whitelist per class", G + "digraph.py:DiGraph.add_edge")],
     ["Graph.edges", "Graph.to_numpy", "Graph.get_edge", "str(Graph)"])
prop("G02", "d-separation answers match the definition on every directed acyclic graph",
     "For every DAG, every pair of distinct nodes and every conditioning set not containing them (given as any iterable, or omitted), the d-separation query answers true exactly when every path between the two nodes is blocked by the set, and the reachable-node query lists exactly the nodes not d-separated from the source. "
     "The answer is symmetric in the two nodes and does not depend on node labels, on the order in which nodes or edges were added, or on the order or repetition of the conditioning nodes.",
     ["inputs", "configurations"], "every DAG, node pair, conditioning set and construction order",
     "Two textbook graphs and a handful of queries are tested; the answer must be right for the exponentially many (graph, pair, set) triples.",
     [G + "digraph.py"], [("Koller-Friedman reachability", G + "digraph.py:DiGraph.get_reachable_nodes"), ("query", G + "digraph.py:DiGraph.is_d_separate")],
     ["DiGraph.is_d_separate", "DiGraph.get_reachable_nodes"])
prop("G03", "Degrees, relatives, topological order and acyclicity agree with the edges",
     "On every directed graph, parents, children and in/out-degrees are exactly those given by the edges. The topological order lists each node at most once with every node after all of its parents, it contains exactly the nodes that have no directed cycle among themselves or their ancestors, and the graph is reported acyclic exactly when it contains no directed cycle.",
     ["inputs", "histories"], "every directed graph, cyclic or not, built by any history of edge additions and removals",
     "Tests check one DAG and one cyclic graph.",
     [G + "digraph.py"], [("Kahn's algorithm", G + "digraph.py:DiGraph.topo_sort"), ("acyclicity", G + "digraph.py:DiGraph.is_acyclic")],
     ["DiGraph.topo_sort", "DiGraph.is_acyclic", "DiGraph.in_degree"])
prop("G04", "A DAG converts to exactly the CPDAG of its Markov equivalence class",
     "For every DAG, the derived partially directed graph has the same nodes and adjacencies, an edge is directed in it exactly when all DAGs with the same adjacencies and the same unshielded colliders agree on its direction, and all other edges are undirected. Two DAGs therefore give the same result exactly when they are Markov equivalent, and the input graph is not modified.",
     ["inputs"], "every DAG over any labels and insertion order",
     "Tests convert a few fixed five-node DAGs; the rule applies to every DAG, and the orientation rules that matter only fire on rare shapes.",
     [G + "dag2cpdag.py", G + "pdag.py", G + "digraph.py"], [("separating-set search, collider rule, Meek rules", G + "dag2cpdag.py:dag2cpdag")],
     ["dag2cpdag return value"])
prop("G05", "A PDAG converts to a consistent DAG extension whenever one exists",
     "For every partially directed acyclic graph that has a consistent extension, the converted graph is acyclic, has the same nodes, adjacencies and unshielded colliders, and keeps every directed edge; for a graph without any consistent extension the conversion terminates with an error instead of looping or returning a wrong graph. Converting a DAG to its CPDAG, back to a DAG and again to a CPDAG reproduces the CPDAG, and the input graph is never modified.",
     ["inputs"], "every PDAG, extendable or not",
     "Tests convert a few CPDAGs that came from DAGs; partially oriented inputs, non-extendable inputs and all tie-breaking orders are unexplored.",
     [G + "pdag2dag.py", G + "dag2cpdag.py"], [("Dor-Tarsi sink elimination", G + "pdag2dag.py:pdag2dag")], ["pdag2dag return value"])
prop("G06", "Orientation rules orient exactly the edges that are implied",
     "Given any extendable PDAG whose orientations include its unshielded colliders' arrows, applying the Meek rules to a fixpoint yields exactly the orientations shared by every consistent DAG extension: no arrow that some extension contradicts, and no implied arrow left undirected. The collider rule directs precisely the two edges of each unshielded triple whose middle node is absent from the recorded separating set of its ends, never changes adjacencies, and applying the rules again changes nothing.",
     ["inputs", "configurations"], "every extendable PDAG (including background-knowledge orientations) and every recorded separating-set table of a DAG",
     "Tests reach the rules only through DAG-derived CPDAGs in which the rarer rules never get to fire wrongly.",
     [G + "pdag.py"], [("rules 0-4", G + "pdag.py:PDAG.rule1..rule4"), ("fixpoint loop", G + "pdag.py:PDAG.orient_by_meek_rules")], ["PDAG.orient_by_meek_rules"])

C = "cdmir/discovery/constraint/"
prop("C01", "PC with a perfect independence oracle recovers the true CPDAG",
     "For every DAG, running the PC algorithm with the d-separation oracle of that DAG returns exactly the CPDAG of the DAG's Markov equivalence class and its skeleton, for both adjacency-search strategies, array or dataframe input, any variable names and any column order. Every removed pair carries a separating set that does separate the two variables in the true DAG.",
     ["inputs", "configurations"], "every DAG, every variable order and naming, both search strategies",
     "One random loop over ten-node graphs with the default strategy and integer names is tested.",
     [C + "pc.py", C + "adjacency_search.py", "cdmir/utils/independence/dsep.py"], [("PC.fit", C + "pc.py:PC.fit"), ("adjacency searches", C + "adjacency_search.py")],
     ["PC.causal_graph", "PC.skeleton", "PC.sep_set"])
prop("C02", "PC's skeleton is justified by its test results, whatever those are",
     "For an arbitrary conditional-independence test and level, the default adjacency search keeps an edge exactly when no conditioning set drawn from the current neighbours of either end at any level gives a p-value at or above the level, with adjacencies frozen within a level, so the skeleton does not depend on variable order. The set recorded for a removed pair is the union of the accepted sets of the level that removed it, it is the same for both orders of the pair, pairs still adjacent record nothing, and orienting edges never changes the adjacencies. The fast search likewise removes a pair only with an accepted set on record and keeps it only if no set of its ends' remaining neighbours is accepted.",
     ["inputs", "configurations"], "every table of p-values (consistent with no distribution at all), level, and variable order",
     "Tests use perfect oracles or one dataset; contradictory test results, where order dependence appears, are never generated.",
     [C + "adjacency_search.py", C + "pc.py"], [("level-wise removal", C + "adjacency_search.py:adjacency_search")], ["adjacency_search return value", "PC.skeleton"])
prop("C03", "PC on data is unaffected by representation changes of the data",
     "Running PC with the Fisher-Z test on a numeric table gives the same graph (up to renaming) when rows are permuted, columns are shifted or rescaled by non-zero factors, the table is passed as an array or a dataframe, with or without explicit names; permuting the columns permutes the skeleton accordingly. The input table is not modified and refitting the same object gives the same result as a fresh one.",
     ["inputs", "configurations", "histories"], "every full-rank numeric table and every such transformation",
     "Two fixed simulated datasets are tested, without any transformation.",
     [C + "pc.py", "cdmir/utils/adapters.py", "cdmir/utils/independence/fisherz.py"], [("data adapter", "cdmir/utils/adapters.py"), ("correlation-based test", "cdmir/utils/independence/fisherz.py")], ["PC.causal_graph"])

I = "cdmir/utils/independence/"
prop("I01", "Fisher-Z p-values equal the partial-correlation test",
     "For every numeric table with non-singular correlations, the Fisher-Z test of two variables given any set returns the partial correlation of the two given the set and the two-sided normal p-value of its z-transform scaled by sqrt(n - |set| - 3). The three entry points (from columns, from a correlation matrix, as a test object addressed by name or by index) agree, and the result is symmetric in the two variables and independent of the order of the conditioning set.",
     ["inputs"], "every table, pair and conditioning set, as list, tuple or other iterable",
     "One dataset with coarse p-value thresholds is tested.",
     [I + "functional/fisherz.py", I + "fisherz.py", I + "basic_independence.py"], [("formula", I + "functional/fisherz.py:fisherz_from_corr")], ["FisherZ.test", "fisherz"])
prop("I02", "Cached independence tests answer as if freshly computed, over any query history",
     "Over any sequence of queries, by name or index, with any pair order, conditioning order and conditioning container (including one-shot iterators), a conditional-independence test object returns for each query exactly what a fresh object would return for that query. Distinct queries never share a cached answer, and equivalent ones (same pair and same set) agree.",
     ["histories", "inputs"], "every query sequence on one test object",
     "No test issues more than one query shape per object; cache-key collisions need particular pairs of queries.",
     [I + "basic_independence.py", I + "_base.py"], [("cache key", I + "basic_independence.py:ConditionalIndependentTest.itest"), ("cache", I + "_base.py:BaseConditionalIndependenceTest._compute_p_value")],
     ["ConditionalIndependentTest.test", "BaseConditionalIndependenceTest call"])
prop("I03", "Kernel independence tests compute the published statistic and are invariant",
     "For every numeric table of non-constant columns, the unconditional kernel test and the conditional kernel test with an explicit conditioning kernel return the statistic and gamma-approximation p-value of the published KCI formulas on standardised data, with p in [0, 1] and the array and dataframe, name and index forms agreeing; in spectral mode the p-value is that of the weighted chi-square null up to sampling error. The statistics are unchanged by permuting rows and by shifting or rescaling columns, and the unconditional test is symmetric in its two arguments. The functional kernel test and HSIC equal their formulas too, and no test modifies its data.",
     ["inputs"], "every numeric table, variable choice and kernel",
     "One dataset with coarse thresholds is tested.",
     [I + "kernel_based.py", I + "functional/kci.py", I + "functional/HSIC.py", I + "_base.py"], [("KCI", I + "kernel_based.py:KCI")], ["KCI call"])

K = "cdmir/utils/kernel/"
prop("K01", "Kernel objects return their formula's matrix, whatever was called before",
     "For any sequence of calls on one Gaussian, linear or polynomial kernel object, with any data sizes and any changes of its public parameters in between, each call returns the matrix of the kernel formula for exactly the data and parameters in force, including the data-driven width rules. Earlier calls, similar-looking data, or in-place edits of previously returned matrices never change a result.",
     ["histories", "inputs"], "every sequence of calls and parameter changes, including arrays too large to print in full and arrays differing in late digits",
     "Tests call each kernel once on tiny arrays, mostly without asserting the values.",
     [K + "_base.py", K + "gaussian.py", K + "linear.py", K + "polynomial.py"], [("result cache", K + "_base.py:BaseKernel.__kernel")], ["kernel __call__"])
prop("K02", "Kernel centring equals its matrix definition",
     "For every symmetric kernel matrix, centring returns HKH with H = I - 11'/n (zero row and column sums, idempotent), and regression centring returns the pair (RKR, R) with R = eps (Kz + eps I)^-1. Inputs are not modified.",
     ["inputs"], "every symmetric matrix, conditioning kernel matrix and positive epsilon", "Never tested directly.",
     [K + "_base.py"], [("centring", K + "_base.py:BaseKernel.center_kernel_matrix")], ["return values"])

S = "cdmir/utils/local_score/"
prop("S01", "The BIC local score equals the Gaussian BIC and is score equivalent",
     "For every non-degenerate numeric table, variable and parent set, the BIC local score equals -(n log(residual variance of the standardised variable regressed on its parents) + lambda |parents| log n), whatever the order or container of the parents, and for arrays and dataframes alike. The sum of local scores over a DAG is identical for all DAGs of one Markov equivalence class.",
     ["inputs"], "every table, variable, parent set, penalty weight and pair of equivalent DAGs", "The only test asserts that the result is a float.",
     [S + "bic_score.py", S + "_base.py"], [("formula", S + "bic_score.py:BICScore")], ["BICScore call"])
prop("S02", "The BDeu local score equals its closed form and is score equivalent",
     "For every table of discrete values, variable and (possibly empty) parent set, the BDeu local score equals the closed-form Dirichlet marginal likelihood with the given equivalent sample size plus the structure prior, whatever the category codes, row order, parent order or container. Summed over a DAG it is identical for all DAGs of one Markov equivalence class.",
     ["inputs"], "every discrete table, priors, variable and parent set", "The only test asserts that the result is a float.",
     [S + "bdeu_score.py"], [("formula", S + "bdeu_score.py:BDeuScore")], ["BDeuScore call"])
prop("S03", "Cross-validated kernel scores equal the held-out likelihood formula",
     "For every numeric table, variable and parent set (empty or not), the general and the multi-dimensional cross-validated scores equal the negated mean over folds of the published held-out kernel-regression likelihood with the object's fold count and regularisation. They are independent of parent order and unaffected by shifting columns or rescaling whole variables.",
     ["inputs", "configurations"], "every table, parent set, number of folds and regularisation", "Tests only check that a float comes back.",
     [S + "cross_validated_base.py", S + "score_utils.py"], [("score", S + "cross_validated_base.py")], ["GeneralCVScore call", "MultiCVScore call"])
prop("S04", "Marginal kernel scores equal the Gaussian-process log marginal likelihood",
     "For every numeric table with continuous columns, variable and parent set (empty or not), the general and the multi-dimensional marginal scores equal the log marginal likelihood of a Gaussian-process regression of the variable's leading kernel features on its parents, with unit signal variance, one data-driven length scale per parent and the noise chosen to maximise it. "
     "The score does not depend on the order or container of the parents or the order of the rows, nor on shifting or rescaling whole variables, and asking does not change the data. The routines behind it equal their definitions: squared distances, Gaussian kernels, sorted eigenvectors, inverses and solutions for positive definite matrices, covariance functions and their noise derivatives, the negative log marginal likelihood with its noise derivative; the minimiser changes only the noise, never ends above its start and ends at a stationary point.",
     ["inputs"], "every table of continuous columns, grouping, variable and parent set; every matrix and hyperparameter for the routines", "The tests only check that a float comes back (and raise on current NumPy).",
     [S + "marginal_base.py", S + "score_utils.py"], [("marginal score", S + "marginal_base.py"), ("likelihood and minimiser", S + "score_utils.py:gpr_multi_new")], ["GeneralMarginalScore call", "MultiMarginalScore call"])
prop("S05", "Local scores are a pure function of the query over any history",
     "Over any sequence of queries on one score object, in any order and with parents in any container or one-shot iterator, each answer equals what a fresh object on the same data gives; asking never changes the data. The total graph score equals the sum of the local scores of each node given its parents, for graphs with any node names.",
     ["histories", "inputs"], "every query sequence, score class and DAG with arbitrary node names in data-column order", "Tests query each object once, and score only graphs without edges.",
     [S + "_base.py", "cdmir/discovery/score_based/greedy_equivalence_search.py"], [("score cache", S + "_base.py:BaseLocalScoreFunction._score"), ("total score", "cdmir/discovery/score_based/greedy_equivalence_search.py:Score_G")],
     ["score __call__", "Score_G"])
E = "cdmir/discovery/score_based/"
prop("E01", "Greedy equivalence search returns a CPDAG at a local optimum with the true score",
     "For any data and score-equivalent local score, the search takes, from the empty graph, the best-scoring single-edge addition over all DAGs of the current Markov equivalence class as long as it improves the score (only into variables with at most the parent limit of compelled parents, by default half the number of variables), then the best single-edge deletions likewise, and returns the CPDAG reached. "
     "The reported score is the sum of local scores of any of its member DAGs, no single-edge deletion in any member improves it, and with a score that ranks conditional independences perfectly and no effective limit the result is the CPDAG of the generating DAG, for any column order. For any other local score the result is still a valid CPDAG; fitting again gives the same result.",
     ["inputs", "configurations"], "every table, score class, parent limit and column order",
     "Tests fit one four-variable dataset and do not look at the result.",
     [E + "greedy_equivalence_search.py"], [("insert/delete operators", E + "greedy_equivalence_search.py:GES")], ["GES.get_causal_graph", "GES.get_score"])

prop("M01", "Structure metrics equal their definitions for every pair of graphs",
     "For every two graphs of the same class over the same two or more ordered nodes, skeleton, arrowhead and directed-edge precision, recall and F1 equal the ratios computed from the two edge sets (zero when undefined), the structural Hamming distance equals the number of node pairs whose edges differ and is a metric, and graph equality holds exactly when all pairs agree. Comparing graphs of different classes or node lists is rejected.",
     ["inputs"], "every pair of graphs, including empty ones", "Three small pairs are tested.",
     ["cdmir/utils/metrics/graph_evaluation.py"], [("metrics", "cdmir/utils/metrics/graph_evaluation.py")], ["return values"])
prop("M02", "Weighted-matrix performance equals its definition and leaves its inputs alone",
     "For every weighted estimate, binary ground truth and threshold, the reported precision, recall and F1 are those of the entries whose absolute value exceeds the threshold, with the diagonal ignored exactly when asked; a directed graph object stands for its cause-to-effect 0/1 matrix. The inputs are not modified.",
     ["inputs", "configurations"], "every estimate, truth, threshold and diagonal option", "Not tested on its own.",
     ["cdmir/utils/metrics/graph_evaluation.py"], [("get_performance", "cdmir/utils/metrics/graph_evaluation.py:get_performance")], ["returned table"])

D = "cdmir/datasets/"
prop("D01", "Linear simulation generates data from exactly the given weighted DAG",
     "For every weighted DAG, noise type, noise scale (scalar or per variable) and seed, each simulated column minus the weighted sum of its parents' columns is that column's own noise: with the requested distribution family, location and scale, independent of the weights, and independent across columns. Cyclic inputs, unknown noise types and wrong-length scales are rejected, the population mode returns a matrix whose second moment is the implied covariance, inputs are untouched and equal seeds give equal data.",
     ["inputs", "configurations"], "every DAG, weights, noise type and scale, sample size and seed", "Tests only check output types and shapes.",
     [D + "simlulators.py", D + "utils.py"], [("linear simulator", D + "simlulators.py:IIDSimulator.simulate_linear_anm")], ["simulated array"])
prop("D02", "Nonlinear and post-nonlinear simulation respects the graph",
     "For every DAG and every accepted choice of functions, noise, scale and seed, each simulated column is a per-sample function of its own parents and its own noise (in post-nonlinear models one independent noise term per inner output): roots carry exactly the requested noise, children vary from sample to sample with their parents, the requested function family is the one used, and non-ancestors have no influence. Outputs are finite with the requested shape, equal seeds give equal data, and invalid requests are rejected.",
     ["inputs", "configurations"], "every DAG, function family or sequence, noise, scale, hidden size and seed", "Tests only check output types and shapes.",
     [D + "simlulators.py"], [("simulators", D + "simlulators.py:IIDSimulator.simulate_nonlinear_anm, simulate_pnl")], ["simulated array"])
prop("D03", "Time-lag simulation follows exactly the given lagged mechanism",
     "For every stack of lag matrices, the linear simulator's every step minus the lag-weighted past is fresh noise of the requested family and scale, with lag matrices ordered from the oldest to the newest step; the nonlinear and post-nonlinear simulators let each variable depend only on its lagged parents and its noise. The series has max-lag plus requested length rows, a default length when none is given, equal seeds give equal series, mismatched lag counts are rejected and inputs are untouched.",
     ["inputs", "configurations"], "every lag stack, noise type, scale, function choice, length and seed", "Tests only check output types and shapes.",
     [D + "simlulators.py"], [("time-lag simulators", D + "simlulators.py:TimeLagSimulator")], ["simulated series"])
prop("D04", "Event simulation returns a consistent table, structure and parameters",
     "For every configuration, the simulated causal structure is acyclic with the requested number of edges, influence strengths lie in the requested range on its edges and are zero elsewhere, and base rates lie in their range. The event table holds exactly the returned per-sequence event times, sorted within each type, with the requested number of sequences and events, rounded down to the time grid when one is given; the events follow the returned base rates and cause-to-effect influences. The integer model's table holds exactly its causes and thinned-plus-spontaneous effects per time step, and equal seeds give equal output.",
     ["inputs", "configurations"], "every size, ranges, density, sequence count, decay, time grid and seed", "Tests check only shapes for one configuration.",
     [D + "simlulators.py"], [("Hawkes simulator", D + "simlulators.py:HawkesSimulator.get_artificial_data"), ("integer model", D + "simlulators.py:HawkesSimulator.INSEM_data")], ["returned tuple"])
prop("D05", "Random graph generators return what they promise for every size and seed",
     "For every node count, edge count, weight range and seed, the random DAG generator returns an acyclic matrix whose non-zero entries are ones, or have magnitude inside the given range, with the requested expected edge count up to a factor (n-1)/n; the lag-transition generator returns the requested number of invertible matrices with unit-norm columns. Equal seeds give equal results, and non-positive sizes are rejected.",
     ["inputs", "configurations"], "every size, density, range and seed", "A few sizes are sampled.",
     [D + "utils.py"], [("erdos_renyi", D + "utils.py:erdos_renyi"), ("generate_lag_transitions", D + "utils.py:generate_lag_transitions")], ["return values"])

L = "cdmir/discovery/funtional_based/"
prop("L01", "ICA-LiNGAM is correct for every variable order, not just the causal one",
     "For data from a linear acyclic model with strongly non-Gaussian noise and enough samples, the fitted coefficient matrix matches the true one (entry for entry within tolerance, same support after pruning) whatever the column order, and permuting the columns permutes the result accordingly. The returned matrix is always acyclic, its rows are the least-squares coefficients on the retained parents, the pruning level given by the user governs pruning so a stricter level never adds edges and level one prunes nothing, and the data are not modified.",
     ["inputs", "configurations"], "every weighted DAG, column order, non-Gaussian noise, and pruning level", "One dataset whose columns are already in causal order is tested.",
     [L + "lingam_based/ica_lingam.py"], [("permutation search and pruning", L + "lingam_based/ica_lingam.py:ICA_LINGAM")], ["ICA_LINGAM result"])
prop("A01", "The additive-noise scores measure dependence of each direction's own residual",
     "For every pair of samples, the additive-noise method's two scores are the normalised kernel dependence between one variable and the residual of regressing the other on it, one sample per residual; swapping the two inputs swaps the two scores and affine changes of either input leave them unchanged. The dependence measure itself equals its definition, is symmetric, non-negative and invariant to reordering samples jointly.",
     ["inputs"], "every pair of real samples", "One dataset is run without asserting the scores.",
     [L + "anm/ANM.py"], [("ANM", L + "anm/ANM.py:ANM.cause_or_effect"), ("HSIC", L + "anm/ANM.py:normalized_hsic")], ["return values"])
prop("O01", "The one-component learner builds well-formed graphs from correct statistics",
     "For every sample, the fourth joint cumulant is the unbiased estimate (the average over distinct rows; multilinear, symmetric, unaffected by shifts), p-values are combined by Fisher's method with values below 1e-5 raised to it, and a surrogate regression is the combination of the given columns that cancels the given exogenous loadings, with unit norm or with last coefficient one. "
     "For every table the learner returns square matrices over the columns followed by latent variables: undirected pairs only between columns, no pair joined twice, latent variables without parents and with at least three children, coefficients only on arrows and finite loadings. The result is repeatable, the same for arrays of any number type and frames, and the data are not modified. With an ideal independence test, all indicators of one non-Gaussian latent variable become its children; for three indicators nothing else is added and the loadings are the true ones up to sign.",
     ["inputs", "configurations"], "every sample, p-value list, loading matrix, table and test level", "Not tested at all.",
     [L + "one_component/olc.py"], [("learner", L + "one_component/olc.py:olc"), ("cumulant", L + "one_component/olc.py:xcum4")], ["return values"])
prop("P01", "The Hawkes learner's event statistics equal a direct computation from its table",
     "For every event table with any sequence ids, event names, integer or real times and optional time grid, the learner's event counts per time step, time span and decayed influence sums equal those computed directly from the definition, per sequence and never across sequences. The caller's table is not modified, and row order, shifting a sequence in time or relabelling sequences makes no difference.",
     ["inputs"], "every event table, decay and time grid", "Tests run one simulated table and look only at the final result's shape.",
     ["cdmir/discovery/point_process/SHP.py"], [("table and influence computation", "cdmir/discovery/point_process/SHP.py:SHP.__init__")], ["SHP.X_df", "SHP.sum_t_X_kappa", "SHP.T"])
prop("P02", "The Hawkes learner reports the penalised likelihood of an acyclic local optimum",
     "For every event table and structure, the fit reports non-negative rates, influences only on the structure's edges, and a score that is the penalised log-likelihood of exactly the reported parameters, minus infinity for cyclic structures. A type without causes gets its empirical rate (count over observed time). From an acyclic start, hill climbing returns an acyclic structure scoring at least as well as its starting one, such that no single edge addition, deletion or reversal that stays acyclic improves the score, equal seeds give equal results, and strong, well-sampled branching data give back their own structure. Unsupported penalties and starting structures that are not square 0/1 matrices are rejected.",
     ["inputs", "histories"], "every event table, decay, penalty, initial structure and seed", "Two runs on one simulated table are tested.",
     ["cdmir/discovery/point_process/SHP.py"], [("EM", "cdmir/discovery/point_process/SHP.py:SHP.EM"), ("search", "cdmir/discovery/point_process/SHP.py:SHP.Hill_Climb")], ["EM and Hill_Climb return values"])
X = "cdmir/discovery/score_based/entropy_based/"
prop("N01", "Continuous structure learning returns thresholded graphs from correct objectives",
     "The acyclicity function of every continuous learner (linear, neural, Sobolev, non-Gaussian) is zero exactly on acyclic weight matrices and positive otherwise, and every objective handed to an optimiser comes with its exact gradient. The local layers and entropy losses equal their definitions, and the bounded optimiser respects its bounds and minimises. The learned matrix has a zero diagonal, every non-zero entry at least the requested threshold in magnitude and otherwise unaffected by the threshold, the true graph is recovered from well-separated equal-variance linear data on forests, the data are not modified, and unknown losses are rejected.",
     ["inputs", "configurations"], "every weight matrix, data table, loss and regularisation", "Tests only run the learners once.",
     [X + "entropy_based_discovery/linear.py", X + "entropy_based_discovery/nonlinear.py", X + "entropy_based_discovery/linear_ent.py", X + "entropy_based_discovery/nonlinear_ent.py", X + "entropy_based_discovery/locally_connected.py", X + "entropy_based_discovery/lbfgsb_scipy.py"], [("notears_linear", X + "entropy_based_discovery/linear.py"), ("MLP acyclicity", X + "entropy_based_discovery/nonlinear.py")], ["learned matrix"])
prop("N02", "Entropy-based benchmarks: simulators and accuracy counts equal their definitions",
     "For every true DAG and estimated DAG or CPDAG, the reported false discovery rate, true and false positive rates, structural Hamming distance and edge count equal those computed from the edge sets, and invalid estimates are rejected. The random DAG, weight and data generators of that module return acyclic graphs of the requested kind, weights on exactly the graph's edges within the requested ranges, and data in which every variable is its given linear or nonlinear function of its parents plus noise of the requested family; graph sizes, noise types and functions that are not supported are rejected.",
     ["inputs", "configurations"], "every pair of graphs and every generator configuration", "Not asserted anywhere.",
     [X + "entropy_based_discovery/utils.py"], [("count_accuracy", X + "entropy_based_discovery/utils.py:count_accuracy")], ["return values"])
prop("N03", "Continuous learners follow the augmented-Lagrangian method on their objective",
     "For every data table, architecture, starting weights and setting, each optimisation inside the continuous learners (linear with squared, logistic or Poisson loss; neural and Sobolev with squared or entropy loss; non-Gaussian linear with a weighted mixture of both, optionally annealed) minimises loss + lambda1 times the l1 norm of the weights + half lambda2 times the squared norm + rho/2 h^2 + alpha h, with split weights bounded below by zero and their diagonal fixed at zero, starting at the weights reached so far. "
     "The penalty rho starts at 1 and grows tenfold while the acyclicity h has not fallen to a quarter of the last step's, after every step alpha grows by rho h, and the search ends exactly when h is within the tolerance, rho reaches its limit or the step limit is reached; the result is the last weights with entries below the threshold removed.",
     ["inputs", "configurations"], "every table, architecture, regularisation, mixture, tolerance and limit", "Tests only run the learners once.",
     [X + "entropy_based_discovery/linear.py", X + "entropy_based_discovery/linear_ent.py", X + "entropy_based_discovery/nonlinear.py", X + "entropy_based_discovery/nonlinear_ent.py", X + "entropy_based_discovery/lbfgsb_scipy.py"],
     [("penalty schedule", X + "entropy_based_discovery/nonlinear.py:dual_ascent_step"), ("objective", X + "entropy_based_discovery/linear.py:notears_linear")], ["objectives handed to the optimiser", "learned matrix"])
prop("X01", "Matrix-exponential routines compute the exponential for every matrix",
     "For every real square matrix (for the Taylor routine also every batch of them) of small, moderate or large norm, each matrix-exponential routine returns the matrix exponential to the precision of its type, and differentiating through it gives the derivative of the matrix exponential. Inputs that are not square are rejected and the input is not modified.",
     ["inputs"], "every matrix size, scale and batch", "Not tested at all.",
     [X + "pytorch_expm/expm64.py", X + "pytorch_expm/expm32.py", X + "pytorch_expm/expm_taylor.py", X + "pytorch_expm/expm_pade.py"], [("scaling and squaring", X + "pytorch_expm/")], ["return values"])
prop("V01", "Plots show every node and edge with its marks, for any node labels",
     "For every graph with any node labels, the circular layout places all nodes at distinct, evenly spaced points of the requested circle, in node order or sorted order, and the plot contains one labelled disc per node, one line per edge joining exactly its two nodes with arrowheads exactly at its arrow ends and circles exactly at its circle ends, and shades latent nodes differently.",
     ["inputs"], "every graph, label type and set of latent nodes", "Three string-labelled graphs are drawn without looking at the figure.",
     ["cdmir/visual/plot_graph.py", "cdmir/visual/graph_layout.py"], [("plot_graph", "cdmir/visual/plot_graph.py:plot_graph"), ("circular_layout", "cdmir/visual/graph_layout.py:circular_layout")], ["matplotlib figure artists"])
H = L + "LearningHierarchicalStructure/"
prop("H01", "Latent-structure statistics equal their definitions",
     "For every full-rank data table, the tetrad test returns the two-sided normal p-value of the sample tetrad difference over its Wishart standard error and declares it vanishing exactly when that exceeds the level; the surrogate vector of generalised independent noise has unit length and makes the target combination uncorrelated with every instrument whenever there are more targets than instruments; Fisher's combination of p-values (zeros counting as 1e-5) equals its chi-square formula; the kernel independence test and its statistics equal their formulas from Gram matrices, do not depend on the order of the samples, and are symmetric in the two arguments. None of them modifies the data.",
     ["inputs"], "every full-rank table, choice of variables and level", "Not tested.",
     [H + "VanishedTest.py", H + "GIN2.py", H + "HSIC.py", H + "indTest/HSIC.py", H + "indTest/HSICTestObject.py", H + "indTest/FisherTest.py"], [("tetrad", H + "VanishedTest.py:wishartEvalTetradDifference"), ("GIN vector", H + "GIN2.py:getomega")], ["return values"])
prop("H02", "Cluster merging and set helpers implement their set-theoretic meaning",
     "Merging overlapping groups returns exactly the connected components of the groups under sharing an element, covering the same elements, independent of the order of groups and of elements within them; the set helpers (contained in, covered by, strictly covered by, overlapping, named by, extended by) answer exactly what the sets of elements say. Naming latents gives each cluster as many latents as its dimension, lists them together and in the causal order of their clusters, and impure clusters add exactly the later members to the children of each earlier latent member. The inputs are not modified.",
     ["inputs"], "every list of groups of labels", "Not tested.",
     [H + "Overlap_Merge.py", H + "Utils.py", H + "MakeGraph.py"], [("merge_list", H + "Overlap_Merge.py"), ("latent naming", H + "MakeGraph.py:Transfer2Index")], ["return values"])
prop("H03", "The GIN test, its information estimates and the latent order are right",
     "Nearest-neighbour entropy and mutual information, Gaussian entropy and histogram mutual information equal their definitions on every sample, do not depend on the order of samples or variables, and follow rescaling. The GIN test accepts exactly when the surrogate of the targets is independent of every instrument by the kernel test at the given level, and its information form is the mean of the estimated mutual information with the instruments. The causal order of latent clusters is a permutation of the clusters and starts with the true root for strongly non-Gaussian, well-sampled clusters of two variables each. The data are not modified.",
     ["inputs"], "every sample, number of neighbours, set of targets and instruments, and level", "The one test of GIN cannot run: its simulated data set does not exist.",
     [H + "mutual.py", H + "GIN2.py", H + "independence.py", H + "indTest/independence.py", H + "Infer_Causal_Order.py"], [("kNN entropy", H + "mutual.py:entropy"), ("GIN", H + "GIN2.py:GIN"), ("root search", H + "Infer_Causal_Order.py:FindRoot")], ["return values"])
prop("H04", "Latent clusters, their merge rules and the active data are exact",
     "On data whose covariance follows a linear latent tree exactly, the clusters found are exactly the children of each latent, judged pure when larger than two or when the latent separates other latents and its pair is not joined directly. Cluster, purity and merge-rule decisions are exactly the stated conjunction (or existence) of vanishing tetrads at the given level. One merging round keeps every variable in exactly one place. After a round the active data hold each remaining variable with its own data and each new latent with the data of one of its children, absorbed and replaced variables are gone, latents are numbered on from the given number, and rolling a latent back restores observed descendants with their own data. Inputs are not modified.",
     ["inputs", "histories"], "every latent tree, data table, level, merge result and latent index", "Not tested.",
     [H + "FindCausalCluster.py", H + "TetradMethod.py", H + "MergeCluster.py", H + "UpdataData.py"], [("cluster search", H + "FindCausalCluster.py:FindCausalCluster"), ("merge rules", H + "MergeCluster.py"), ("active data", H + "UpdataData.py:UpdataData")], ["return values"])
prop("H05", "Kernel independence-test objects give the p-value their null samples imply",
     "For every sample and every pair of kernel objects (own widths or their median heuristics, each taken from its own sample; data passed in, generated or streamed): the permutation, block and spectral test objects use the U-statistic (unbiased) or V-statistic of exactly the kernel matrices, or the covariance of the features, of the two samples, and leave matrices and data unmodified. Every permutation null sample is the statistic with one sample reordered; the p-value is (1 + number of larger null samples) / (1 + number of null samples). "
     "The block test averages the U-statistics of consecutive full blocks and takes the normal tail with the null variance from permutations, directly from the kernels, or across blocks. The spectral test draws null samples as squared-normal mixtures of the two spectra, on the scale of the statistic. Per-column statistics are averages over the columns of the first sample.",
     ["inputs", "configurations"], "every sample, kernel pair, block size, number of shuffles and way of passing data", "Not tested at all.",
     [H + "indTest/HSICTestObject.py", H + "indTest/HSICPermutationTestObject.py", H + "indTest/HSICBlockTestObject.py", H + "indTest/HSICSpectralTestObject.py"],
     [("statistics and null samples", H + "indTest/HSICTestObject.py:HSICTestObject.HSIC_with_shuffles"), ("block test", H + "indTest/HSICBlockTestObject.py:HSICBlockTestObject"), ("spectral test", H + "indTest/HSICSpectralTestObject.py:HSICSpectralTestObject")], ["return values"])
prop("H06", "The latent hierarchy learner recovers and draws the latent structure",
     "On data whose covariance follows exactly a linear latent tree in which every latent has at least three observed children, the learned graph contains every observed variable exactly once, as a child of one latent, and the groups of observed children are exactly those of the true latents, for any column order and names: "
     "with up to three latents there is one latent per group, all joined to each other; when four or more latents without direct links share an unobserved cause, one further latent has exactly these as its children. The drawing routine shows exactly the nodes and the latent-to-child edges of the index, "
     "an arrow from every earlier to every later latent of the order unless the two share a cluster, and, for impure clusters, an arrow from each earlier latent member to every later member. The data are not modified, nor the index by plain drawing.",
     ["inputs"], "every tree, column order, naming, index, order and set of impure clusters", "The existing tests of the learner cannot be run (they need modules that are not there).",
     [H + "Causal_Discovery_in_LHM.py", H + "MakeGraph.py", H + "MergeCluster.py", H + "UpdataData.py"],
     [("whole learner", H + "Causal_Discovery_in_LHM.py:Causal_Discovery_LHM"), ("drawing", H + "MakeGraph.py:Make_graph")], ["graph drawn"])
prop("U01", "Variable naming is consistent across input forms",
     "Every entry point behind the data adapter (independence-test objects and the PC algorithm) treats an array (default integer names), a dataframe (column names), and either with explicit names as the same data: results for the same column are identical under the corresponding name, explicit names take precedence, and a wrong number of names or an unsupported container is rejected.",
     ["inputs", "configurations"], "every table, container and naming", "Tests use two combinations.",
     ["cdmir/utils/adapters.py", I + "basic_independence.py", C + "pc.py"], [("adapter", "cdmir/utils/adapters.py:data_form_converter_for_class_method")], ["test objects", "PC.fit"])
prop("U02", "Dataset utilities seed, convert and rectify faithfully",
     "After seeding, the generators of NumPy, Python and (unless switched off) torch continue exactly as if each had been seeded directly, whatever was drawn before; without a seed NumPy and Python start afresh and torch is left alone. For every graph, node names and weights, the adjacency matrix has the graph's nodes in order and its weights (1 where none is given), a matrix becomes the graph of the requested class with exactly its non-zero entries as weighted edges, and the two conversions invert each other; a weighted matrix is called a DAG exactly when it has no directed cycle. "
     "A frame becomes the array of its values, arrays pass unchanged and other containers are rejected. The leaky rectifier keeps positive entries and multiplies the others by its slope, for any shape and number type, and rejects slopes that are not positive. Inputs are not modified.",
     ["inputs", "histories"], "every seeding and drawing history, graph, matrix, frame and array", "Tests use these helpers once, inside other tests.",
     [D + "utils.py", X + "entropy_based_discovery/utils.py"], [("helpers", D + "utils.py")], ["return values", "generator states"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (len(p['title']), p['title'])
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
