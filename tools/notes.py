"""Per property: (technique, level note, what the generated search reaches that the tests cannot, correction history)."""
N = {
"G01": ("stateful model-based testing against a dictionary model", "Edit sequences of up to 40 calls over up to 8 nodes and six label kinds; every public query compared after all, some or only the last of the calls.", "Interleavings of add, overwrite, remove and rejected edits; state that only shows when no query came in between."),
"G02": ("property-based differential testing against moral-graph separation, exhaustive on small DAGs", "Every query on every DAG of up to 4 nodes; random DAGs of up to 8 nodes, with repeated queries across edits of the same object.", "Colliders opened by descendants, caches that outlive an edit, one-shot conditioning iterables."),
"G03": ("property-based testing against edge-set definitions, exhaustive on small digraphs", "All directed graphs of up to 3 nodes; random ones of up to 9, half of them cyclic, asked again after edits.", "Cycles that are not reachable from a root, nodes downstream of cycles, degrees after removals."),
"G04": ("property-based differential testing against enumeration of the equivalence class", "Every DAG of up to 4 nodes (thorough 5), random ones of 1-7, dense ones of 7-8.", "Arrows compelled far from any collider; separating sets of three and more nodes."),
"G05": ("property-based testing against backtracking enumeration of extensions, exhaustive on small PDAGs", "Every PDAG of 3 nodes (thorough 4); random ones of 2-6 nodes; round trips.", "PDAGs without an extension (termination), inputs with background knowledge, every tie-break."),
"G06": ("property-based testing against the intersection of all extensions", "Every extendable PDAG of up to 3 nodes (thorough 4); shape-biased PDAGs of 3-7 nodes.", "Rules 3 and 4 fire only on four-node shapes that DAG-derived CPDAGs never contain with the rule open."),
"C01": ("property-based testing with a d-separation oracle against the enumerated CPDAG", "A third of all DAGs of up to 4 nodes (thorough: all); random DAGs of 2-6 nodes; refits of one object.", "Every variable order and naming, both searches, stale state between fits."),
"C02": ("property-based differential testing against a level-wise reference search over arbitrary p-value tables", "2-6 variables, tables consistent with no distribution.", "Contradictory test answers, where frozen adjacencies, unions of accepted sets and order independence show."),
"C03": ("metamorphic testing of PC on data", "Tables of 2-6 variables; cases with a p-value within 1e-6 of the level are skipped.", "Representation changes: row order, shift, scale and sign, container, names, memory layout, column order, refit."),
"I01": ("property-based differential testing against residual correlations", "4-300 rows, 2-7 columns, condition numbers up to 1e6.", "One degree of freedom, every conditioning size and container, the three entry points."),
"I02": ("stateful differential testing: one long-lived object against fresh ones", "Histories of 2-25 queries over 3-14 variables.", "Key collisions (digit-wise similar ids), one-shot iterators, repeats in another form."),
"I03": ("property-based differential testing against explicit kernel formulas, with metamorphic relations", "8-60 rows (a few of 201 and 1001), 2-6 columns. The Gaussian-process form is checked for range, repeatability and power only.", "Each moment of the gamma law and each kernel option over all data shapes."),
"K01": ("stateful differential testing of kernel objects against entry-by-entry formulas", "Histories of 1-8 calls; arrays of 1-60 rows, sometimes 199-1250.", "Cache hits on near-identical data, parameter changes between calls, edited results."),
"K02": ("property-based testing against explicit matrix products", "Symmetric matrices of size 1-40.", "All matrices and regularisations; in-place effects."),
"S01": ("property-based differential testing, score equivalence over whole classes", "8-400 rows, 2-7 columns, condition number below 1e6.", "Score equivalence needs all members of an equivalence class."),
"S02": ("property-based differential testing against counting with lgamma, score equivalence over classes", "4-150 rows, up to 5 columns of up to 5 categories.", "Unobserved configurations, arbitrary category codes, priors."),
"S03": ("property-based differential testing against an independent form of the held-out likelihood", "6-60 rows, 2-5 columns, 2-10 folds.", "Folds of unequal size, grouped variables, regularisation; invariances."),
"S04": ("property-based differential testing against an independent eigenvalue form of the Gaussian-process likelihood", "8-70 rows, 2-5 columns, groups of up to three columns, 0-4 parents; likelihoods of up to 25 points.", "Feature count and threshold, widths, several parents and groups, the optimiser's end point; invariances."),
"S05": ("stateful differential testing of score objects", "Histories of 2-20 queries; up to four objects side by side.", "Cache-key collisions, shared state between objects, node names that are not column numbers."),
"E01": ("differential testing against a greedy search over explicitly enumerated equivalence classes", "Enumerated classes up to 5 variables; operator-level search up to 8 variables; near-ties are skipped.", "Every set function as score, arbitrary tables, parent limits, larger graphs where operator validity conditions matter."),
"M01": ("property-based testing against explicit edge sets", "Graphs of 2-8 nodes.", "Every overlap of marks and the metric axioms on triples."),
"M02": ("property-based testing against entry counting", "Matrices of size 1-6.", "Values on either side of and on the threshold, diagonals, graphs as truth."),
"D01": ("property-based statistical testing of structural residuals", "1-6 nodes and 11-23 nodes, up to 3000 rows; statistical thresholds at 1e-10.", "Every noise family and scale form on every graph; total effects are exact at a fixed seed."),
"D02": ("property-based testing by zero-noise functional relations and fixed-seed interventions", "1-6 nodes.", "The function used, its dependence on exactly the parents, noise laws under every option."),
"D03": ("property-based testing of every time step against the lagged mechanism", "1-5 variables, 1-4 lags, up to 1500 steps.", "Lag order, asymmetric stacks, silenced variables."),
"D04": ("property-based testing with martingale residuals as oracle", "1-8 types, up to 1500 events; 8 standard errors plus 15 events.", "The whole joint law of table, structure and parameters."),
"D05": ("property-based testing of generator promises", "1-30 nodes; edge totals over 40 seeds within 7 standard errors.", "Every size, density and range."),
"L01": ("property-based testing against the generating model and least squares", "2-5 variables, 3000 centred rows for recovery; two right fits of ten are required.", "Column orders, levels, ICA initialisations."),
"A01": ("property-based differential testing with metamorphic relations", "10-160 points (and 2000).", "Swap, affine and reordering relations over all pairs."),
"O01": ("property-based testing against averages over all tuples of rows, exact null vectors and structural invariants; a scripted ideal test for recovery", "samples of 4-7 rows for the cumulant, tables of 30-120 rows and 2-5 columns, 3-5 indicators.", "Repeated columns, floors of p-values, one or several latent variables, integer data."),
"P01": ("property-based differential testing of event statistics", "1-4 sequences, 1-4 types, 1-12 events each.", "Ties, repeats, grids, sequence boundaries, id types."),
"P02": ("property-based testing: recomputed likelihood, neighbour search", "Up to 4 event types.", "Local optimality is a statement about all neighbours of whatever is returned."),
"N01": ("property-based differential testing, central differences of every objective", "1-7 nodes; recovery on forests only.", "Gradients at random and at extreme weights; bounds; thresholds."),
"N02": ("property-based testing, exhaustive for up to 3 nodes", "Metrics exhaustive to 3 nodes, random to 8; simulators statistically at 1e-10.", "All estimate shapes and all generator options."),
"N03": ("property-based differential testing: every recorded optimisation against a NumPy objective and a replayed penalty schedule", "3-80 rows, 1-5 columns, up to 8 steps, one or two hidden layers.", "Objective terms, weights of the mixture, annealing, penalty growth, multiplier updates and stopping in every combination."),
"X01": ("property-based differential testing against scipy", "Order 1-8, one-norm up to 60.", "Every scaling branch, batches of mixed norms, derivatives."),
"V01": ("property-based testing of the drawn artists", "Graphs of 0-14 nodes.", "The figure itself is read back: discs, lines, marks, shades."),
"H01": ("property-based differential testing of statistics", "8-400 rows, up to 7 columns.", "Tetrads against determinants, surrogates against singular values, kernels against explicit Gram matrices."),
"H02": ("property-based testing against union-find and sets, exhaustive on small lists", "Up to 10 groups over 14 labels.", "All relations of a set to a family, nearly equal sets."),
"H03": ("property-based differential testing and recovery", "15-200 points, up to 10 neighbours; order for clusters of two.", "Ties, several instruments, decisions around the p-value."),
"H04": ("property-based testing against the generating latent tree and a bookkeeping model", "Trees of 1-4 latents; tetrads at least 6 standard errors from zero.", "Every merge outcome, purity shape and latent index."),
"H05": ("property-based testing against matrix definitions of the statistics and the set of all reorderings", "4-7 rows for reorderings, up to 6 blocks, 8-20 rows for spectra; random p-values within 6 standard errors.", "Different widths per side, median widths, left-over rows, streamed and generated data, features."),
"H06": ("property-based testing of the whole learner against the generating latent tree; drawing against the implied edge set", "1-5 latents, up to 17 observed variables, tetrads at least 6 standard errors from zero; graphviz, which is missing here, replaced by a stand-in that records the graph.", "The loop around the rounds, the numbering and surrogates of latents across rounds, which no runnable test touches."),
"U01": ("property-based differential testing across input forms", "3-40 rows, 2-6 columns.", "Every container, naming and call form."),
"U02": ("model-based testing of seeding histories; property-based round trips and element-wise oracles", "1-6 nodes, frames of up to 6 rows, arrays of up to 3 dimensions, 14 operations.", "Interplay of the three generators, number types, node orders, empty and zero-dimensional arrays."),
}
