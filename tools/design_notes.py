"""Per-property notes of DESIGN.md (oracle, modelling decisions, limits); CAUGHT: planted bug -> checks that catch it."""
CAUGHT = {}
NOTES = {
"S01": "Oracle: set algebra over the returned index arrays (disjoint, in range, no repeats, cover) and equality of masks with index lists. The permutation, choice and shuffle draws of the generator are arbitrary permutations / subsets.",
"S02": "Oracle: |n_held - fraction*n| <= 1/2 and per class when stratified, fold sizes differ by at most one; the fraction is a symbolic real, so every rounding boundary is covered.",
"S03": "Oracle: number of labelled samples as stated by mode (count, fraction, per class, total), never below the minimum per class; refusals allowed only if the budget is infeasible.",
"S04": "Oracle: kept subset, floors, and the cap / long-tail formula; the exponential decay uses uninterpreted log/exp with monotonicity and inverse axioms, so ties between classes are explored.",
"S05": "Two runs in one path with the draws keyed by (seed, position): a change of the labelling policy or imbalance must not move the held-out sets.",
"S06": "File system model `symx/fsx.py`: every write/rename/unlink is a step, the solver chooses the step at which the process dies or an I/O error is raised, then the real load is executed on what is left.",
"S07": "Round trip of symbolic plans through the dictionary form; fingerprints: SHA-256 is injective on symbolic content, so equality of fingerprints must imply equality of every field.",
"E01": "Oracle: textbook definitions evaluated by the solver on the same label vectors (exact rationals), permutation and class renaming by self-composition.",
"H01": "Grid: Cartesian product as a multiset. Random: the draw is symbolic in the distribution's support; log-uniform uses the log/exp axioms.",
"H02": "Structural oracle over leaf paths with symbolic leaves; aliasing is checked by mutating the result afterwards.",
"V01": "Column identity is tracked by symbolic cell values, so a permuted or shifted column is a counterexample.",
"G01": "Oracle: per ordered pair, the multiset of edges after symmetrization; weights symbolic reals, duplicates and loops included.",
"G02": "Square roots are defined by s*s = d, s >= 0 (lazy definitions, added only to the queries which use them); exp is uninterpreted and compared syntactically by congruence.",
"G03": "Oracle: no excluded node is nearer than an included one; squared distances compared. Chunk independence by two runs with symbolic chunk sizes.",
"G04": "Oracle: the composition of the stage oracles applied to symbolic features.",
"G05": "Acceptance is compared with the stated conditions in both directions (accepts exactly when).",
"G06": "Dense/sparse equality cell by cell, repeated edges included; polynomials expanded by the solver; walks: every consecutive pair is an edge, length reached unless stuck.",
"G07": "Store, shard and view caches on the file model, with crash points; views of graphs without a recorded fingerprint must depend on all of their content. A directory listing returns its entries in any order; only one crash per history.",
"G08": "NumPy as seen by `struct.py` has a generator whose choices are solver-chosen indices and a singular value decomposition with free results (the sparse branch: stand-ins for csr_matrix and TruncatedSVD); the recorded choice sets and weights are replayed through an independent walk, and the matrix handed to the decomposition is compared with PPMI computed from those walks.",
"C01": "The real parsers run on dictionaries whose keys are present or absent by solver-chosen flags and whose numbers are symbolic; the oracle writes down the expected sections and the exact acceptance condition next to the generated input.",
"M01": "Label vectors, edge ends and (for floats) label values are symbolic; sizes, present parts and one structural fault are solver choices. The acceptance condition is written independently and compared in both directions; accepted bundles are compared entry by entry.",
"D01": "`fsx.Sched`: two processes as coroutines, the scheduler's choices are symbolic; the lock file is created with the real flags. A lock left behind by a crashed process has to be removed by hand (documented choice of the project, not reported).",
"D02": "Crash or I/O error at any file-system step of download / forced re-download / purge, then the real `is_cached`, load and a repairing download.",
"D03": "Arrays of symbolic content and several dtypes go through the real storage layout; the identity of the entry is compared for symbolic names and versions.",
"D04": "Every path handed to the file model must lie below the root, for names with separators, dots, absolute and Windows forms. No real file is touched: all destructive calls go to the model.",
"T01": "Scores of labelled rows are compared with their one-hot class after the real iteration; a refusal is allowed only when the graph does not connect the labels.",
"T02": "Self-composition: two datasets that differ only in hidden labels. Poisson MBO with b_strategy='true' uses the hidden prior by design and is excluded.",
"T03": "scipy's maximum_flow is replaced by its contract (some maximum flow), then the returned side is compared with every other assignment by the solver.",
"T04": "Fixed-point equations are checked on the returned scores (exact linear arithmetic; no iteration of the oracle is needed).",
"T05": "Definitions cell by cell; CG: if it reports convergence, the residual is below the tolerance.",
"T06": "Product run of both backends on the same symbolic graph. `symx/tshim.py` models the torch operations the code uses over the same Z3 arrays.",
"T07": "`torch` as seen by the GNN modules is replaced by a recorder (`props/gnn.py`): every layer call, loss, random draw and update is an event, layer outputs are free Z3 arrays shared between the two runs; two runs (different generator state; refit vs first fit; other hidden labels) must record equal events for every free value. Sound for all weights because the outputs are unconstrained functions of call position and equal records leave nothing else to differ.",
"T08": "Early stopping: validation losses are free integers (all orders and ties), the epoch whose weights are used is read off the layers' version counters. Equations: layers have fixed weights, X is symbolic, the network is cut at its non-linear functions (relu, elu, leaky relu): their outputs are free, their inputs are compared with an oracle written as plain sums, so every query is linear. Helpers: free edge lists and weights.",
"T09": "`_LinearSVM` is replaced by a stand-in with one free score per sample and training; its log of training sets is compared with the schedule. `_LinearSVM.fit_sgd` itself runs symbolically from free weights and any sample order against a hand-written subgradient step.",
"I06": "As I01: classifiers are stand-ins with free score vectors per fit and sample.",
"L05": "As L02. ADSH's per-epoch thresholds are recomputed from free evaluation-mode rows over all orders and sizes; Meta Pseudo Labels runs two networks, the student's labelled loss before and after its step enters the teacher's loss as a constant.",
"I01": "The wrapped classifier is a contract: any score function of the row that is fixed between refits; what it was trained on is recorded and compared with an independent re-computation of the round.",
"I02": "As I01, per view.",
"I03": "As I01 with bootstrap draws symbolic; label values with gaps and bootstraps that miss a class.",
"I04": "NormalDist.inv_cdf is a symbolic quantile; predictions of the learners are symbolic and fixed across rounds.",
"I05": "Geometry at listed positions on a line (distances exact), labels, scores and quantile symbolic.",
"P01": "Self-composition over the rows outside the fit set. SVD / eigh are uninterpreted functions of their (whole) input.",
"P02": "Cached and uncached run of the same plan in one path, with a previous symbolic history on the cache, crash points, I/O faults and damage. Scope: datasets with a recorded fingerprint (others are identified by shape only, documented).",
"P03": "Definition oracles per step. vision.resize returns uint8 by design.",
"P04": "Recording steps; two fingerprints are equal exactly if all named parts are.",
"B01": "Settings symbolic 1..2000, every place compared before/after. The auto profile reads the GPU and is excluded.",
"B02": "The method is a stand-in recording what it is given and answering from a symbolic table. Validation and test labels stay visible in the transductive data object by design (only the training mask is restricted), so this is not required.",
"B03": "Scores symbolic reals including missing (None/NaN) trials; the statistics functions fmean / pstdev have exact stand-ins.",
"B04": "Outcomes symbolic; directory creation on the file model with two interleaved runs. BenchRuntimeError is a frozen dataclass and cannot pass through contextlib; the harness raises through the runner as the code does.",
"B05": "The whole runner is executed with stand-ins for dataset loading, environment report and method.",
"A01": "Draws generator: a stream is a function of its seed key, all values arbitrary; two applications of the real pipeline in one path. Weak and strong augmentation share the context's stream by design.",
"A02": "Shapes are those on which the NumPy and the torch layout heuristics agree.",
"A03": "Self-composition over presence and order of the other samples.",
"K01": "Distances squared and exact; the vote share oracle ranges over all admissible neighbour sets at ties.",
"K02": "Layers, optimisers and loaders are stand-ins that consume torch's global stream where the real ones do; the trace (stream, position) of both fits must be equal whatever the global state was before.",
"K03": "Estimators are stand-ins with arbitrary outputs; labels symbolic in -3..5.",
"L01": "Row identity tracked by symbolic cells through the batch iterator; sharpening with temperatures whose powers are polynomial.",
"L02": """World technique: for each network, number of optimiser steps, mode and sample the network's answer is a free probability
row in two copies, P (differentiable) and D (detached). The torch stand-in tracks which copy reaches the loss: `detach`,
`no_grad` and teacher networks give D. The loss handed to `backward` minus the published loss (written by hand in the
harness from the method's paper and docstring) must not depend on P at fixed D (both losses are then equal up to a
constant, so have the same gradient). Data-dependent masks are removed by case splitting (symx/cases.py), the
difference is brought into a canonical rational form over log atoms (symx/poly.py) and the remaining equalities go to Z3.
Counterexamples are replayed with real torch autograd against finite differences of the oracle.""",
"L04": "As L02. VAT: the adversarial direction comes from a free gradient (autograd.grad is a stand-in), MixMatch inputs are recorded as rows of a mixing matrix.",
"D05": "Rows carry symbolic identities; the kept rows are compared with the source by identity. The dataset libraries (scikit-learn fetch_openml, torchvision, datasets, torch_geometric) are replaced at optional_import, in replays too.",
"L03": "As L02 (recorded inputs and losses) for two fits in one path; process-wide generators are in an arbitrary state.",
}
