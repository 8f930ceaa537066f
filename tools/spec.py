"""Source of properties.jsonl and MANIFEST.json (run tools/gen.py after editing)."""
TECH = "symbolic execution of the real Python source, SMT-decided (Z3), counterexamples replayed"
P = []

NA = []


def prop(id, title, statement, text, why, files, mech, note, over=("inputs",), tech=TECH, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why,
                  files=list(files), mech=mech, note=note, tech=tech, observe=list(observe)))


SAMP = "src/modssc/sampling/"
prop("S01", "Sampling partitions the data",
     "Train, validation and test indices are pairwise disjoint, in range, free of repeats and together cover every sample of the pool, and the labeled and unlabeled indices partition the training indices. "
     "With an official test set the test indices are exactly that set and refer to it; in graph mode the masks describe exactly the same partition.",
     "Every label vector, fraction, fold, budget and draw of the random generator, in dataset and graph mode, with and without official splits.",
     "The tests check a handful of seeds and sizes; the partition must survive every rounding of fractions, every class distribution and every permutation.",
     [SAMP + "services/service.py", SAMP + "splitters.py", SAMP + "labeling.py", SAMP + "result.py"],
     [("split and labeling composition", SAMP + "services/service.py"), ("result validation", SAMP + "result.py")],
     "All draws of the random generator are symbolic (any value the numpy API may return); pools of up to 4-6 samples and 3 classes; real-valued fractions.")
prop("S02", "Holdout and k-fold splits have the requested sizes",
     "A holdout split holds out the requested fraction of the pool, per class when stratified and in total otherwise, rounded to the nearest sample. "
     "The folds of a k-fold split partition the pool for every number of folds, their sizes differ by at most one (per class when stratified), and each fold is the validation set of exactly one split; a further validation part is held out of a fold's training pool by the holdout rule.",
     "Every fraction in its range, every label vector, every fold count, every draw.",
     "Rounding and class-count corner cases are unbounded in number; the tests use two or three fractions on balanced labels.",
     [SAMP + "splitters.py"], [("fraction rounding and per-class allocation", SAMP + "splitters.py")],
     "Fractions are symbolic reals; ties at exactly half a sample accept either neighbour; pools of up to 6-8 samples.")
prop("S03", "The label budget is respected",
     "The number of labeled samples equals the requested count or rounded fraction, per class or in total, never exceeds the samples available, is at least the requested minimum per class, and is drawn only from the training pool. "
     "A budget that cannot be met is rejected instead of being silently changed.",
     "Every budget mode and value, every label vector, every draw.",
     "The interaction of budget, minimum per class and rare classes has unboundedly many combinations; tests cover a few.",
     [SAMP + "labeling.py", SAMP + "services/service.py"], [("label selection", SAMP + "labeling.py")],
     "Budgets symbolic; pools up to 5 samples, 3 classes.")
prop("S04", "Class imbalance keeps a valid subset",
     "Applying an imbalance only removes samples: what is kept is a subset without repeats of what was there, no class is emptied below its floor, and the per-class counts follow the requested cap or long-tail decay.",
     "Every label vector, cap, imbalance ratio, floor and draw.",
     "Counts depend on class frequencies and real-valued ratios; tests sample two configurations.",
     [SAMP + "imbalance.py", SAMP + "services/service.py"], [("per-class subsampling", SAMP + "imbalance.py")],
     "Class counts up to 5 samples and 3 classes; ratio exponentials modelled with uninterpreted log/exp plus axioms.")
prop("S05", "A split is a function of data, plan and seed",
     "Sampling the same dataset with the same plan and seed yields the same result, and the held-out sets do not depend on the labeling policy, its budget or the imbalance applied to the labeled part.",
     "Every pair of budgets, label vectors and all answers of the random generator.",
     "It relates two executions; tests compare one pair of runs.",
     [SAMP + "services/service.py", SAMP + "splitters.py"], [("per-stage generator derived from the seed", SAMP + "services/service.py")],
     "Two-run (relational) check with shared symbolic draws keyed by generator seed.", over=("inputs", "configurations"))
prop("E01", "Metrics equal their definitions",
     "Accuracy, balanced accuracy and macro F1 equal their textbook definitions for labels of any dtype, one-hot or score matrices being reduced by arg-max, and do not depend on sample order or on the names of the classes. "
     "Inputs whose lengths disagree are rejected.",
     "Every pair of label vectors and score matrices within the bounds.",
     "Tests compare a few vectors; missing classes, predictions of unseen classes and ties are combinatorial.",
     ["src/modssc/evaluation/metrics.py"], [("metric registry and label reduction", "src/modssc/evaluation/metrics.py")],
     "Up to 4-5 samples, 3 classes, real-valued scores.")
prop("H01", "Hyper-parameter trials cover or stay inside the space",
     "Grid search yields every combination of the listed values exactly once; random search yields the requested number of trials, reproducibly from its seed, with every value inside its declared distribution.",
     "Every space shape within the bounds, every parameter of a distribution and every draw.",
     "Distribution end points and log scales only fail for particular bounds and draws.",
     ["src/modssc/hpo/space.py", "src/modssc/hpo/samplers.py", "src/modssc/hpo/types.py"],
     [("space flattening", "src/modssc/hpo/space.py"), ("distribution sampling", "src/modssc/hpo/samplers.py")],
     "Distribution bounds and draws symbolic reals; grids of up to 3 parameters.", over=("inputs", "configurations"))
prop("H02", "Patching a configuration changes only what is named",
     "Merging a patch into a configuration overrides exactly the leaves the patch names, keeps every other leaf, and modifies neither argument.",
     "Every pair of nested configurations with the given keys and depth.",
     "The tests merge a few hand-written dictionaries; aliasing and scalar/mapping conflicts need every shape pair.",
     ["src/modssc/hpo/patching.py"], [("deep merge", "src/modssc/hpo/patching.py")],
     "Tree shapes of depth 2-3 and 2-3 keys chosen by the solver, leaf values symbolic.", over=("configurations",))
prop("V01", "Feature views select the columns they name",
     "Each view holds exactly the columns its selector names, in order, for the training and the test data alike, and the complement of a view holds exactly the remaining columns. "
     "A random view has the requested width, no repeated column, and depends only on plan and seed. "
     "A view carries the labels, edges, masks and further entries of its own split and its own metadata; the dataset stays as it is.",
     "Every width, fraction, column list and draw, every feature value.",
     "Column arithmetic (fractions, negative or repeated indices, complements) has too many cases for the sampled tests.",
     ["src/modssc/views/services/service.py", "src/modssc/views/plan.py"], [("column selection", "src/modssc/views/services/service.py")],
     "Up to 6 columns, symbolic features and draws.")
GR = "src/modssc/graph/"
prop("G01", "Symmetrization and self-loops keep the weighted edges",
     "Symmetrizing a graph yields, for every ordered pair of nodes, exactly the edge and weight its mode defines, each once, and the result is symmetric. "
     "Adding self-loops gives every node exactly one and leaves the other edges untouched.",
     "Every edge list (repeats and loops included), weight and node count within the bounds.",
     "Repeated edges, one-directional edges and existing loops combine in too many ways for example tests.",
     [GR + "construction/ops/symmetrize.py", GR + "construction/ops/self_loops.py"],
     [("edge merging", GR + "construction/ops/symmetrize.py"), ("loop insertion", GR + "construction/ops/self_loops.py")],
     "Up to 4 edges on 4 nodes, real weights.")
prop("G02", "Edge weights and normalization follow their formulas",
     "Row normalization makes the outgoing weights of every non-isolated node sum to one and symmetric normalization divides each weight by the root of both degrees, isolated nodes staying finite. "
     "Binary, heat and cosine weights equal their formulas on the stored distances.",
     "Every edge list, weight and distance.",
     "Degrees of zero, repeated edges and directed edges are where formulas break; tests sample a few graphs.",
     [GR + "construction/ops/normalize.py", GR + "construction/ops/weights.py"],
     [("degree accumulation", GR + "construction/ops/normalize.py"), ("weights from distances", GR + "construction/ops/weights.py")],
     "Exact real arithmetic; exp uninterpreted with its axioms.")
prop("G03", "Neighbour graphs connect the right nodes",
     "A k-nearest-neighbour graph links each node to min(k, n-1) distinct other nodes none of which is farther than a node left out, an epsilon graph links exactly the pairs within the radius, and stored distances are the true ones. "
     "The result does not depend on the chunk size used to compute it.",
     "Every feature matrix, k, radius and chunk size, ties and duplicate points included.",
     "Ties, duplicates and chunk boundaries are measure-zero for random test data.",
     [GR + "construction/backends/numpy_backend.py", GR + "construction/backends/sklearn_backend.py", GR + "construction/schemes/anchor.py"],
     [("chunked distance computation", GR + "construction/backends/numpy_backend.py")],
     "2-4 points, symbolic integer and real coordinates, exact arithmetic (floating-point rounding is outside).")
prop("G04", "The graph builder composes its stages",
     "A built graph is the neighbour graph of the requested scheme with weighting, symmetrization, self-loops and normalization applied in that order, has the requested number of nodes and records what was built. "
     "Sample order is respected: edges refer to rows of the feature matrix.",
     "Every feature matrix and every combination of stage options.",
     "The product of stage options times data is far beyond the sampled tests.",
     [GR + "construction/builder.py", GR + "construction/api.py"], [("stage composition", GR + "construction/builder.py")],
     "2-3 points; all combinations of symmetrize, loops, normalize and weights.", over=("inputs", "configurations"))
prop("G05", "Invalid graph artifacts are rejected, masks match index lists",
     "A graph object is accepted exactly when its edges refer to existing nodes and its weights match its edges; masks built from index lists mark exactly the listed nodes and labeled nodes are always training nodes.",
     "Every edge list, index list and mask within the bounds.",
     "Tests try one malformed example per rule.",
     [GR + "artifacts.py", GR + "validation.py", GR + "masks.py"], [("artifact validation", GR + "artifacts.py")],
     "Up to 3 nodes and 2 edges with out-of-range values included.")
prop("G06", "Adjacency, diffusion and random walks describe the same graph",
     "Dense and sparse adjacency views of a graph are the same matrix, repeated edges included; diffusion views equal the stated polynomial of the transition matrix applied to the features; "
     "and every random walk follows existing edges and has the requested length unless it is stuck.",
     "Every edge list, weight, feature matrix and walk draw.",
     "Repeated and one-directional edges expose disagreements between the formats that sampled graphs hide.",
     [GR + "featurization/ops/adjacency.py", GR + "featurization/views/diffusion.py", GR + "featurization/views/struct.py"],
     [("adjacency assembly", GR + "featurization/ops/adjacency.py"), ("propagation loop", GR + "featurization/views/diffusion.py")],
     "Up to 3 nodes and 3-4 edges; scipy sparse matrices replaced by a stand-in that sums duplicates as scipy does.")
prop("G08", "Structural embeddings factorise walk statistics",
     "DeepWalk and node2vec embeddings take the asked number of walks of the asked length from every node; a step chooses among the out-neighbours, in node2vec weighted 1/p for going back, 1 for a neighbour of the previous node and 1/q otherwise. "
     "The factorised matrix is the positive pointwise mutual information of all ordered pairs within the window, in the dense and the sparse branch alike, and the embedding is its scaled leading left singular vectors padded with zeros. "
     "Every draw is decided by the seed.",
     "Every choice on every walk and every free edge within the bounds.",
     "A wrong neighbour set, window bound or normaliser gives embeddings of the right shape.",
     [GR + "featurization/views/struct.py"], [("walks, counts, PPMI", GR + "featurization/views/struct.py")],
     "3-4 nodes, walks of 1-4 nodes, windows 1-9, p=2, q=1/4; the singular value decomposition is free (its input is compared).")

DL = "src/modssc/data_loader/"
prop("D01", "One process at a time writes a dataset cache entry",
     "Between taking and releasing the lock of a cache entry no other process can take it, under every interleaving, and a process that fails to take the lock leaves the holder's lock in place. "
     "Concurrent downloads of the same dataset both end with the complete dataset.",
     "Every interleaving of the file-system steps of two processes, including a lock timeout.",
     "Races of file-system steps cannot be produced on purpose by unit tests.",
     [DL + "cache.py", DL + "services/service.py", DL + "storage/files.py"],
     [("exclusive creation of the lock file", DL + "cache.py"), ("download under the lock", DL + "services/service.py")],
     "2 processes, every schedule of their file-system steps (up to 3 preemptions for downloads).", over=("schedules",))
prop("D02", "An interrupted download or purge never looks complete",
     "A dataset that is reported as cached loads completely and unmixed, wherever a download, forced re-download or purge was interrupted by a crash or an I/O error. "
     "Downloading again after the interruption repairs the entry.",
     "Every crash point (with torn last write) and every failing file-system call of the operation.",
     "A crash at each of the file-system steps is out of reach of example tests.",
     [DL + "cache.py", DL + "services/service.py", DL + "storage/files.py"],
     [("manifest written last", DL + "services/service.py"), ("staging directories", DL + "cache.py")],
     "One crash or fault at any mutating call; files written before the crash persist in program order.", over=("crash_points",))
prop("D03", "A cached dataset is the downloaded one",
     "Loading a dataset from the cache gives the arrays, labels, edges, masks, dtypes and metadata that downloading it gave. "
     "Different dataset identities never share a cache entry or fingerprint, and equal identities always do.",
     "Every array content within the bounds, every dataset kind, all identity fields.",
     "Tests store a few arrays; loss of dtype, order or special strings depends on content.",
     [DL + "storage/files.py", DL + "cache.py", DL + "types.py", DL + "uri.py"],
     [("array files", DL + "storage/files.py"), ("fingerprint of the identity", DL + "types.py")],
     "Arrays of up to 3x2 symbolic values, text samples from a list with control characters; sha256 assumed injective.")
prop("D04", "The dataset cache stays inside its directory",
     "Whatever names, versions or stored paths a dataset carries, downloading, loading and purging read and write only below the cache root.",
     "Every combination of path fragments in the identity fields.",
     "Escapes need particular fragments; tests use well-behaved names.",
     [DL + "cache.py", DL + "storage/files.py"], [("directory layout", DL + "cache.py")],
     "Identity fields drawn by the solver from hostile fragments; file-system calls recorded in a scratch directory.")
prop("D05", "Dataset options select whole samples",
     "class_filter, sample caps and seed keep exactly the asked number of whole samples (features with their own label) of the wanted classes, each split limited from its own rows, in source order when no seed is given. "
     "On graphs the result is the induced subgraph: wanted nodes in order, exactly the edges among them renumbered, features, labels and masks staying with their node. "
     "Requests whose options select differently never share a cache entry.",
     "Every content, label vector, filter, cap, seed and shuffle within the bounds, for every provider.",
     "Pairing of rows with labels and renumbered edges survive in shape when they are wrong; the tests use one small table.",
     [DL + "providers/common.py", DL + "providers/pyg.py", DL + "providers/openml.py", DL + "providers/torchvision.py", DL + "providers/hf.py",
      DL + "providers/torchaudio.py", DL + "providers/tfds.py"],
     [("row selection", DL + "providers/common.py"), ("node selection", DL + "providers/pyg.py")],
     "2-3 samples per split, 3 nodes and 2 edges; the third-party dataset libraries are stand-ins that return symbolic contents; torchaudio and tfds only for their identities.",
     over=("inputs", "configurations"))
prop("S06", "A saved split loads as it was saved",
     "Loading a saved sampling result gives exactly the indices, masks, references and metadata that were saved. "
     "A save interrupted by a crash or an error leaves the old split, the new split, or an error, never a mixture.",
     "Every split within the bounds; every crash point or failing call of an overwriting save.",
     "Crash points and mixtures of two splits cannot be sampled usefully by tests.",
     ["src/modssc/sampling/storage.py", "src/modssc/sampling/result.py"], [("split files", "src/modssc/sampling/storage.py")],
     "Splits of up to 4 symbolic indices; one crash or fault at any mutating call.", over=("inputs", "crash_points"))
prop("S07", "Sampling plans and fingerprints are faithful",
     "A sampling plan survives its dictionary form unchanged, unknown keys are rejected, and two different plans, seeds or datasets have different split fingerprints while equal ones agree.",
     "Every plan field value within the bounds.",
     "A field forgotten by serialization or by the fingerprint is only visible when exactly that field differs.",
     ["src/modssc/sampling/plan.py", "src/modssc/sampling/fingerprint.py", "src/modssc/sampling/services/service.py"],
     [("plan serialization", "src/modssc/sampling/plan.py")],
     "All plan fields symbolic; sha256 assumed injective.", over=("configurations",))
prop("G07", "Cached graphs and views are those that were computed",
     "A graph or view served from the cache equals the one computed without it, whatever was built or cached before with other features, preprocessing, seed or specification, whether stored whole or in shards. "
     "A store or chunked build interrupted anywhere leaves nothing that is served wrongly, and a rerun gives the uninterrupted result.",
     "Every edge list, weight and feature value within the bounds; every crash point, failing call and directory order.",
     "Stale or confused entries need particular pairs of inputs and crash points.",
     [GR + "cache.py", GR + "featurization/api.py", GR + "construction/services/service.py", GR + "fingerprint.py"],
     [("graph files and manifest", GR + "cache.py"), ("cache keys", GR + "featurization/api.py")],
     "Graphs of up to 5 edges; one crash or fault; sha256 assumed injective.", over=("inputs", "crash_points"))

TR = "src/modssc/transductive/"
prop("T01", "Labelled nodes keep their labels",
     "In the numpy and the torch backend, label propagation, Laplace learning and dynamic label propagation return one row per node and one column per class in which every labelled node has exactly its own class, and label propagation's rows are shares. "
     "A dataset that passes validation is only refused when its graph does not connect the labels.",
     "Every label vector, labelled mask, edge list and weight within the bounds.",
     "Label layouts (classes with no labelled node, gaps, hidden labels of -1) decide the outcome; tests use one layout each.",
     [TR + "methods/classic/label_propagation.py", TR + "methods/classic/laplace_learning.py", TR + "methods/classic/dynamic_label_propagation.py", TR + "operators/clamp.py"],
     [("hard clamping", TR + "methods/classic/label_propagation.py")],
     "Up to 4 nodes, exact real arithmetic.")
prop("T02", "Labels of unlabelled nodes never influence the result",
     "In the numpy and the torch backend, two runs of a graph-based method (label propagation, label spreading, Laplace learning, lazy random walk, dynamic label propagation, graph mincuts, Poisson learning, Poisson MBO with its default prior, p-Laplace) whose datasets differ only in the labels of unlabelled nodes give the same scores, as long as the classes present are the same.",
     "Every pair of label vectors that agree on the labelled nodes.",
     "A leak is invisible when hidden labels are right or masked in the test data; it takes comparing two runs.",
     [TR + "methods/classic/label_propagation.py", TR + "methods/classic/label_spreading.py", TR + "methods/pde/poisson_learning.py", TR + "methods/classic/lazy_random_walk.py"],
     [("masking of the label matrix", TR + "methods/classic/label_spreading.py")],
     "Self-composition of two runs; up to 4 nodes, 1-3 iterations.")
prop("T03", "Graph mincuts returns a minimum cut",
     "Graph mincuts assigns every node to one side, keeps every labelled node on the side of its class, and no other assignment that respects the labels cuts less total capacity (scaled, rounded weights).",
     "Every graph, weight, labelled mask, class pair and capacity setting within the bounds.",
     "Optimality is a statement about all other assignments.",
     [TR + "methods/classic/graph_mincuts.py"], [("capacities and residual reachability", TR + "methods/classic/graph_mincuts.py")],
     "Up to 4 nodes; scipy's maximum_flow replaced by its contract (any maximum flow).")
prop("T04", "Graph methods compute their published equations",
     "In the numpy and the torch backend, Laplace learning gives every unlabelled node the weighted mean of its neighbours' scores; label propagation and label spreading apply F <- P F (clamped) and F <- alpha S F + (1 - alpha) Y; lazy random walk predicts the sign of (I - alpha S)^-1 y.",
     "Every graph, weight, mask, label vector and mixing share within the bounds.",
     "Loops, repeated edges and isolated nodes are where implementations deviate from the formula.",
     [TR + "methods/classic/laplace_learning.py", TR + "methods/classic/label_propagation.py", TR + "methods/classic/label_spreading.py", TR + "methods/classic/lazy_random_walk.py"],
     [("linear system assembly", TR + "methods/classic/laplace_learning.py")],
     "2-4 nodes, 1-2 iterations, exact real arithmetic.")
prop("T05", "Graph operators and solvers are correct",
     "In the numpy and the torch backend, message passing, degrees, edge normalization, Laplacians, one-hot labels and clamping equal their definitions, and a conjugate-gradient solution reported as converged solves its system to the tolerance. "
     "None of them modifies its arguments.",
     "Every edge list, weight, feature, label and positive definite matrix within the bounds.",
     "Repeated edges, loops, isolated nodes and singular directions need exhaustive small graphs.",
     [TR + "backends/numpy_backend.py", TR + "operators/normalize.py", TR + "operators/spmm.py", TR + "operators/laplacian.py", TR + "operators/clamp.py", TR + "solvers/cg.py", TR + "methods/utils.py"],
     [("sparse products", TR + "backends/numpy_backend.py")],
     "2-3 nodes, up to 3 edges; CG on 1-2 unknowns (n iterations must solve).")
prop("T06", "The numpy and torch backends agree",
     "Label propagation, label spreading, Laplace learning, lazy random walk, dynamic label propagation and fixed-point diffusion accept the same graphs in their numpy and torch backends and return the same scores, iteration count and residual, up to rounding. "
     "Fixed-point diffusion is F <- alpha P F + (1 - alpha) Y with the labelled rows kept.",
     "Every graph, weight, mask, label vector and mixing share within the bounds.",
     "fit() picks the backend by what is installed, so a divergence changes results silently; the tests compare the two on one graph.",
     [TR + "methods/classic/label_propagation.py", TR + "methods/classic/label_spreading.py", TR + "methods/classic/laplace_learning.py", TR + "methods/classic/lazy_random_walk.py", TR + "methods/classic/dynamic_label_propagation.py", TR + "solvers/fixed_point.py", TR + "backends/torch_backend.py"],
     [("backend dispatch", TR + "methods/classic/label_propagation.py")],
     "2-3 nodes, 1-2 iterations; torch replaced by a symbolic stand-in, exact real arithmetic; every run is replayed on the real torch.")

GN = TR + "methods/gnn/"
GNF = [GN + m + ".py" for m in ("common", "appnp", "chebnet", "gat", "gcn", "gcnii", "grafn", "grand", "graphhop", "graphsage", "h_gcn", "n_gcn", "planetoid", "sgc")]
prop("T07", "A graph network's fit is decided by its seed and its data",
     "For all 13 graph neural methods a fit with a given seed and data gives the same initial weights, network inputs, losses and updates, and so the same predictions, whatever ran before: an earlier fit of the same object, on other data or on the same objects changed in place since, and whatever else used torch's random generator. "
     "Only the labels of training nodes enter the training loss, only those of validation nodes the validation loss, and hidden labels enter neither.",
     "Every feature matrix, hidden label, earlier generator state and earlier fit within the bounds, for every weights the layers may have.",
     "Reproducible seeds are what a benchmark of semi-supervised methods rests on and a leaked test label invalidates it; the tests fit each method once on one toy graph.",
     GNF, [("seeding and the cache of prepared data", GN + "common.py"), ("fit", GN + "gcn.py")],
     "4 nodes on a fixed graph, 1-3 epochs. A layer's output is free and shared between runs, its inputs and weight version are recorded: equal records mean equal runs for all weights.", over=("inputs", "histories"))
prop("T08", "Graph networks follow their equations and keep their best epoch",
     "Full-batch training resets, back-propagates, steps and validates once per epoch, stops after `patience` epochs without a better validation loss and predicts, in evaluation mode, with the weights of the earliest best epoch. "
     "GCN, GAT, SGC, APPNP, GRAND, GCNII, GraphSAGE, ChebNet and N-GCN outputs follow their published propagation rules on a weighted directed graph; repeated edges are summed, self loops added once, row-normalised weights and attention shares add up to one per node.",
     "Every order of validation losses and every feature matrix, edge list, weight and attention score within the bounds.",
     "A transposed adjacency or a missed tie changes every score without an error; the tests check shapes and one symmetric toy graph.",
     GNF, [("training loop and adjacency helpers", GN + "common.py"), ("attention", GN + "gat.py")],
     "3-4 epochs; 3 nodes with fixed weights in every layer, the outputs of non-linear functions are free and their inputs compared. Planetoid, GraFN, GraphHop and H-GCN are not compared with equations.")

prop("T09", "Transductive SVM trains and labels as scheduled",
     "TSVM first trains on the labelled samples, then once per round on every unlabelled sample labelled by the sign of its current score and on the labelled samples repeated as often as they outweigh them, the unlabelled weight growing tenfold up to its limit. "
     "When all unlabelled scores fall on one side and balancing is on, the lower scoring half is labelled negative and the rest positive. "
     "Training follows the subgradient of the regularised hinge loss, and a class is the likelier one when the final score is on its side.",
     "Every score of every sample after every training, hidden label, initial weight and sample order within the bounds.",
     "A label set from the wrong end of the ranking trains on inverted labels without any error.",
     [TR + "methods/classic/tsvm.py"], [("TSVMTransductiveMethod, _LinearSVM", TR + "methods/classic/tsvm.py")],
     "2-3 labelled and 0-4 unlabelled samples, up to 3 rounds; the trained machine is a stand-in with free scores, its training is checked separately for 1-2 epochs.")

IM = "src/modssc/inductive/methods/"
BR = IM + "helpers/classifier_bridge.py"
prop("I01", "Self-training pseudo-labels only what it may, with the current prediction",
     "Pseudo-labelling and self-training (numpy and torch) first train on the labelled samples, then per round add only still unlabelled samples whose score reaches the threshold (the most confident ones under a quota), each once, labelled as the current classifier predicts, and stop only at the round limit or when too few qualify. "
     "With groups, unconfident samples take their group's majority label only when the group is large and confident enough. Predictions and probabilities are those of the last classifier.",
     "Every score vector the classifier may give in every round, threshold, quota, minimum batch and group assignment within the bounds.",
     "A wrong mask or a stale index mislabels training data silently; the tests run real classifiers on a few well separated points.",
     [IM + "pseudo_label.py", IM + "self_training.py", BR],
     [("selection of confident samples", BR), ("group propagation", IM + "self_training.py")],
     "The wrapped classifier is any function (a stand-in whose scores are symbolic); 2 labelled and 2-3 unlabelled samples, 2 classes, <=2 rounds.")
prop("I02", "Co-training views teach each other correctly",
     "In co-training each classifier sees only its own view and starts from the labelled samples; per round each view hands the other at most k confident, highest scoring samples per class with its own predicted labels, no sample is used twice, and samples leave the pool once used. "
     "Predictions average the two views' scores.",
     "Every score vector of both views in every round and every threshold within the bounds, numpy and torch.",
     "Index bookkeeping between two views and a shrinking pool is easy to get wrong and invisible in accuracy tests.",
     [IM + "co_training.py", BR], [("top-k selection per class", BR)],
     "The wrapped classifiers are any functions; 2 labelled and 2-3 unlabelled samples, 2 classes, <=2 rounds.")
prop("I03", "Tri-training adds what the other two classifiers agree on",
     "Each of the three classifiers starts from a bootstrap of the labelled samples and gains exactly the unlabelled samples (most confident first under a quota) on whose class label the other two agree with enough confidence, with that label. "
     "Prediction is the class label of the highest score averaged over the classifiers, whatever the label values and whichever classes a bootstrap missed.",
     "Every bootstrap draw, score vector and threshold within the bounds, numpy and torch.",
     "Label values other than 0..k-1 and bootstraps that miss a class need specific draws.",
     [IM + "tri_training.py", BR], [("agreement and alignment", IM + "tri_training.py")],
     "The wrapped classifiers are any functions; 2 labelled and 1-2 unlabelled samples, <=2 rounds.")
prop("I04", "Democratic co-learning follows the weighted majority",
     "Learners are weighted by the midpoint of the confidence interval of their accuracy on the labelled data; a learner gains exactly the unlabelled samples on which it disagrees with a strict weighted majority, with the majority label, and only when the estimated benefit exceeds the estimated error. "
     "Class scores combine the eligible learners' weights with the group-size correction and predictions are their best class.",
     "Every prediction of every learner, confidence level and minimum confidence within the bounds, numpy and torch.",
     "The update rule has ties, clipping and empty groups that a few learners on toy data never reach.",
     [IM + "democratic_co_learning.py"], [("weighted majority", IM + "democratic_co_learning.py")],
     "3-4 learners, 4 labelled, 1-2 unlabelled samples, learners' predictions fixed across rounds; the normal quantile is symbolic.")
prop("I05", "SETRED edits out pseudo-labels with too many cut edges",
     "SETRED takes from the pool the most confident samples per class within that class's proportional share, and of these keeps exactly those whose weighted cut edges to differently labelled neighbours in the relative-neighbourhood or k-NN graph are not significantly many under random labels; kept samples leave the pool with their predicted label. "
     "A sample is never its own neighbour.",
     "Every score vector, threshold and quantile over listed layouts (with duplicate points), numpy and torch.",
     "The editing rule depends on graph geometry, duplicates and class proportions at once.",
     [IM + "setred.py", BR], [("cut edge filter", IM + "setred.py"), ("class shares", IM + "setred.py")],
     "2-3 labelled and 2-3 unlabelled points on a line at listed positions; scores, threshold and quantile symbolic.")
prop("I06", "S4VM keeps the baseline unless a candidate does better",
     "S4VM trains its baseline on the labelled samples only and each candidate on all labelled samples and every unlabelled one, of whose baseline labels the least confident share (candidate i: i+1 times flip_rate, at most half) is flipped to the other class. "
     "Predictions and probabilities are those of the first model with the highest accuracy on the labelled samples, hence the baseline's unless a candidate beats it.",
     "Every score vector of every classifier within the bounds, numpy and torch.",
     "The method is called safe for this rule; a wrong end of the ranking or comparison keeps all shapes.",
     [IM + "s4vm.py", BR], [("S4VMMethod", IM + "s4vm.py")],
     "2-3 labelled and 2-4 unlabelled samples of 2 classes, 0-3 candidates; no two unlabelled samples equally confident.")
PRE = "src/modssc/preprocess/"
PL = PRE + "services/pipeline.py"
prop("P01", "Preprocessing does not leak outside the fit set",
     "What a fittable preprocessing step (scaling, imputation, one-hot, PCA, whitening, vocabulary, random projection) learns depends only on the rows named by fit_indices: changing any other training row or the test split leaves the processed value of every unchanged row as it was. "
     "Labels never influence processed features.",
     "Every pair of datasets that agree on the fit rows, for each fittable built-in step.",
     "Leakage leaves all shapes and types right and raises scores, so no example test fails.",
     [PL, PRE + "steps/tabular/standard_scaler.py", PRE + "steps/tabular/impute.py", PRE + "steps/core/pca.py",
      PRE + "steps/vision/zca_whitening.py", PRE + "steps/text/vocab_tokenizer.py"],
     [("fit rows only", PL)],
     "Self-composition over 3-4 rows, 1-2 features; scikit-learn's scaler and imputer are replaced by exact stand-ins of their documented behaviour; SVD/eigendecomposition are uninterpreted functions of their input.")
prop("P02", "The preprocessing cache never changes a result",
     "preprocess() of a dataset with a recorded fingerprint returns the same values, types and shapes with a cache directory as without one, whatever other plans, seeds and fit rows were run before on that cache, whether or not unused artifacts are purged, and after any run was interrupted or a cached file was damaged. "
     "Cached values read back exactly as they were saved.",
     "Every pair of plans differing in one parameter, every crash point or failed call of a caching run, every kind of cached value within the bounds.",
     "A stale or torn cache entry needs a particular history of runs; tests run each plan once.",
     [PL, PRE + "cache.py", PRE + "fingerprint.py", PRE + "catalog.py"],
     [("step fingerprints and provenance", PL), ("atomic save, validation on load", PRE + "cache.py")],
     "Plans of up to 6 steps, one crash/fault/damage per history; SHA-256 is treated as injective; datasets without a recorded fingerprint are identified by shape only (documented) and are outside the property.",
     over=("inputs", "histories", "crash_points", "fault_sequences"))
prop("P03", "Each preprocessing step computes what it is documented to",
     "Built-in steps compute their documented transformation: two-dimensional features keep every sample's values in order, image steps move, repeat, pad, normalise and resample the right pixels, edge sparsification keeps a subset of the edges with their weights, tokenisers give equal words equal ids with a correct mask, fitted transforms map equal rows to equal rows. "
     "Label codes and one-hot columns denote the same label in the train and the test split. "
     "Inputs are not modified.",
     "Every pixel, feature, edge and label value over the listed shapes and parameters.",
     "Index and axis mistakes keep shapes right and only show on asymmetric inputs.",
     [PRE + "steps/vision/layout.py", PRE + "steps/vision/resize.py", PRE + "steps/graph/edge_sparsify.py",
      PRE + "steps/labels/encode.py", PRE + "steps/labels/ensure_onehot.py", PRE + "steps/core/ensure_2d.py",
      PRE + "steps/text/vocab_tokenizer.py"],
     [("layout rule", PRE + "steps/vision/layout.py"), ("label codes", PRE + "steps/labels/encode.py")],
     "Steps that call a pretrained model or audio library are not covered; arrays of up to 75 symbolic elements.")
prop("P04", "Preprocessing plans run as written and are identified by their fingerprint",
     "Exactly the enabled steps that fit the dataset's modality and whose required artifacts exist run, in plan order, fitted on the fit rows and applied to each split; the others are reported as skipped; a step's random numbers depend only on master seed, position and step id. "
     "Two runs share a preprocessing fingerprint exactly if dataset fingerprint, modality, plan, fit rows and seed agree, and a plan file reads back as the same plan.",
     "Every combination of enabled flags, modalities, required artifacts and other settings for plans within the bounds.",
     "The combinations are too many for examples and a wrong skip or seed is silent.",
     [PL, PRE + "plan.py", PRE + "fingerprint.py", PRE + "registry.py"],
     [("plan resolution", PL), ("fingerprints and step seeds", PRE + "fingerprint.py")],
     "Plans of up to 3 steps of 3 kinds (recording stand-in steps); SHA-256 treated as injective on symbolic content.",
     over=("inputs", "configurations"))

BE = "bench/"
OR_ = BE + "orchestrators/"
prop("B01", "Memory limits lower settings and change nothing else",
     "apply_limits() replaces exactly those batch, chunk and sample-count settings that exceed their cap by the cap, fills in a missing sample cap or graph chunk size where one applies, and leaves every other setting as it is. "
     "It reports one change per setting it altered, explicit limits take precedence over the profile's, and applying the same limits twice changes nothing more.",
     "Every value and every cap at each of the ten places a cap applies to, for each profile.",
     "One missed place or a comparison the wrong way round silently changes the benchmark; examples cover few places.",
     [BE + "limits.py"], [("apply_limits", BE + "limits.py")],
     "A fixed configuration shape with ten settings, values 1..2000; the auto profile (reads the GPU) is excluded.",
     over=("inputs", "configurations"))
prop("B02", "Benchmark stages hand over exactly the sampled rows",
     "In the benchmark runner, the method is given exactly the rows, views and labels that the sampling result names as labelled, and the unlabelled rows without labels; a transductive method may train only on labelled nodes. "
     "Scores named after a split are computed on that split's rows, from the dataset the sampling refers to, by comparing predicted with true labels. "
     "Graphs built with and without the test nodes are different graphs, cached apart.",
     "Every set of row indices in every order, every label and every answer of a method within the bounds.",
     "An index of the wrong table, or of the right table in the wrong order, still gives plausible scores.",
     [OR_ + "slicing.py", OR_ + "method_inductive.py", OR_ + "method_transductive.py", OR_ + "evaluation.py", OR_ + "graph.py"],
     [("select_rows", OR_ + "slicing.py"), ("inductive data", OR_ + "method_inductive.py"),
      ("masks", OR_ + "method_transductive.py"), ("scores", OR_ + "evaluation.py")],
     "3-5 rows; the method is a stand-in that records its input and answers from a symbolic table; graphs with node attributes selected through torch_geometric are excluded; validation and test labels stay in the transductive data object (only the training mask is restricted).")
prop("B03", "Model selection picks the best trial on the selection split",
     "A hyper-parameter search runs every trial the stated number of times with different seeds on its parameters merged over the base configuration within the configured limits, and chooses the first trial whose mean score on the stated split and metric is best in the stated direction; trials without a score are chosen only when there is no other. "
     "A trial's score uses only the rows of the stated split. "
     "The recorded trials, best score and best parameters are those observed.",
     "Every score of every trial and repeat (missing scores included) for up to 4 trials; every label and answer for the objective.",
     "Ties, NaN scores and directions give wrong choices only for particular score patterns.",
     [OR_ + "hpo.py", "src/modssc/hpo/space.py", "src/modssc/hpo/samplers.py"],
     [("run_hpo", OR_ + "hpo.py"), ("trial order", "src/modssc/hpo/samplers.py")],
     "2-4 trials, 2-3 repeats; scores are symbolic reals (exact arithmetic).",
     over=("inputs", "configurations"))
prop("B04", "Runs and sweeps report exactly what happened",
     "A seed sweep runs once per requested seed, with that seed in every configuration section and nothing else changed; its summary counts each outcome, aggregates exactly the successful runs' metrics, and the exit code is non-zero when a run failed. "
     "A run always gets a directory of its own: nothing existing is reused or overwritten, even if another run starts at the same moment.",
     "Every combination of outcomes and metric values of 3 runs; every interleaving of two starting runs with up to 2 preemptions; every set of occupied names.",
     "Mixed outcomes and simultaneous starts do not occur in unit tests.",
     [BE + "main.py", OR_ + "reporting.py", BE + "seed_sweep.py", BE + "context.py"],
     [("run_experiment", BE + "main.py"), ("sweep summary", OR_ + "reporting.py"), ("run directory", BE + "context.py")],
     "3 seeds; a single run is replaced by a stand-in with a symbolic outcome; the library's standard deviation is checked for its arguments only.",
     over=("inputs", "histories", "schedules"))
prop("B05", "A benchmark run reports its method's accuracy on rows it did not learn from",
     "A complete run (loading, sampling, preprocessing, optional search, training, evaluation, report) reports for every split the accuracy of the method it trained with the configured or selected parameters on the sampled rows of that split, and the rows it is scored on are neither among the labelled nor the unlabelled rows an inductive method learned from, nor in a transductive method's training mask. "
     "A run in which a stage fails is reported as failed, with the reason and without metrics, and its exit code or exception says so.",
     "Every label, every answer of the method and every random draw on datasets of 4-5 samples; every stage failing, with and without fail_fast.",
     "Leakage between stages shows only as a better score.",
     [BE + "main.py", OR_ + "sampling.py", OR_ + "method_inductive.py", OR_ + "method_transductive.py", OR_ + "evaluation.py"],
     [("_run_experiment_single", BE + "main.py")],
     "4-5 training and 0-2 test samples; dataset loading, version collection and the method are stand-ins; unlabelled data of transductive methods is the whole graph by design.",
     over=("inputs", "configurations", "fault_sequences"))

AU = "src/modssc/data_augmentation/"
prop("A01", "Augmentation is a pure function of sample and context",
     "Applying an augmentation pipeline to a sample in the same context (seed, epoch, sample id) gives the same result again, whatever was augmented before, on NumPy and on torch input, and leaves the sample as it was. "
     "Contexts that differ in seed, epoch or sample id have random streams of their own. "
     "A pipeline applies its plan's steps in order with their parameters and rejects steps of another modality.",
     "Every value, every draw and anything augmented in between, for each built-in operation; every pair of contexts within the bounds.",
     "Hidden global state and aliasing only show in a second call.",
     [AU + "api.py", AU + "utils.py", AU + "ops/tabular.py", AU + "ops/graph.py", AU + "ops/text.py", AU + "ops/vision.py", AU + "ops/audio.py"],
     [("stream per context", AU + "utils.py"), ("pipeline", AU + "api.py")],
     "Samples of 3-4 elements, pipelines of 1-3 steps; random generators with equal seeds give equal streams, all else about a stream is arbitrary.",
     over=("inputs", "histories", "configurations"))
prop("A02", "Augmentation operations do what they say",
     "Dropout and masking keep or zero each feature or token with the asked probability and leave padding alone; swaps permute tokens or words; edge dropout keeps whole edges in order with their weights and everything else about the graph; flips mirror the width, cut-outs fill squares of the asked size, crops shift by at most the padding with mirrored borders, time shifts are circular and bounded; noise is added with the asked scale. "
     "Shapes are kept, inputs are not modified, and probability or size zero changes nothing. "
     "NumPy and torch input give the same kind of result in every layout.",
     "Every element value and every draw over the listed shapes, layouts and parameters.",
     "Off-by-one and axis mistakes need particular draws and asymmetric inputs.",
     [AU + "ops/tabular.py", AU + "ops/graph.py", AU + "ops/text.py", AU + "ops/vision.py", AU + "ops/audio.py", AU + "ops/common.py"],
     [("operations", AU + "ops")],
     "Arrays of up to 45 elements; image layouts are those the documented shape heuristic recognises; the uniform and normal generators are the harness's symbolic draws.")
prop("A03", "The runner augments every unlabelled sample on its own",
     "In the benchmark runner the weak and strong views of a sample are those of the weak and strong plan in the context given by seed and sample number: they depend on nothing else, in particular not on which other samples are present or in which order. "
     "Every view has one row per sample, in the order of the samples, and a second strong view has a random stream of its own.",
     "Every subset and order of 3 samples, every value and draw.",
     "Batch effects vanish in tests that augment one fixed batch.",
     ["bench/orchestrators/augmentation.py", AU + "api.py"],
     [("run", "bench/orchestrators/augmentation.py")],
     "3 samples of 1-2 features, tabular operations on NumPy and torch input.")

prop("K01", "k nearest neighbours votes with the nearest training rows",
     "For every query the k-NN baselines (NumPy and torch) give one probability per known class, in increasing label order, that is the share of votes (or of inverse-distance weights) of the min(k, n) training rows nearest in the chosen metric; the shares are non-negative and sum to one. "
     "The predicted label is a class of largest share, predict_scores and predict_proba agree, and with distance weights a strictly closer row weighs more. "
     "A query's answer does not depend on the batch size or on the other queries.",
     "Every training set and query on a small grid with ties and duplicates, every real query around fixed training rows.",
     "Vote counting, partial sorting and batching go wrong at ties, at k larger than n and at batch borders.",
     ["src/modssc/supervised/backends/numpy/knn.py", "src/modssc/supervised/backends/torch/knn.py"],
     [("NumpyKNNClassifier", "src/modssc/supervised/backends/numpy/knn.py"), ("TorchKNNClassifier", "src/modssc/supervised/backends/torch/knn.py")],
     "3-4 training rows, 1-3 queries, k 1-5; floats are exact reals; among rows at equal distance any may be taken.")

prop("K02", "Supervised training is a function of seed and data",
     "Fitting a torch classifier twice with the same seed, settings and data gives the same initial weights, the same batches and the same random draws, whatever was drawn from the global generators before. "
     "Creating a classifier picks the first available backend in the registry's documented order when none is named, refuses unknown identifiers, and the seed and n_jobs of the runtime reach every registered classifier.",
     "Every value of seed, data and earlier random draws; every subset of installed backends.",
     "A layer created before seeding, or a loader on the global generator, is reproducible inside one test but not in a real run.",
     ["src/modssc/supervised/backends/torch", "src/modssc/supervised/api.py", "src/modssc/supervised/registry.py"],
     [("fit", "src/modssc/supervised/backends/torch"), ("create_classifier", "src/modssc/supervised/api.py")],
     "logreg, mlp, text, image and audio CNNs, LSTM and scratch audio CNN; network layers, optimisers and loaders are stand-ins that draw from torch's global stream exactly where the real ones do; pretrained backbones and graph networks (need torch_geometric) are outside.",
     over=("inputs", "configurations"))

prop("K03", "Supervised classifiers answer in the caller's labels",
     "Whatever integer labels a classifier was trained on (gaps and negative values included), its classes are the distinct training labels, the columns of its scores and probabilities follow that order, and predictions are training labels of the best column. "
     "Encoding labels and decoding the codes gives the labels back.",
     "Every label vector, every score the wrapped estimator or network can give.",
     "Position-versus-label mix-ups show only when labels are not 0..K-1.",
     ["src/modssc/supervised/backends/sklearn", "src/modssc/supervised/backends/torch", "src/modssc/supervised/utils.py"],
     [("predict", "src/modssc/supervised/backends/sklearn"), ("predict", "src/modssc/supervised/backends/torch"), ("encode_labels", "src/modssc/supervised/utils.py")],
     "2-5 training labels in -3..5, 1-3 queries; scikit-learn estimators and torch networks are stand-ins with arbitrary outputs.")

IM = "src/modssc/inductive/methods"
prop("L01", "Batching, sharpening and joining lose nothing",
     "Every pass of the deep methods' batch iterator visits each row exactly once, with its own label and per-row fields, in batches of the requested size, for exactly the requested number of steps. "
     "Sharpened probabilities stay a distribution with the same ranking and with odds raised to 1/temperature; concatenated graphs are their disjoint union with each edge keeping its weight and each node its fields. "
     "Predictions of a deep method are the network's own row-wise softmax in evaluation mode, in input order, independent of the batch size, and leave the network's training mode as found.",
     "Every shuffle, row, label, probability, edge, weight and network output.",
     "Off-by-one ends of a pass, rows parted from their labels, or an evaluation left in the wrong mode change training silently.",
     [IM + "/helpers/torch_support.py"],
     [("cycle_batches", IM + "/helpers/torch_support.py"), ("concat_data", IM + "/helpers/torch_support.py"), ("predict_proba_from_bundle", IM + "/helpers/torch_support.py")],
     "1-4 rows, batches of 1-5, up to three passes; temperatures 1, 1/2 and 1/3; two graphs of 1-3 nodes; slicing of edge_index needs torch_geometric and is outside.",
     over=("inputs", "configurations"))

prop("L02", "Pseudo-labelling deep methods follow the gradient of their loss",
     "At every training step of FixMatch, DeFixMatch, FlexMatch, FreeMatch, AdaMatch, SoftMatch, UDA and Noisy Student the loss handed to the optimiser has the gradient, in the network's outputs, of the method's published loss: supervised cross-entropy (annealed in UDA) plus lambda_u times the divergence of the strong view's prediction from the hard, sharpened or soft target. "
     "The weak view (or teacher) is only a constant target unless detach_target is off, the confidence mask or weight is taken from it, averages are over the documented counts, and thresholds, class estimates, alignment and warm-up follow their running definitions. "
     "Weak and strong views are paired row by row, gradients are cleared before and one optimiser update follows each backward pass.",
     "Every label vector and every probability row any network could output, for every step of short runs.",
     "A missing detach, a mask from the wrong view, swapped views or a wrong denominator trains without any error.",
     [IM],
     [(f, IM + "/" + g + ".py") for f, g in (("FixMatchMethod", "fixmatch"), ("DeFixMatchMethod", "defixmatch"), ("FlexMatchMethod", "flexmatch"), ("FreeMatchMethod", "free_match"),
                                              ("AdaMatchMethod", "adamatch"), ("SoftMatchMethod", "softmatch"), ("UDAMethod", "uda"), ("NoisyStudentMethod", "noisy_student"))],
     "1-2 labelled and 1-2 unlabelled samples, 2-3 classes, 1-4 steps, class probabilities in [0.02, 0.96]; networks, optimisers and autograd are stand-ins (outputs are free variables, once differentiable and once constant); exact ties between real-valued scores and guards of at most 1e-9 inside logarithms are left aside.",
     over=("inputs", "histories"))
prop("L04", "Consistency deep methods follow the gradient of their loss",
     "At every training step of Mean Teacher, Pi-Model, Temporal Ensembling, MixMatch and VAT the loss handed to the optimiser has the gradient, in the network's outputs, of the method's published loss: supervised cross-entropy plus lambda_u times the warm-up factor times the consistency term, whose target (teacher, other view, bias-corrected ensemble, sharpened average, clean prediction) is constant unless detach_target is off. "
     "Views are paired row by row, gradients are cleared before and one optimiser update follows each backward pass. "
     "Mean Teacher's teacher starts as the student and follows its exponential average; MixMatch mixes inputs and targets alike, each row led by its own kind; VAT's perturbation has length eps.",
     "Every label vector and every probability row any network could output, for every step of short runs.",
     "A missing detach, a wrong ensemble row, swapped views or a wrong denominator trains without any error.",
     [IM],
     [(f, IM + "/" + g + ".py") for f, g in (("MeanTeacherMethod", "mean_teacher"), ("PiModelMethod", "pi_model"), ("TemporalEnsemblingMethod", "temporal_ensembling"),
                                              ("MixMatchMethod", "mixmatch"), ("VATMethod", "vat"))],
     "1-2 labelled and 1-2 unlabelled samples, 2-3 classes, 1-4 steps, class probabilities in [0.02, 0.96]; networks, optimisers and autograd are stand-ins (outputs are free variables, once differentiable and once constant); exact ties between real-valued scores and guards of at most 1e-9 inside logarithms are left aside.",
     over=("inputs", "histories"))
prop("L05", "Adaptive and meta-learned methods follow their losses",
     "ADSH renews one threshold per class at the start of every epoch after its warm-up, so that each class keeps the share of confident samples the majority class keeps at p_cutoff and never more than p_cutoff, and optimises supervised cross-entropy plus lambda_u times the hard-label cross-entropy of the samples passing it. "
     "Meta Pseudo Labels trains the student on the teacher's soft labels of the strong view and the teacher on its smoothed supervised loss, thresholded consistency and the entropy term weighted by the student's labelled loss after minus before its update, less its moving average.",
     "Every label vector and every probability row the networks could output within the bounds.",
     "Thresholds, signs and stale outputs change what is learnt, not shapes.",
     [IM], [("ADSHMethod", IM + "/adsh.py"), ("MetaPseudoLabelsMethod", IM + "/meta_pseudo_labels.py")],
     "As L02: 1-2 labelled and 1-2 unlabelled samples, 2-3 classes, 1-2 steps of each network.", over=("inputs", "histories"))
prop("L03", "A deep fit depends on its seed and data only",
     "Two fits of a deep inductive method (FixMatch, DeFixMatch, FlexMatch, FreeMatch, AdaMatch, SoftMatch, UDA, Noisy Student, Mean Teacher, Pi-Model, Temporal Ensembling, MixMatch, VAT, ADSH, Meta Pseudo Labels) with equal settings, seed and data show the network the same batches in the same order, the same mixed inputs and the same initial perturbations, whatever was drawn from the process-wide NumPy and torch generators before. "
     "A second fit of the same method object optimises what a first fit would: running thresholds, class estimates, ensembles and warm-up start afresh.",
     "Every seeded and ambient draw; every label and network output.",
     "State or draws shared between fits make reported results irreproducible without failing anything.",
     [IM],
     [("fit", IM + "/" + g + ".py") for g in ("fixmatch", "flexmatch", "free_match", "adamatch", "softmatch", "mixmatch", "vat", "temporal_ensembling", "mean_teacher")],
     "2 labelled and 2 unlabelled samples in batches of 1 for 2-4 steps; two successive fits of 1-2 steps with 1 labelled and 1 unlabelled sample; the methods and stand-ins of L02, L04 and L05; draws made inside the user's network (dropout) belong to the user.",
     over=("inputs", "histories"))

prop("C01", "Configurations mean what they say",
     "An experiment configuration holds, in every section, the written value of every key and the documented default of every key left out; keys nobody reads and values outside the documented words or ranges are refused, and what was written is not modified. "
     "Graph construction and featurization specifications are accepted exactly when their settings make sense and survive their dictionary form unchanged. "
     "A views plan is accepted exactly when it has at least two views with distinct names, valid selectors, and complements of earlier views.",
     "Every combination of present keys in one section, every listed word, every number.",
     "A default or a check that is wrong for one combination of keys silently runs another experiment than the one written down.",
     ["bench/schema.py", "src/modssc/graph/specs.py", "src/modssc/views/plan.py"],
     [("experiment sections", "bench/schema.py"), ("graph specifications", "src/modssc/graph/specs.py"), ("views plans", "src/modssc/views/plan.py")],
     "One section of the experiment configuration at a time (the others minimal); strings out of small word lists; at most 3 views.", over=("configurations", "inputs"))

prop("M01", "Method inputs are checked completely and handed over unchanged",
     "A node dataset is accepted by the transductive methods exactly when labels fit the features, class ids are whole numbers without gaps from zero (negative: unlabelled), every edge joins existing nodes and every mask has one entry per node. "
     "A bundle of labelled and unlabelled rows is accepted by the inductive methods, as arrays and as tensors, exactly when every part has rows of the labelled width, there is one label per labelled row and weak and strong views pair up. "
     "What is accepted is handed over unchanged.",
     "Every label vector, edge list and combination of present parts within the bounds.",
     "A method run on parts that do not fit computes something else without failing; tests try one fault at a time on one size.",
     ["src/modssc/transductive/validation.py", "src/modssc/inductive/validation.py", "src/modssc/inductive/adapters/numpy.py", "src/modssc/inductive/adapters/torch.py"],
     [("node datasets", "src/modssc/transductive/validation.py"), ("array bundles", "src/modssc/inductive/adapters/numpy.py"), ("tensor bundles", "src/modssc/inductive/adapters/torch.py")],
     "At most 4 nodes, 2 edges, 3 rows; one fault of the structural kind at a time; CPU tensors.")
