prop(
    "C05",
    "Zero-weighted data and the scale of the weights do not influence the selection",
    "Solvers that are padding-invariant (kernel herding, Stein thinning, regularised or not) select the same points when zero-weighted rows of any value are inserted anywhere in the dataset, and when all weights are multiplied by a positive constant; a zero-weighted row is never selected. Unsupervised solvers are not influenced by responses.",
    ["inputs", "configurations"],
    "all weighted datasets, all inserted zero-weighted rows (positions and values), all positive rescalings; identity up to choices tied within rounding",
    "The tests append a few rows of zeros to one dataset and use one seed; copies of data, outliers or rows in the middle and rescaled weights are not tried.",
    [S, "coreax/solvers/base.py"],
    [("PaddingInvariantSolver contract", "coreax/solvers/base.py"), ("_greedy_kernel_selection", S)],
)
prop(
    "C06",
    "Map-reduce covers every data point and merges to a solution for the whole data",
    "Map-reduce returns a coresubset of the original dataset with original row indices, whatever the data size, leaf size, tree type and coreset size. With a base solver for which merging is exact (selecting the m largest values) it returns exactly that solver's solution on the whole data, every data point entering some partition; if the data fits in one leaf it equals the base solver applied directly. It terminates for every admissible size.",
    ["inputs", "configurations"],
    "all dataset sizes, leaf sizes, coreset sizes, tree types, point sets and weights",
    "The tests use one dataset and two leaf sizes; index bookkeeping across partitions, padding and recursion levels only fails for particular sizes.",
    ["coreax/solvers/composite.py", "coreax/util.py"],
    [("MapReduce.reduce, _jit_tree", "coreax/solvers/composite.py"), ("tree_zero_pad_leading_axis", "coreax/util.py")],
)
prop(
    "C07",
    "Greedy kernel points minimises the ridge-regression loss at every step",
    "Each point chosen by greedy kernel points minimises, over the candidates (the unused points if unique is requested), the sum of squared residuals over the loss points of kernel ridge regression fitted on the current coreset plus the candidate with the given regularisation; without batching candidates and loss points are the whole dataset, with batching they are a random subset of the configured size. This holds for reduction and slot by slot for refinement.",
    ["inputs", "configurations", "histories"],
    "all supervised datasets, kernels, regularisation parameters, batch sizes, least-squares solvers, initial coresubsets and random keys",
    "The tests compare one small analytic example and check the loss on one dataset.",
    [S],
    [("GreedyKernelPoints.refine, _setup_batch_solver, _greedy_kernel_points_loss", S)],
)
prop(
    "C08",
    "Kernel thinning halves fairly, keeps the best candidate and never worsens it",
    "Kernel halving (of an even number of points) splits consecutive pairs of points, one into each half, following the documented swap law (probabilities and adaptive thresholds of the square-root kernel). Recursive halving partitions the retained points into candidates of exactly the requested size with the original row indices; the chosen coreset is the candidate or baseline of least MMD to the data, and the result's MMD is not larger for a kernel with constant diagonal. Compress++ returns a valid coresubset of distinct points and rejects inadmissible oversampling parameters and sizes with an error.",
    ["inputs", "configurations"],
    "all datasets, sizes (powers of two or not), kernels, deltas and random keys",
    "The tests fix one seed and dataset and check that the MMD beats a random sample; a biased swap law or a wrong candidate choice goes unnoticed.",
    [S],
    [("KernelThinning.kt_half / kt_half_recursive / kt_choose / kt_refine", S), ("CompressPlusPlus.reduce", S)],
)
prop(
    "C09",
    "RPCholesky samples pivots from the residual diagonal",
    "Each pivot of randomly pivoted Cholesky is drawn with probability proportional to the current diagonal of the residual kernel matrix (after projecting out the pivots chosen so far), so that the joint law of the selection is the documented one; with unique points requested, no index repeats even when the kernel matrix is rank deficient or points coincide. The returned state is the residual diagonal for the chosen pivots.",
    ["inputs", "configurations"],
    "all datasets including coincident points and low-rank kernels, kernels, coreset sizes and random keys",
    "The tests run one seed on one dataset and check only the MMD against random sampling.",
    [S],
    [("RPCholesky.reduce", S)],
)
prop(
    "C10",
    "Recombination preserves the centre of mass with few non-negative weights",
    "Recombination (Caratheodory and tree) returns a coresubset with non-negative weights summing to one whose weighted mean of the test functions equals that of the normalised dataset, with at most as many positively weighted points as the rank of the push-forward augmented with the constant function. All of this holds up to rounding error, for weights spread over many orders of magnitude too. Indices with positive weight are distinct (for data whose rank and smallest weight are clear of rounding error) and belong to positively weighted rows. The implicit-explicit, implicit and explicit modes return the documented sizes for the same measure.",
    ["inputs", "configurations"],
    "all weighted datasets (coincident, collinear, rank deficient, with zero weights), test functions, tree factors, rcond settings and modes",
    "The tests use random full-rank data with a few sizes; rank deficiency, repeated points, tiny weights and odd tree sizes are not explored.",
    ["coreax/solvers/recombination.py"],
    [("CaratheodoryRecombination, TreeRecombination, _co_linearize, _prepare_tree, _centroid", "coreax/solvers/recombination.py")],
)
prop(
    "C16",
    "Weights optimisers return the optimal weights for their objective",
    "SBQ weights solve the regularised kernel system whose right-hand side is the weighted kernel mean of the dataset at the coreset points. MMD weights lie on the probability simplex and no other point of the simplex has a smaller quadratic objective (for kernel systems that are well-conditioned in the working precision), so the MMD of the reweighted coreset is not larger than with uniform or any other normalised weights. Solving the weights of a coreset changes its weights only; supervised data is rejected.",
    ["inputs", "configurations"],
    "all weighted datasets and coresets, kernels, regularisation values and block sizes",
    "The tests use one analytic example, all weights equal to one.",
    ["coreax/weights.py", "coreax/coreset.py"],
    [("SBQWeightsOptimiser, MMDWeightsOptimiser, solve_qp, _prepare_kernel_system", "coreax/weights.py"), ("solve_weights", "coreax/coreset.py")],
)
prop(
    "C17",
    "Score estimates are gradients of the log-density they are documented to match",
    "Kernel density matching returns the gradient of the logarithm of the Gaussian kernel density of its data at any point or batch of points, in the input's shape. Sliced score matching minimises the documented sliced objective on the data and random projections, returns a function of the documented shape, and is deterministic in its key. Conversion to a Stein kernel keeps a given Stein kernel, replaces its score when a score-matching method is given, and otherwise estimates the score by kernel density matching of the data with the kernel's own length scale, or one if it has none.",
    ["inputs", "configurations"],
    "all datasets, length scales, query points and score-matching settings",
    "The tests compare with an analytic univariate score at a loose tolerance.",
    ["coreax/score_matching.py", "coreax/kernels/scalar_valued.py"],
    [("KernelDensityMatching.match, SlicedScoreMatching, convert_stein_kernel", "coreax/score_matching.py")],
)
prop(
    "C18",
    "Kernel approximations and least-squares solvers are exact where documented",
    "Approximate kernels evaluate exactly as their base kernel; their approximate row mean is a fit by kernel features, exact whenever the features span the mean (finite-rank kernels, or as many kernel points as data). The regularised least-squares solvers return the solution of the regularised symmetric system for any right-hand side, masking identity and stack; the randomised eigendecomposition reproduces matrices of rank within its range. Inadmissible point counts are rejected.",
    ["inputs", "configurations"],
    "all datasets, kernels, feature and training counts, random keys, symmetric matrices, right-hand sides, regularisation values",
    "The tests check a loose error bound for one seed.",
    ["coreax/approximation.py", "coreax/least_squares.py"],
    [("MonteCarlo/ANNchor/Nystrom gramian_row_mean", "coreax/approximation.py"), ("solve / solve_stack / randomised_eigendecomposition", "coreax/least_squares.py")],
)
prop(
    "C19",
    "Data and coreset containers keep points, responses, weights and rows aligned",
    "Building data or supervised data from arrays of any admissible shape gives two-dimensional points (and responses) with one weight per row; scalar weights broadcast and missing weights are ones. Indexing selects the same rows of points, responses and weights; normalisation divides by the sum of weights, and may keep all-zero weights; conversion to an array gives the points. Coresets refer to their original data, a coresubset's points are the rows at its indices with the coreset's own weights, and mismatched lengths or a coreset larger than its data are rejected.",
    ["inputs", "histories"],
    "all shapes, dtypes, weights, index expressions and sequences of container operations",
    "The tests sample a few shapes and slices.",
    ["coreax/data.py", "coreax/coreset.py"],
    [("Data, SupervisedData, as_data, _atleast_2d_consistent", "coreax/data.py"), ("Coreset, Coresubset, build, points, compute_metric", "coreax/coreset.py")],
)
prop(
    "C20",
    "Results are deterministic, JIT-independent and inputs are never modified",
    "Running any solver twice with the same data, options and key gives the same coreset; compiled and eager execution agree up to ties within rounding; for herding, Stein thinning and greedy kernel points, passing back the state returned for the same data gives the same coreset as computing it afresh; data, kernels, solvers and initial coresets passed in are unchanged afterwards.",
    ["inputs", "configurations", "histories"],
    "all solvers, options, datasets, keys, and sequences of reductions and refinements",
    "The tests compare a single call with stored values; hidden state, key reuse and order dependence need repeated and interleaved calls.",
    ["coreax/solvers/coresubset.py", "coreax/solvers/base.py", "coreax/solvers/recombination.py", "coreax/solvers/composite.py"],
    [("reduce / refine of all solvers", "coreax/solvers")],
)
prop(
    "C21",
    "Inadmissible configurations are rejected instead of giving a wrong result",
    "Solvers, kernels, metrics and least-squares solvers reject inadmissible parameters (non-positive sizes, coreset larger than the data, non-positive length scales, negative degrees, invalid modes, mismatched data) with a ValueError or TypeError, and accept every admissible one.",
    ["inputs", "configurations"],
    "all parameter values, admissible and not, of every public constructor and reduction",
    "The tests try one or two invalid values per class.",
    ["coreax/kernels/base.py", "coreax/kernels/scalar_valued.py", "coreax/solvers/base.py", "coreax/solvers/coresubset.py", "coreax/solvers/recombination.py", "coreax/solvers/composite.py", "coreax/least_squares.py", "coreax/approximation.py"],
    [("__check_init__ methods and reduce-time checks", "coreax")],
)
prop(
    "C22",
    "Random sampling follows the requested distribution",
    "Random sampling draws the requested number of points uniformly, or with probability proportional to the data weights when weighted, without replacement when unique points are requested and independently with replacement otherwise; zero-weighted points are never drawn by weighted sampling.",
    ["inputs", "configurations"],
    "all dataset sizes, coreset sizes, weights, options and random keys",
    "The tests check sizes and uniqueness for one key; the law over keys is not checked.",
    [S],
    [("RandomSample.reduce", S)],
)
prop(
    "C23",
    "Numerical utilities behave as documented on all inputs",
    "Pairwise application evaluates a function on every pair of rows for arguments of any admissible rank; squared distances and differences are exact; batch sampling gives distinct in-range indices within each batch, uniformly; padding appends zeros to every leaf; leaf repetition, the negative-precision threshold, the median heuristic and time formatting follow their documentation.",
    ["inputs"],
    "all shapes, values, batch sizes and random keys",
    "The tests check a few examples each.",
    ["coreax/util.py", "coreax/kernels/util.py"],
    [("pairwise, squared_distance, sample_batch_indices, tree_*, apply_negative_precision_threshold, format_time", "coreax/util.py"), ("median_heuristic, _block_data_convert", "coreax/kernels/util.py")],
)
prop(
    "C24",
    "The benchmark solver suite consists of the documented solvers",
    "The benchmark utilities build, for a dataset, key, oversampling parameter and optional leaf size, one solver per documented name: each gives the coresubset of the documented solver built by hand (squared exponential kernel with the median-heuristic length scale, the given key, the documented options, Stein score by kernel density estimation), wrapped in a map-reduce exactly when a leaf size is given (never random sampling, RP Cholesky or Compress++). Iterative herding equals the iterated reduction of kernel herding for any iteration count, temperature schedule and cached state; the thinning delta of a data size follows its documented formula.",
    ["inputs", "configurations"],
    "all datasets, data sizes, keys, oversampling parameters, leaf sizes, iteration counts and temperature schedules",
    "The tests build the suite for one dataset and only check the types of the solvers.",
    ["coreax/benchmark_util.py", "coreax/solvers/coresubset.py"],
    [("calculate_delta, initialise_solvers, IterativeKernelHerding", "coreax/benchmark_util.py")],
)
