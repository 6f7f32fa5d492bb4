"""The properties: statements for properties.jsonl, explanations for the evidence, notes for MANIFEST.json."""
P = {}
NA = {}
ORDER = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, observe=()):
    P[pid] = dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=list(observe))
    ORDER.append(pid)


def na(pid, title, statement, over, text, why, files, mech, reason):
    prop(pid, title, statement, over, text, why, files, mech, None, None)
    NA[pid] = reason


def explain(pid):
    """what a check of this property analyses"""
    p = P.get(pid)
    return "Static analysis (%s) over the source: %s. %s" % (p["technique"], p["text"], p["note"]) if p else "static analysis"


ABS = "path-sensitive abstract interpretation of the resolved program (term domain, loop summaries)"
TRUST = (" Trusts the clang front end, the fact extractor and the abstract interpreter; standard-library calls are modelled, "
         "floating-point expressions are compared as real-number algebra.")

prop("O01", "Each optimisation iteration evaluates, checks, records and publishes one design",
     "In every iteration of an optimisation run the proposed design is evaluated by the objective and by every constraint exactly once, and "
     "only then NaN-checked, judged for feasibility, given its improvement value and recorded in the objective's training data, in the training "
     "data of every data-driven constraint and in the optimisation history. After that, and before the next iteration or the end of the run, the "
     "best design of the recorded history is determined again and saved to the optimum XML file. A design whose objective or constraint value is "
     "NaN is never recorded.",
     ["histories", "configurations"], "all runs: any number of iterations, any constraints, objective kinds and settings",
     "The stable tests run three fixed studies end to end and only look at the final optimum; orderings on rarely taken paths (no constraint, "
     "user-defined constraint, zoom step) are not observed.",
     ["src/Optimizers/optimization.cpp", "src/Optimizers/efficient_global_optimization.cpp", "src/Design/design.cpp"],
     [("optimisation loop", "Optimizer::performEfficientGlobalOptimization"), ("NaN check", "Design::checkIfHasNan")],
     "typestate over the optimisation loop, " + ABS,
     "Every path of the optimisation loop satisfies the typestate, for any number of iterations." + TRUST,
     ["training data files", "optimizationHistory.csv", "globalOptimum.xml"])

prop("O02", "The number of objective evaluations equals the configured budget",
     "A completed optimisation run makes exactly as many evaluations of the objective function as the configured maximum number of samples, one "
     "per iteration. A run whose maximum is zero (never configured) is refused before anything is evaluated.",
     ["configurations", "histories"], "every configured maximum and every course of the run",
     "The tests use one budget per study and never count evaluations.",
     ["src/Optimizers/optimization.cpp", "src/Optimizers/efficient_global_optimization.cpp"],
     [("iteration counter against maxNumberOfSamples", "Optimizer::performEfficientGlobalOptimization")],
     "counter/guard analysis of the optimisation loop, " + ABS,
     "The loop's counter, guard and exits are compared with the configured maximum on all paths." + TRUST,
     ["objective executable calls"])

prop("O03", "The reported optimum is the best feasible row of the history",
     "The global optimum kept after each iteration is the row of the optimisation history with the smallest objective value among the rows marked "
     "feasible; only if no row is feasible is it the row with the smallest objective value of all. "
     "Its parameters, objective value, constraint values, improvement value and identifier (row index) are those of that row, it is marked feasible exactly when a feasible row was found, and "
     "the XML file saved names its identifier, objective value, every parameter, every constraint value and its feasibility.",
     ["histories", "inputs"], "every history matrix",
     "Tests check the optimum of three studies; ties, infeasible-only histories and constraint columns are not exercised.",
     ["src/Optimizers/globalOptimalDesign.cpp", "src/Design/design.cpp"],
     [("selection", "GlobalOptimalDesign::setGlobalOptimalDesignFromHistoryFile"), ("XML", "GlobalOptimalDesign::saveToXMLFile")],
     "fold recognition and decision-table equivalence on loop summaries, " + ABS,
     "Proves the selection loop and the copied fields for every history." + TRUST,
     ["globalOptimum.xml"])

prop("O04", "History rows hold the design's values in fixed columns",
     "Each history row holds, in this order, the design's parameters, its objective value, one column per constraint, its improvement value and its "
     "feasibility (1 or 0); a new design is appended as one such row below the unchanged earlier rows, and the file is rewritten with a header naming the columns in that order. "
     "The initial rows are made from the objective's training samples: constraint values come from the matching sample of the constraint's own data "
     "(or from calling a user-defined constraint), a missing match counts as violated, and with constraints a row is feasible exactly when all its constraints and the box constraints hold.",
     ["histories", "inputs", "configurations"], "every design, every training data set, any number of parameters and constraints",
     "The history is only written, never compared, by the tests.",
     ["src/Optimizers/optimization_history.cpp", "src/Optimizers/optimization.cpp"],
     [("row", "OptimizationHistory::updateOptimizationHistory"), ("initial rows", "Optimizer::setOptimizationHistoryData")],
     "array-content analysis (segment summaries + linear arithmetic), " + ABS,
     "Every column of new and initial rows is proved for symbolic dimension and number of constraints." + TRUST,
     ["optimizationHistory.csv"])

prop("O05", "Improvement value of an evaluated design",
     "The improvement value given to an evaluated design is zero when the design is infeasible or its objective value is not below the reference value, and otherwise the reference value "
     "minus its objective value; the reference value is that of the best feasible initial design. "
     "When no feasible design was known before, the first feasible one sets the reference value to its objective value and gets a tiny positive improvement (machine epsilon); nothing else changes the reference.",
     ["inputs", "histories"], "every design and every reference value, positive, negative or zero, or none yet",
     "The tests never read the improvement column.",
     ["src/Optimizers/optimization.cpp"],
     [("improvement", "Optimizer::calculateImprovementValue"), ("reference value", "Optimizer::bestFeasibleInitialValue")],
     "decision-table equivalence of symbolic path summaries, " + ABS,
     "The value on every path is compared with the stated one under every combination of branch outcomes." + TRUST,
     ["improvement column of the history"])

prop("O06", "The design evaluated is the denormalised, rounded proposal",
     "In each iteration the design prepared for evaluation is the proposal of the acquisition search: its normalised parameters are the proposal's, its parameters are those "
     "mapped to physical coordinates with the problem's lower and upper bounds and, exactly when discrete parameters exist, rounded afterwards.",
     ["histories", "configurations"], "every proposal and bound pair, with and without discrete parameters",
     "No test compares the evaluated point with the selected candidate.",
     ["src/Optimizers/optimization.cpp"],
     [("mapping", "Optimizer::findTheMostPromisingDesignToBeSimulated")],
     "value-flow analysis, " + ABS,
     "The term reaching the design is compared with the stated mapping on every path." + TRUST)

prop("O07", "Candidates stay inside the search box",
     "In the acquisition search every candidate is drawn, per parameter, inside a box centred at the best design's normalised parameters, of half width 1/dimension times the trust-region length "
     "(for gradient steps: times the gradient window factor and the gradient trust-region factor), clipped to the normalised design space [0, 1/dimension]. "
     "Candidates around the best design are drawn in a smaller window around it that is clipped to the same box, and an ascent step moves along the gradient and is clipped to the same box.",
     ["inputs", "histories"], "every best design, window width, box and dimension",
     "Random candidates near an edge are rare in the three fixed studies and are never observed.",
     ["src/Optimizers/optimization.cpp", "src/Design/design_bo.cpp", "src/LinearAlgebra/vector.cpp"],
     [("box", "Optimizer::defineTrustRegion, Optimizer::changeSettingsForAGradientBasedStep"),
      ("drawing", "DesignForBayesianOptimization::generateRandomDesignVector / generateRandomDesignVectorAroundASample / gradientUpdateDesignVector")],
     "interval/value-flow analysis of every candidate generator, " + ABS,
     "Every generator's per-component bounds are proved for symbolic inputs." + TRUST)

prop("O08", "Discrete parameters are rounded to the nearest grid value",
     "Registering a discrete parameter stores its index and its increment together. Rounding replaces each registered parameter by the value of its own "
     "grid (lower bound + k * increment, k = 0, 1, ... not passing the upper bound) that is closest to it, the first one when two are equally close; no other parameter changes.",
     ["inputs", "configurations"], "every parameter value, bound, increment and any set of discrete parameters",
     "The tests use no discrete parameters.",
     ["src/Optimizers/optimization.cpp"],
     [("rounding", "Optimizer::roundDiscreteParameters"), ("grid", "Optimizer::generateDiscreteValues / findClosestDiscreteValue")],
     "loop-summary analysis (argmin fold over the grid), " + ABS,
     "The rounding loop is proved to be the nearest-grid-point fold for every input." + TRUST)

prop("O09", "Acquisition value: expected improvement times feasibility probability",
     "The acquisition value of a candidate is the expected improvement (best - mean)*Phi(z) + s*phi(z) with z = (best - mean)/s, from the surrogate's mean and standard deviation at that candidate (s is the standard deviation "
     "times the sigma factor) and zero when s vanishes; best is the objective value of the best feasible design, set before any candidate is judged (a huge value when none is feasible). "
     "With constraints it is multiplied by one factor per constraint: the probability, from a normal distribution with that constraint's estimated value and deviation, that the value lies on the feasible side of that constraint's own target.",
     ["inputs", "configurations"], "every surrogate prediction, reference value, number and type of constraints",
     "The value of the acquisition function is internal; a wrong formula still finds an optimum in the fixed studies.",
     ["src/ObjectiveFunctions/objective_function.cpp", "src/Optimizers/optimization.cpp", "src/Optimizers/optimization_constraint_functions.cpp", "src/Design/design_bo.cpp"],
     [("EI", "ObjectiveFunction::calculateExpectedImprovement / calculateExpectedImprovementUsingDerivatives"), ("probabilities", "Optimizer::estimateConstraints / calculateFeasibilityProbabilities")],
     "symbolic formula equivalence, " + ABS,
     "The formulas on all paths are compared as algebraic terms." + TRUST)

prop("O10", "The candidate with the best acquisition value is proposed",
     "Of all candidates generated in a search exactly one is proposed, and none of them has a higher acquisition value (in gradient steps: among those with a negative directional derivative); a candidate is judged by "
     "its own acquisition value including the feasibility probabilities. This holds under every interleaving of the search's threads. "
     "In the gradient-based refinement a moved design replaces the current one only when its acquisition value is higher.",
     ["inputs", "schedules"], "any number of candidates, every acquisition value, every thread interleaving",
     "Which candidate wins depends on random numbers and threads; tests only check the final optimum.",
     ["src/Optimizers/optimization.cpp"],
     [("selection", "Optimizer::findTheMostPromisingDesignEGO / findTheMostPromisingDesignGradientStep"), ("refinement", "Optimizer::maximizeAcqusitionFunctionGradientBased")],
     "fold recognition and shared-variable analysis, " + ABS,
     "Every selection loop is proved to be a maximum fold over its candidates, and its shared accesses to be inside one critical section." + TRUST)

prop("O11", "Trust region and exploration follow the course of the optimisation",
     "The trust region doubles (up to the whole box) after as many successive improvements as asked for, halves (down to its minimum) after as many successive failures, and one kind of iteration resets the count of the other. "
     "With the variable strategy the exploration factor is the initial crowding of the samples divided by their present crowding, times a multiplier that grows in every iteration and returns to 1 after a substantial improvement, "
     "possibly enlarged by a random factor between 2 and 3, always within its limits, and it reaches the objective function. The crowding is the mean L1 distance of all pairs of the newest samples.",
     ["inputs", "histories"], "every sequence of improvements and failures, all settings, sample histories and random numbers",
     "The counters and the multiplier depend on the whole course of a run; a run of the tests visits a few states, and a wrong trust region only makes the search slower.",
     ["src/Optimizers/efficient_global_optimization.cpp", "src/Optimizers/optimization.cpp", "src/Optimizers/optimization_history.cpp"],
     [("trust region", "Optimizer::performEfficientGlobalOptimizationOnlyWithFunctionalValues"), ("exploration factor", "Optimizer::adjustSigmaFactor"),
      ("crowding", "OptimizationHistory::calculateCrowdingFactor"), ("limits", "Optimizer::initializeOptimizerSettings")],
     "transfer function of one loop iteration compared with the specified one, " + ABS,
     "The values at the end of an arbitrary iteration are computed as terms over those at its start and proved equal to the specified ones for every case." + TRUST)

prop("O12", "Gradient steps are taken when gradients exist, a limited number in a row",
     "A gradient step is tried only when one is due, the objective's model uses gradients and the best design has a nonzero gradient in the training data; it searches the window around the best design that was set for it, "
     "each step halves the window, and after the maximum number in a row the window is restored and none is due. Otherwise the proposal comes from the global search refined by gradient ascent. "
     "The gradient of the acquisition value is a central difference around the design in every component and leaves the design unmoved.",
     ["inputs", "histories"], "every state of the optimiser, all training data, every design",
     "The tests contain no study with gradient-enhanced models, so no gradient step is ever taken in them.",
     ["src/Optimizers/optimization.cpp", "src/Optimizers/globalOptimalDesign.cpp"],
     [("choice of the step", "Optimizer::findTheMostPromisingDesignToBeSimulated"), ("gradient of the optimum", "GlobalOptimalDesign::setGradientGlobalOptimumFromTrainingData"),
      ("gradient of the acquisition value", "Optimizer::calculateGradientOfAcquisitionFunction")],
     ABS,
     "Final values, call conditions and proposals are computed as terms over the initial state and compared with the specified decision tables." + TRUST)

prop("O13", "The optimiser hands its setup to all of its parts before it starts",
     "The box reaches the objective, every constraint and the record of the best design, and crossed bounds or bounds of different lengths are refused; dimension, objective and constraints reach every part that keeps a copy or a count of them. "
     "A run starts only with an objective, a proper box and a budget, and initialises settings, models, current design and history, in this order of dependence, before the first iteration. "
     "In the first of every howOftenTrainModels iterations the models of the objective and of all constraints that have one are initialised and trained, before the search uses them.",
     ["inputs", "histories"], "every box, dimension, number of constraints, training cycle and iteration",
     "Copies that are not updated show only with several constraints, particular orders of calls or a training cycle other than the default.",
     ["src/Optimizers/optimization.cpp", "src/Optimizers/optimization_setter_getters.cpp", "src/Optimizers/optimization_constraint_functions.cpp", "src/Optimizers/efficient_global_optimization.cpp"],
     [("box", "Optimizer::setBoxConstraints"), ("dimension", "Optimizer::setDimension"), ("functions", "Optimizer::addObjectFunction / addConstraint"),
      ("models", "Optimizer::initializeSurrogates / trainSurrogates"), ("start", "Optimizer::performEfficientGlobalOptimization")],
     ABS,
     "Effects of each operation on all fields of all parts are computed as terms over the initial state; conditions of calls in the loop are proved equivalent to the specified ones." + TRUST)

prop("R01", "A properly set-up run is never refused",
     "In a valid state - dimensions, sample counts and sizes of at least one, vectors and data of matching sizes, boxes set and proper, required steps done, parameters inside their documented ranges - no guard of the optimiser, the designs, the objective "
     "and constraint functions, the surrogate models, the correlation functions, the bounds and the evolutionary optimiser raises an exception. "
     "This includes the extreme valid cases: one parameter, one sample, no constraint, two individuals, probabilities and ratios at the ends of their closed ranges.",
     ["inputs", "configurations"], "every dimension, number of samples, constraints and individuals, and every parameter value of the documented ranges",
     "Tests run with two or more dimensions and comfortable sizes; a guard off by one refuses only the extreme valid case.",
     ["src/Optimizers/optimization.cpp", "src/Optimizers/optimization_history.cpp", "src/Design/design.cpp", "src/ObjectiveFunctions/objective_function.cpp", "src/SurrogateModels/kriging_training.cpp",
      "src/InternalOptimizers/ea_optimizer.cpp", "src/Bounds/bounds.cpp"],
     [("optimiser", "Optimizer::validate*, OptimizationHistory::*"), ("designs", "Design::constructSample*"), ("models", "KrigingModel::*, LinearModel::*, SurrogateModelData::*"),
      ("evolution", "EAOptimizer::*, EAPopulation::*, EAIndividual::*")],
     "path conditions of all throw statements proved unsatisfiable in the valid state",
     "For about 120 operations the path condition of every throw statement (own checks inlined) is computed symbolically and proved to contradict the facts of the valid state. "
     "Exceptions from inside a loop without a closed condition (two element-wise bound tests) and those of callees in other classes are left to the properties of these operations (L03, B01, S08)." + TRUST)

prop("T01", "Parallel regions are free of data races",
     "In the parts that run on several threads (the acquisition searches and the Kriging hyperparameter training) no variable, object field or static object that one thread can write is accessed by another thread "
     "unless both accesses are inside the same critical section or hold the same lock, or every iteration touches its own element. "
     "This includes everything called from there: surrogate predictions, constraint estimates, random number generators, loggers and non-reentrant library functions.",
     ["schedules"], "every number of threads and every interleaving",
     "A race needs a particular interleaving; the tests run on few threads and do not look for races.",
     ["src/Optimizers/optimization.cpp", "src/SurrogateModels/kriging_training.cpp", "src/InternalOptimizers/ea_population.cpp"],
     [("parallel regions", "Optimizer::searchCompleteDesignSpace, searchAroundGlobalOptima, findPromisingDesign*GradientStep, KrigingModel::train")],
     "interprocedural read/write effect and lock-set analysis over the resolved call graph",
     "Effects are computed for every function reachable from a parallel region (virtual calls resolved to all overriders); element accesses are separated only when indexed by the parallel loop variable. Trusts the clang front end, "
     "the fact extractor and the effect model of the standard library (const member functions do not write).")


LIN = ["src/LinearAlgebra/vector.cpp", "src/LinearAlgebra/matrix.cpp", "src/LinearAlgebra/INCLUDE/vector.hpp", "src/LinearAlgebra/INCLUDE/matrix.hpp"]
SYM = "symbolic function summaries compared with a specification as algebraic terms, " + ABS
SYMN = ("Each function is summarised for every input (loops as indexed sums, folds and fills); size, every element and the throwing condition are compared with the "
        "specification by polynomial normal forms, linear integer facts and complete case splits." + TRUST)

prop("L01", "Vector operations compute their mathematical definition",
     "For every vector length the vector operators and reductions (addition, subtraction, scaling, scale-and-add, dot product, norms, unit vector, sum, product, mean, standard deviation, quantile, minimum, maximum and their "
     "indices, comparisons, zero, NaN and bound tests, sorting, interval search) return exactly the element-wise or reduced value of all elements, with ties in an extremum index resolved to the "
     "first element. Operations on vectors of different length, or on empty vectors where no value exists, are rejected instead of reading outside the vector.",
     ["inputs"], "every vector, every length, every element value",
     "Tests sample a few short vectors; an error at the last element, for ties or for negative values only shows for particular inputs.",
     LIN[:1] + LIN[2:3], [("vector class", "Rodop::vec")], SYM, SYMN)

prop("L02", "Vectors keep their elements through copies, resizes and normalisation",
     "Construction, copy, assignment, resize, push_back, head, tail, appending, inserting and fill leave exactly the documented elements at the documented positions for every length, new elements being zero. "
     "Normalisation to lower and upper bounds divides the relative position by the dimension and denormalisation is its exact inverse for every element. "
     "Random fills draw each element independently between its own lower and upper bound.",
     ["inputs"], "every vector, length and pair of bounds",
     "Copy and resize errors corrupt the last element or memory only for particular sizes.",
     LIN[:1] + LIN[2:3], [("vector class", "Rodop::vec"), ("normalisation", "vec::normalizeVector / denormalizeVector")], SYM, SYMN)

prop("L03", "Matrices keep every element through row, column and memory operations",
     "Construction, copy, move, resize, row and column access, insertion, deletion, submatrix, transposition, concatenation, normalisation, comparison and row search act on exactly the addressed elements: "
     "every other element keeps its value and its row and column, for every matrix shape and every valid position. "
     "Random fills draw every entry between the bounds of its column, a Latin hypercube has exactly one sample in each interval of every column, and shuffling or deleting rows moves whole rows. "
     "Positions and shapes that do not fit are rejected instead of addressing other elements.",
     ["inputs"], "every matrix shape, position and element value",
     "Wrong strides are invisible for square or single-row matrices, and wrong bounds for interior positions.",
     LIN[1:2] + LIN[3:], [("matrix class", "Rodop::mat")], SYM, SYMN)

prop("L04", "Matrix products, factorisations and linear solves address the whole operands",
     "Matrix-vector and matrix-matrix products, Cholesky and LU factorisation, the solves based on them and the inverse use every element of their operands in the right role "
     "(order, transposition, pivots, strides) and return new values without changing the operands. A failed factorisation is reported as failed, a linear system knows whether its current matrix is factorised, "
     "and operands whose dimensions do not fit are rejected.",
     ["inputs"], "every matrix and right-hand side",
     "The tests use small, well conditioned, mostly symmetric systems.",
     LIN + ["src/LinearAlgebra/linear_solver.cpp"], [("products", "mat::matVecProduct / matmul"), ("solvers", "mat::cholesky, solveCholesky, lu, solveLU, invert"), ("systems", "CholeskySystem, LUSystem")],
     SYM, SYMN + " The numerical content of BLAS and LAPACK routines is trusted; their arguments are checked.")

prop("L05", "Correlation kernels and correlation matrices follow their formula",
     "The Gaussian and exponential kernels return exp(-sum theta_k d_k^2) and exp(-sum theta_k |d_k|^gamma_k), their directional derivatives are the derivatives of that formula with respect to the second point, and the plain and BLAS variants agree. "
     "A correlation matrix has one row and column per sample, ones on the diagonal, and the kernel of the two samples everywhere else, so it is symmetric.",
     ["inputs"], "every pair of points, hyperparameters, dimension and number of samples",
     "Kriging still interpolates plausibly with a wrong derivative or one wrong entry.",
     LIN, [("kernels", "vec::computeGaussianCorrelation*, computeExponentialCorrelation*"), ("matrices", "mat::computeCorrelationMatrix*")], SYM, SYMN)


prop("M01", "Vector and matrix operations stay inside the storage of their operands",
     "Whatever the sizes, positions and shapes, an operation on vectors and matrices reads and writes only elements that exist: it never touches memory in front of, behind or outside the arrays of its operands, result and work space, "
     "neither itself nor through the standard library, BLAS or LAPACK routine it calls. Operands and positions that would lead outside are rejected before anything is accessed.",
     ["inputs"], "every operation of the vector and matrix classes on operands of every size and shape, every position and count",
     "A read or write just outside an array usually changes no result, and tests use a handful of sizes and valid positions.",
     LIN[:4], [("element accesses", "Rodop::vec, Rodop::mat"), ("library calls", "mat::matmul, matvec, cholesky, lu, invert, solve*")],
     "range analysis of every element access and library call against the allocated sizes (abstract interpretation of the current source)",
     "No numeric bound. Accesses through the throwing operator() are safe by themselves (checked by L01, L03). Not covered: the unused reference implementations (lu_decomposition, lu_solve, substitutions, matvecmul, matmatmul), printing, "
     "positions stored in pivot arrays, and the destination of deleteRows, whose length depends on how many positions differ (L03 decides its result). A count handed over together with pointers or vectors is trusted to be their length." + TRUST)

SUR = ["src/SurrogateModels/surrogate_model_data.cpp", "src/SurrogateModels/surrogate_model.cpp", "src/SurrogateModels/kriging_training.cpp", "src/SurrogateModels/linear_regression.cpp",
       "src/CorrelationFunctions/exponential_correlation_function.cpp", "src/SurrogateModels/surrogate_model_tester.cpp"]
SURN = ("Each function is summarised for every state of the model and every data set (members as symbolic values, loops as indexed sums and fills, member functions of the model inlined) and the final "
        "fields and results are compared with the specification." + TRUST + " Matrix and vector operations are opaque here; they are the subject of the L properties.")

prop("S01", "Training data is split into inputs, outputs, derivatives and validation samples",
     "Each row of the training file becomes one sample: the first columns are the inputs, the next column is the output, followed by the gradient or by the directional derivative and its direction when such data is announced. "
     "With a validation ratio the given part of the samples, chosen from a shuffled list of all rows, becomes the validation data and exactly these rows are removed from the training samples; reading again starts from the file alone. "
     "Returning to the full data restores every sample with normalised inputs; empty files, missing columns, other dimensions and ratios outside [0, 1] are rejected.",
     ["inputs", "histories"], "every data file, data kind, ratio and sequence of readings",
     "The stable tests read one kind of file once per model; reading again, gradients and validation samples are not exercised.",
     SUR[:1], [("reading", "SurrogateModelData::readData"), ("columns", "SurrogateModelData::assign*"), ("full data", "SurrogateModelData::revertBackToFullData")], SYM, SURN)

prop("S02", "Training, validation and test inputs are normalised with the box constraints",
     "Normalisation maps the inputs of training, validation and test samples to (x - lower) / (upper - lower) / dimension per coordinate, multiplies every partial derivative by the dimension and the width of its coordinate, "
     "and leaves raw inputs and outputs unchanged. It is refused without box constraints, for a box of another dimension and for data of the wrong shape. "
     "Test files with dimension + 1 columns have true values in the last column, files with dimension columns have none, all others are rejected.",
     ["inputs", "configurations"], "every data set, box and dimension",
     "A wrong scaling of one data set or derivative still gives plausible predictions on the sampled problems.",
     SUR[:1], [("normalisation", "SurrogateModelData::normalize"), ("test data", "SurrogateModelData::readDataTest, normalizeSampleInputMatrixTest")], SYM, SURN)

prop("S03", "The Kriging predictor solves the system of all samples and its parameters",
     "After initialisation the correlation matrix is that of all training samples with the current hyperparameters (initially theta 1 and gamma 1.8) plus epsilon on its diagonal, and beta0 (generalised least squares mean, or the average of the outputs if chosen), the "
     "residual solution and sigma squared are computed from its factorisation and the outputs, which are reduced by the linear regression when that is used. "
     "The prediction is linear regression + beta0 + r'R^-1(y - beta0 1), where r correlates the point with every sample, and the variance is sigma^2 (1 - r'R^-1 r + (1'R^-1 r - 1)^2 / 1'R^-1 1). "
     "Models without data, normalisation, samples, dimension or correlation function are refused.",
     ["inputs", "configurations"], "every data set, hyperparameters, point, with and without linear regression",
     "A predictor with one wrong term still follows the samples roughly, and variances are not compared with anything.",
     SUR[2:3] + SUR[4:5], [("system", "KrigingModel::updateAuxilliaryFields, initializeSurrogateModel"), ("prediction", "KrigingModel::interpolate, interpolateWithVariance")], SYM, SURN)

prop("S04", "Kriging training installs the best hyperparameters found and a consistent model",
     "Every thread minimises the negative likelihood -(-n/2 ln sigma^2 - 1/2 ln det R), or the validation error when validation samples are used, over theta in [0, 20] and gamma in [1, 2] with its share of the training iterations; a failed factorisation is the worst value for both objectives. "
     "After training the hyperparameters are those of the best solution of all threads, the model's system belongs to them, and validation samples are part of the model again; the settings of the model, such as the number of iterations, are unchanged. "
     "With a warm start file the hyperparameters are exactly those of the file (ignored if it has another size), and on request they are saved after they were chosen.",
     ["inputs", "histories", "configurations"], "every data set, number of threads, repeated training, validation samples and warm start",
     "Hyperparameters of an inferior thread or a stale system still give plausible predictions, and the tests use one training configuration.",
     SUR[2:3] + SUR[4:5], [("training", "KrigingModel::train"), ("objectives", "KrigingModel::calculateLikelihoodFunction, calculateValidationErrorForGivenHyperparameters"), ("warm start", "KrigingModel::saveHyperParameters, loadHyperParameters")], SYM, SURN)

prop("S05", "Linear regression fits and predicts with an intercept and every input",
     "The regression weights solve (A'A + lambda I) w = A'y where row i of A is 1 followed by all inputs of training sample i. "
     "A prediction is w0 plus the sum of w(k+1) x(k) over all inputs, one by one or for all rows of a matrix. "
     "Training is refused without data, normalisation, samples or dimension.",
     ["inputs"], "every data set, dimension and point",
     "A missing regressor changes predictions only for data that depends on it.",
     SUR[3:4], [("training", "LinearModel::train"), ("prediction", "LinearModel::interpolate, interpolateAll")], SYM, SURN)

prop("S06", "Correlation functions relate a point to every sample with the current parameters",
     "The correlation vector of a point has one entry per sample, the kernel of the point and that sample with the current hyperparameters, and the correlation matrix contains the kernel for every pair of samples plus epsilon on its diagonal. "
     "Setting hyperparameters assigns the first half to theta and the second half to gamma, getting them returns the same order. "
     "Vectors of the wrong size are rejected, and nothing is computed without samples.",
     ["inputs"], "every sample matrix, point and hyperparameter vector",
     "An entry computed for the wrong sample or with swapped parameters only changes the quality of predictions.",
     SUR[4:5], [("correlation", "ExponentialCorrelationFunction, GaussianCorrelationFunction")], SYM, SURN)

prop("S07", "Model errors and test results are computed from matching samples",
     "The validation error is the mean absolute difference between prediction and true output over all validation samples, and the largest double without such samples; in-sample and out-of-sample errors are mean squared differences over all training or test samples. "
     "Each row of the test results holds the raw coordinates, the prediction at the normalised sample, and, where available, true value, squared error and variance of the same sample. "
     "Errors of models that are not initialised, or of test data that is missing, not normalised or without true values, are refused.",
     ["inputs"], "every data set and mode",
     "Pairing a prediction with the output of another sample is invisible unless exact errors are known.",
     SUR[1:2], [("errors", "SurrogateModel::calculateValidationError, calculateInSampleError, calculateOutSampleError"), ("test results", "SurrogateModel::tryOnTestData")], SYM, SURN)

prop("S08", "A new sample extends the training file and the whole model is rebuilt from it",
     "A sample that is not within 1e-4 of an existing one is appended to the training file of the model, and afterwards the model is read, normalised and initialised again from that file with its hyperparameters kept, so that samples, outputs, linear regression and Kriging system all contain it; "
     "a sample of the wrong size is rejected and a repeated one changes nothing. "
     "Dimension, training file and box constraints reach the model, its data and its linear regression; missing or mismatching ones are rejected.",
     ["histories", "inputs"], "every sample and every history of additions",
     "The tests do not look at the surrogate after an update; a part of it built from old data only slows the optimisation down.",
     SUR[2:3], [("new samples", "KrigingModel::addNewSampleToData, updateModelWithNewData"), ("setup", "KrigingModel::setDimension, setNameOfInputFile, setBoxConstraints, readData, normalizeData")],
     SYM, SURN)

prop("S09", "A surrogate model test trains before it evaluates, with all its settings",
     "The model tester passes dimension, name, files, box constraints and number of training iterations to the chosen model (linear regression, ordinary Kriging, universal Kriging with linear regression on) and then reads training and test data, normalises both, "
     "initialises, trains and only then predicts and saves the test results. "
     "Variances are computed and saved exactly on request, a warm start file is read exactly on request, and a test without model or box constraints is refused.",
     ["configurations"], "every configuration of the tester",
     "The stable tests do not run the model tester.",
     SUR[5:], [("model test", "SurrogateModelTester::performSurrogateModelTest, bindSurrogateModels")], "typestate over the test sequence, " + ABS, SURN)

EAF = ["src/InternalOptimizers/ea_optimizer.cpp", "src/InternalOptimizers/ea_population.cpp", "src/InternalOptimizers/ea_individual.cpp"]

prop("G01", "An individual's genes stay in the bounds and its value belongs to its genes",
     "Genes generated, crossed over or mutated by the evolutionary algorithm lie between the lower and upper parameter bounds, component by component. "
     "The objective value stored with an individual is the objective function at that individual's own genes, and every individual generated in a run gets an identifier of its own. "
     "Wrong dimensions or missing bounds are rejected.",
     ["inputs", "histories"], "all bounds, parents, random numbers and generations",
     "The tests minimise smooth functions; a gene slightly outside the box or a value from a different genome still converges.",
     EAF, [("initial individuals", "EAOptimizer::initializePopulation"), ("crossover and mutation", "EAOptimizer::crossOver, applyMutation, generateIndividualByReproduction")], SYM, SYMN)

prop("G02", "A population's best, worst and identifiers describe the individuals in it",
     "The minimum and maximum of a population are the smallest and largest objective values of the individuals it currently contains, and the recorded identifiers are those of the individuals with these values, after any sequence of additions, removals and resets. "
     "Removing an individual by identifier removes that individual and no other, an unknown identifier is an error, and finding an identifier returns the position of the first individual that has it. "
     "A population with repeated identifiers is detected.",
     ["histories", "inputs"], "all populations and all sequences of operations on them",
     "Values that lag one operation behind, or belong to a neighbour, only matter for particular orders of operations.",
     EAF[1:2], [("best and worst", "EAPopulation::addAsNewIndividual, updatePopulationMinAndMax, updatePopulationProperties"), ("identifiers", "EAPopulation::removeIndividual, getIndividualLocationWithID, checkIfIDIsInPopulation")], SYM, SYMN)

prop("G03", "Fitter individuals are selected more often, unfit ones die more often",
     "Fitness decreases from the best to the worst objective value, reproduction probabilities are proportional to it and sum to one, and the death probability grows with the objective value from that of the best to that of the worst individual. "
     "A parent is the first individual whose cumulated reproduction probability exceeds a random number in [0,1), two parents differ, and the individual removed is picked by death probability. "
     "The probabilities used for a selection are those of the current individuals.",
     ["inputs", "histories"], "all populations, objective values and random numbers",
     "A selection that is slightly biased, or uses probabilities of the previous generation, still converges on the test functions.",
     EAF[:2], [("probabilities", "EAPopulation::updateFitness, updateReproductionProbabilities, updateDeathProbabilities"), ("selection", "EAPopulation::generateRandomParents, EAOptimizer::removeIndividualsFromPopulation")], SYM, SYMN)

prop("G04", "An evolution runs all generations and returns the best individual found",
     "An evolutionary run creates the initial population, makes the configured number of generations with the configured number of new individuals and deaths each, and returns the genes and objective value of the best individual of the final population. "
     "The population size stays the initial size plus births minus deaths, and every new individual is added to the population and, on request, to the history. "
     "A run without bounds, dimension, sizes or objective function is refused before anything is computed.",
     ["configurations", "histories"], "all settings and all courses of an evolution",
     "Missing generations or lost individuals only slow the convergence down.",
     EAF[:1], [("evolution", "EAOptimizer::optimize, performSingleGeneration, initializePopulation")], "typestate over the evolution, " + ABS, SYMN)

prop("G05", "Settings of the evolutionary optimiser take effect or are rejected",
     "Dimension, bounds, sizes, mutation rate and probability, objective function, file names and numbers of threads given to the general-purpose and evolutionary optimisers are the values the algorithm later uses, each in its own place. "
     "Values that contradict each other (sizes of bounds and dimension, a lower bound above the upper one, zero sizes) are rejected.",
     ["configurations"], "every setting",
     "Tests set each option once and do not observe which value the algorithm uses.",
     EAF[:1] + ["src/InternalOptimizers/general_purpose_optimizer.cpp"], [("settings", "EAOptimizer and GeneralPurposeOptimizer setters")], SYM, SYMN)

prop("F01", "Matrices and vectors survive being written to and read from CSV files",
     "A matrix or vector written to a CSV file has one line per row with one cell per column in order (with the given header, if any) and reading a file gives the matrix whose element (i,j) is the j-th cell of the i-th data line, the header line being skipped exactly when there is one. "
     "A vector appended to a file becomes one further line and is rejected when the file has a different number of columns. "
     "Rows of different lengths, files without data and files that cannot be opened are errors.",
     ["inputs"], "all matrices, vectors, precisions and files",
     "Tests read a few small, well-formed files.",
     ["src/LinearAlgebra/matrix.cpp", "src/LinearAlgebra/vector.cpp"], [("matrix files", "mat::saveAsCSV, mat::readFromCSV"), ("vector files", "vec::saveToCSV, readFromCSV, appendToCSV")], "analysis of the text written and read, " + ABS,
     "The text put into the stream is compared, column by column, with the required format for all sizes." + TRUST, ["training data files", "history and warm start files"])

DESF = ["src/Design/design.cpp"]
OFF = ["src/ObjectiveFunctions/objective_function.cpp", "src/ObjectiveFunctions/constraint_functions.cpp"]

prop("D01", "A sample contains the design, its values and derivatives, each at its place",
     "The sample made from a design for a training file is the design parameters followed by the value, then the directional derivative and direction or the gradient when the mode asks for them, each belonging to the chosen function or constraint and fidelity. "
     "All parts of a design have the sizes given by its dimension and number of constraints, and are zero after a reset. "
     "A not-a-number in value, gradient or constraints is found, and samples of constraints that do not exist are refused.",
     ["inputs"], "all dimensions, numbers of constraints, modes and values",
     "Tests build samples of one dimension with one constraint, so that neighbouring rows and columns coincide.",
     DESF, [("samples", "Design::constructSample..."), ("sizes", "Design::setDimension, setNumberOfConstraints, reset, checkIfHasNan")], SYM, SYMN, ["training data files", "sample vectors"])

prop("E01", "The value of a design comes from a successful simulation of exactly that design",
     "To evaluate a function the design is written with full precision to the configured file, one parameter per line, then the configured program runs, and the values are read from the configured output file in order; a user function is called with the design parameters. "
     "An objective value is stored as the value of the design and a constraint value under the number of its own constraint, everything else staying as it was. "
     "A simulation that fails, files that cannot be opened and values that cannot be read are errors.",
     ["fault_sequences", "inputs", "configurations"], "all designs, kinds of function, and failures of the simulation or of the files",
     "Tests run one well-behaved program and one constraint; failures of the program and neighbouring constraints are not exercised.",
     OFF, [("exchange", "ObjectiveFunction::writeDesignVariablesToFile, evaluateObjectiveFunction, readOutput"), ("values", "ObjectiveFunction::evaluateDesign, ConstraintFunction::evaluateDesign")],
     "analysis of the text written and read and of the order of calls, " + ABS, SYMN, ["design file", "output file", "Design"])

prop("E02", "A function's surrogate is set up, fed and asked with the function's own data",
     "An evaluated design is added to the surrogate as the sample of the function's own value with the derivatives its mode asks for. "
     "The surrogate of a function is the model chosen in its definition and gets the function's name, dimension, bounds, training file and number of training iterations before its data is read, normalised and the model initialised; a warm start is used exactly on request. "
     "Estimates are those of this model with the root of its variance as standard deviation, or the exact value with no uncertainty for explicit constraints.",
     ["histories", "configurations"], "all definitions, modes and settings of the functions",
     "Tests configure one kind of surrogate, and a wrong setting only changes the quality of the estimates.",
     OFF, [("data", "ObjectiveFunction::addDesignToData, ConstraintFunction::addDesignToData"), ("model", "ObjectiveFunction::initializeSurrogate, bindSurrogateModel, interpolateWithVariance")],
     "typestate over the set-up, " + ABS, SYMN, ["surrogate model", "training data file"])

prop("K01", "A constraint is feasible exactly when its own relation holds",
     "A definition such as `name > value` is parsed to its name, relation and limit, and rejected when it is empty or has no relation. "
     "A value is feasible exactly when it is strictly above (for >) or below (for <) the limit. "
     "An explicit constraint uses the function registered under its own number.",
     ["inputs"], "all definitions, values and limits",
     "Tests parse a few definitions and test values far from the limit.",
     OFF, [("definition", "ConstraintDefinition::setDefinition"), ("feasibility", "ConstraintFunction::checkFeasibility, setInequalityType")], SYM, SYMN)

prop("F02", "Designs survive being saved to and read from text, CSV and XML files",
     "A design saved as text or CSV contains every parameter, value, constraint value and improvement of the design in order and separated, with the precision given, and one further line per design when appended to a history file. "
     "A design read from the XML file of the global optimum has the parameters, constraint values and numbers under the tags they were written with. "
     "Files that cannot be opened are errors.",
     ["inputs"], "all designs, dimensions and numbers of constraints",
     "Tests save one design and look only at the parameters.",
     DESF, [("text", "Design::saveDesignVector, saveDesignVectorAsCSVFile, saveToXMLFile, readFromXmlFile")],
     "analysis of the text written and read, " + ABS, SYMN, ["design files", "global optimum file"])

prop("G06", "A population survives being written to and read from its warm start file",
     "The warm start file of a population has one line per individual with identifier, objective value, fitness, probabilities and genes, each in its column and with enough digits to be read back. "
     "Reading it gives a population of as many individuals as lines whose values are the cells of their own line, with the derived best, worst and identifiers brought up to date. "
     "A file that cannot be opened or lines with missing cells are errors.",
     ["inputs", "histories"], "all populations and files",
     "Tests write a population and read it back in the same process, and do not compare every value.",
     EAF[1:2], [("warm start file", "EAPopulation::writeToCSV, readFromCSV")], "analysis of the text written and read, " + ABS, SYMN, ["warm start file"])

prop("B01", "Bounds describe a valid box, and membership and samples belong to it",
     "Bounds are accepted exactly when lower and upper bounds have the same size and no lower bound exceeds its upper one, and are then stored unchanged with their dimension. "
     "A point is within the bounds exactly when every coordinate is between its two bounds (inclusive). "
     "Random vectors drawn from the bounds have the right dimension, each coordinate between the bounds of the same index.",
     ["inputs"], "all dimensions, bounds and points",
     "Tests use boxes with equal bounds for all coordinates, so that mixed-up indices do not show.",
     ["src/Bounds/bounds.cpp"], [("box", "Bounds::setBounds, isPointWithinBounds, generateVectorWithinBounds")], SYM, SYMN)

API = ["src/API/cppAPI.cpp"]
prop("A01", "The problem stated through the C++ interface is the problem that is optimised",
     "Dimension, bounds, objective function, constraints, discrete parameters, names and budgets stated through the interface reach the optimiser and its functions unchanged, each in its own place and every constraint with its own number. "
     "A constraint expression gives its name, relation and limit, and a malformed one is rejected. "
     "Statements in the wrong order or that contradict each other are rejected, others are not.",
     ["configurations", "inputs"], "all problems, settings and expressions",
     "Tests state one problem and check that a solution is found, which mixed-up settings usually allow.",
     API, [("problem", "RobustDesignOptimizer setters"), ("expressions", "parseExpression")], SYM, SYMN)

prop("A02", "A run from the C++ interface creates the training data it needs, then optimises",
     "When a function has no training data the design of experiments evaluates the objective function and every constraint at the same samples inside the bounds and writes one line per sample, parameters first and the value last, to each function's own file with enough digits. "
     "The run needs dimension, bounds and objective function, applies the working directory, and starts the optimisation with the requested number of iterations once everything is prepared. "
     "The number of samples is the one requested.",
     ["histories", "configurations"], "all numbers of samples, constraints and settings",
     "Tests run a small problem and do not look into the training data it creates.",
     API, [("run", "RobustDesignOptimizer::run"), ("samples", "RobustDesignOptimizer::performDoE")], "typestate over the run, " + ABS, SYMN, ["training data files"])

DRV = ["src/Driver/driver_xml.cpp", "src/Driver/configkey.cpp", "src/Driver/xml_functions.cpp", "src/Driver/string_functions.cpp", "src/Rodeo.cpp"]
prop("C01", "A keyword has the value between its tags, and malformed text is an error",
     "The value read for a keyword is exactly what stands between its opening and closing tag, without surrounding white space, as a text, a whole number or a list of them; a missing keyword has the value for missing. "
     "Repeated tags, a closing tag that is missing or in front of the opening one, and text that is not entirely a number are errors. "
     "Words for on and off and other names are recognised in any case and nothing else is.",
     ["inputs"], "all texts and keywords",
     "Tests use short well-formed texts with one keyword.",
     DRV[2:4], [("text between tags", "getStringValueFromXML, extractContentBetweenKeys, extractContents"), ("numbers", "getDoubleValueFromXML, getIntegerValueFromXML"), ("words", "isEqual, checkIfOn, checkIfOff")],
     "symbolic summaries of the text functions over positions in the text, " + ABS, SYMN)

prop("C02", "Each setting of the configuration file reaches the function or option it names",
     "Every key of the objective function, of a constraint and of the general settings reaches its own setting of its own function or of the study, and a constraint's number, relation and limit are those of its own section. "
     "A setting that is needed and missing, or that is not a valid value, is rejected; a complete configuration is not; an optional setting that is missing keeps its default. "
     "Names of surrogate models stand for the model they name.",
     ["configurations"], "all configuration files",
     "Tests read a few configurations and compare some of the values; keys exchanged between similar settings do not show when the texts are equal or unused.",
     DRV[:2], [("objective function and constraints", "Driver::readObjectiveFunction, readConstraintFunctions"), ("general settings", "Driver::readGeneralSettings"), ("model names", "Driver::getSurrogateModelID")],
     "information flow from keys to settings by abstract interpretation, " + ABS, SYMN)

prop("C03", "A run reads every section of its configuration file before it optimises",
     "Objective function, general settings and each constraint take their values from their own section of the file given on the command line, and no value is left over from the section before. "
     "When the study is an optimisation, dimension, budget, parameters, objective function, all constraints, bounds, names and discrete parameters are handed to the optimiser before the one optimisation is run. "
     "A run without a file, before the file is read or of another type of study is rejected, and errors end the program with a failure code.",
     ["configurations", "histories"], "all configuration files and orders of calls",
     "Tests run one complete configuration; a section that is skipped or read from the wrong place shows only with settings they do not use.",
     DRV, [("sections", "Driver::readASegmentFromXMLFile, readConstraintFunctionsFromXML"), ("keywords", "Keyword::getValueFromXMLString"), ("run", "Driver::readConfigurationFile, run, main")],
     "typestate over the sequence of calls and information flow, " + ABS, SYMN)

prop("C04", "Parameters in the configuration file give bounds, names and steps of the study",
     "Every parameter of the configuration file has the name, type, bounds and increment of its own section, and the optimiser and the functions get exactly these bounds, names and, for parameters of type discrete or int, increments, under the index of the parameter. "
     "A parameter without name, type, bound or needed increment, of another type, with crossed bounds or with an increment that is not positive or wider than the interval is rejected. "
     "A complete parameter is accepted.",
     ["configurations"], "all numbers and kinds of parameters",
     "Tests use parameters with equal bounds, so that exchanged or shifted entries do not show.",
     DRV[:1], [("parameters", "Driver::readOptimizationParameters"), ("study", "Driver::setBoxConstraints, setParameterNamesOptimizationStudy, setDiscreteParametersOptimizationStudy")],
     "symbolic summaries of the loops over the parameters, " + ABS, SYMN)

na("N01", "The optimiser approaches the global optimum within its budget",
   "With a budget of some tens of evaluations per parameter the best feasible design found lies close to the constrained global optimum of the "
   "problem, and closer with a larger budget.",
   ["inputs", "histories"], "every objective function, every set of constraints, every random course of the run",
   "The tests accept a generous tolerance on four fixed functions and cannot speak for other functions.",
   ["src/Optimizers/optimization.cpp", "src/Optimizers/efficient_global_optimization.cpp"],
   [("optimisation loop", "Optimizer::performEfficientGlobalOptimization")],
   "Quantifies over the distance of a random numerical iteration from an unknown optimum; no source-level argument bounds it. What the source does "
   "decide of it (candidates, acquisition, selection, recording) is O01-O13.")

na("N02", "Linear systems are solved and models are trained to working accuracy",
   "For a well-conditioned correlation matrix the solution of a linear system, the log-likelihood and every model estimate are accurate to a small multiple of "
   "the floating-point precision, and training finds hyperparameters whose likelihood is close to the largest one.",
   ["inputs"], "every data set for which the correlation matrix is well-conditioned",
   "Tests compare a few digits of a few systems.",
   ["src/LinearAlgebra/linear_solver.cpp", "src/SurrogateModels/kriging_training.cpp"],
   [("linear solver", "LinearSystem")],
   "Rounding errors depend on runtime condition numbers and on the library's factorisation, and the search for hyperparameters is random. The formulas, as real "
   "algebra, are decided by L04, S03 and S04.")

na("N03", "Random designs and populations are uniformly distributed",
   "Random candidates, initial populations and designs of experiments are spread uniformly over their box, and repeated draws are independent.",
   ["schedules", "inputs"], "every box and every number of draws",
   "A test sees a finite sample of one generator state.",
   ["src/Bounds/bounds.cpp", "src/LinearAlgebra/vector.cpp"],
   [("random numbers", "Bounds::generateVectorWithinBounds")],
   "A statement on the distribution of the C and C++ library's generators. That each draw uses the interval of its own coordinate is decided by B01, O07 and G05, "
   "that threads do not share a generator by T01.")
