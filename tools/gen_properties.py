#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. (Source of the property list; run by hand after editing.)"""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

CD, BCD = "src/solvers/anderson_cd/mod.rs", "src/solvers/anderson_bcd/mod.rs"
PEN, BPEN = "src/penalties/separable/mod.rs", "src/penalties/block_separable/mod.rs"
DF, MDF = "src/datafits/single_task/mod.rs", "src/datafits/multi_task/mod.rs"
EST, HYP = "src/estimators/estimators.rs", "src/estimators/hyperparams.rs"
DM, UT = "src/datasets/impl_design_matrix.rs", "src/utils/mod.rs"
PYE, PYU = "python/sparseglm/estimators.py", "python/sparseglm/utils.py"

prop("C01", "Convex single-task fits reach the global optimum",
 "When a Lasso, Elastic Net or sparse logistic regression fit (L1 or L1+L2 penalty) stops before its iteration budget is used up, the returned coefficients satisfy the first-order optimality conditions of the documented objective for every feature, within the requested tolerance. On well-conditioned data the default budgets are enough to get there.",
 ["inputs", "configurations"], "every dataset (dense or sparse, n<p and n>p, correlated, duplicated or zero columns), regularisation strength, working-set size, tolerance and acceleration setting",
 "The tests compare a handful of fits with stored coefficients; nothing checks optimality on any other data, and the logistic model is never solved on random data.",
 [CD, PEN, DF, EST], [("outer working-set loop stops on the maximal violation over ALL features", CD+":coordinate_descent"), ("working set ranks features by violation and keeps the support", CD+":construct_ws_from_kkt"), ("prox-gradient coordinate step", CD)],
 [("w, Xw", "iterate and incrementally maintained model fit", CD), ("ws", "current working set", CD)], ["coefficients returned by Fit::fit / Solver::solve"])
prop("C02", "Convex multi-task fits reach the global optimum",
 "When a multi-task Lasso or multi-task Elastic Net fit stops before its iteration budget is used up, every row of the returned coefficient matrix satisfies the first-order optimality conditions of the documented objective within the requested tolerance. On well-conditioned data the default budgets are enough to get there.",
 ["inputs", "configurations"], "every dataset, number of tasks, regularisation strength, working-set size, tolerance and acceleration setting",
 "The tests hold stored coefficients of a few tiny problems; block optimality on other shapes, task counts and regularisations is never observed.",
 [BCD, BPEN, MDF, EST], [("outer working-set loop stops on the maximal block violation", BCD+":block_coordinate_descent"), ("block violation scores", BPEN+":subdiff_distance")],
 [("W, XW", "iterate and model fit", BCD)], ["coefficients returned by Fit::fit / Solver::solve_multi_task"])
prop("C03", "Non-convex fits end at stationary points no worse than zero",
 "When a fit with a non-convex penalty (MCP, block MCP, L0.5) stops before its iteration budget is used up, the returned coefficients are a stationary point of the objective within the tolerance (for L0.5: a fixed point of the coordinate-wise proximal step), on well-conditioned data the default budgets are enough to get there, and the objective there is never above its value at zero.",
 ["inputs", "configurations"], "every dataset, regularisation strength, shape parameter allowed by the estimators, budgets and acceleration setting",
 "Tests compare MCP fits with stored numbers on one tiny dataset; L0.5 is never solved at all, block MCP only through the estimator on one dataset.",
 [CD, BCD, PEN, BPEN], [("prox steps of non-convex penalties", PEN), ("violation scores used to stop", PEN), ("violation scores used to stop", BPEN)])
prop("C04", "Spending more budget never worsens the objective",
 "With everything else equal, raising the outer-iteration budget never yields coefficients with a larger objective value, and neither does raising the epoch budget of a one-iteration fit, for every datafit and penalty, with or without acceleration (up to rounding). In particular an extrapolated point is only ever kept when it lowers the true objective.",
 ["inputs", "histories"], "every prefix of every solver run (the iterates after 0,1,2,... epochs or outer iterations)",
 "Tests look at final coefficients only; no test observes the trajectory, so an accepted bad extrapolation or a non-descending step that is later repaired is invisible.",
 [CD, BCD], [("extrapolated point accepted only if it decreases the objective", CD+":anderson_accel"), ("extrapolated point accepted only if it decreases the objective", BCD+":anderson_accel"), ("majorising step sizes", DF)],
 [("last_K_w", "ring of past iterates", CD)])
prop("C05", "User-supplied datafits, penalties and matrices are driven correctly",
 "A datafit, penalty or design matrix implemented by a user through the public traits is initialised once before any other use, only ever asked about existing features, given model fits that agree with the coefficients being judged, and stepped with the step size it declared for that feature. The resulting coefficients are optimal for the user's objective when the solver stops before its budget is used up.",
 ["programs", "inputs"], "every implementation of the public traits (custom losses, weighted or box-constrained penalties, matrix types) and every dataset",
 "No test implements the public traits; the README's main promise (any GLM in 30 lines) is untested.",
 [CD, BCD, "src/solvers/mod.rs", DF, PEN], [("trait calls made by the solver loop", CD), ("trait calls made by the solver loop", BCD)], observe=["calls received by monitored Datafit/Penalty/DesignMatrix implementations"])
prop("C06", "Performance knobs never change the answer",
 "Working-set start size, number of extrapolation points and use of acceleration only affect speed: on problems with a unique solution, all settings that converge return the same coefficients up to the accuracy the tolerance implies.",
 ["configurations", "inputs"], "all combinations of working-set size (1 to beyond the number of features), K, acceleration on/off, on every strictly convex problem",
 "Tests always run the default knobs on problems smaller than the default working set.",
 [CD, BCD], [("working-set growth", CD+":construct_ws_from_kkt"), ("extrapolation", CD+":anderson_accel")])
prop("C07", "Sparse and dense storage of the same matrix agree",
 "Fitting any model, evaluating any datafit quantity, or computing the maximal regularisation on a CSC matrix gives the same result, up to rounding, as on the dense matrix with the same entries, including empty columns, explicitly stored zeros, unsorted row indices and repeated entries (which are summed).",
 ["inputs"], "every matrix and every CSC encoding of it, every model and datafit operation",
 "Tests use one 3x2 sparse matrix; no test compares the two storages on general data, and the code paths are separate implementations.",
 [DM, DF, MDF, UT, "src/datasets/csc_array.rs"], [("CSC implementations of design-matrix and datafit operations", DM)])
prop("C08", "Proximal operators minimise their proximal problem",
 "For every penalty, input and positive step size, the proximal step returns a finite point minimising half the squared distance to the input plus step times penalty, including at thresholds, at zero, at zero regularisation, and for MCP shape parameters on either side of the step size.",
 ["inputs"], "all real inputs (vectors for block penalties), step sizes, regularisation strengths, mixing ratios and shape parameters",
 "Unit tests evaluate each operator at one or two points.",
 [PEN, BPEN, UT], [("soft_thresholding, block_soft_thresholding, prox_05", UT+":prox_funcs"), ("Penalty::prox / MultiTaskPenalty::prox", PEN)])
prop("C09", "Violation scores equal the distance to the subdifferential",
 "For every penalty except L0.5, coefficients and gradient, the optimality-violation scores reported for a set of features are the exact distances of the negative gradient to the penalty's subdifferential for those features in that order, and the reported maximum is their maximum.",
 ["inputs"], "all coefficient and gradient arrays, any subset and order of features",
 "Unit tests check one vector per penalty, with the identity feature set, and block penalties only on a few regions.",
 [PEN, BPEN, CD, BCD], [("Penalty::subdiff_distance", PEN), ("MultiTaskPenalty::subdiff_distance", BPEN), ("opt_cond_violation", CD)])
prop("C10", "Penalty values match their definitions",
 "Every penalty's value at any coefficients equals its documented formula; it is non-negative, zero at zero, invariant to signs and to permutations of features (for block penalties: to rotations of the tasks), and continuous across MCP's knot.",
 ["inputs"], "all coefficient arrays and hyperparameters",
 "Unit tests evaluate each value once.",
 [PEN, BPEN], [("Penalty::value", PEN), ("MultiTaskPenalty::value", BPEN)])
prop("C11", "Datafit value, gradient and step size are coherent",
 "For the quadratic, logistic and multi-task quadratic datafits on any dense or sparse dataset, the value equals the documented loss, the coordinate gradient is its exact derivative, the full gradient stacks the coordinate gradients, and the step constants bound the curvature along each coordinate as documented. All stay finite and accurate for large margins and for residuals small against the targets, the quadratic losses are never negative, and re-initialising on another dataset fully replaces the state.",
 ["inputs", "histories"], "every dataset, model fit (also very large margins), feature, and sequence of initialisations",
 "Unit tests evaluate one small dataset; large margins, re-initialisation and consistency between value and gradient are not observed.",
 [DF, MDF], [("Datafit::{initialize,value,gradient_j,full_grad,step_size}", DF), ("MultiTaskDatafit", MDF)], [("Xty, lipschitz", "quantities precomputed by initialize", DF)])
prop("C12", "Hyperparameter validation accepts exactly the documented domain",
 "For every estimator, a parameter set is rejected exactly when some value is outside its domain (regularisation and tolerance at least 0, gamma at least 1, l1_ratio in [0,1], K and working-set size at least 1, no NaN), with the error kind naming an offending parameter and carrying its value. Checking by value, by reference, and implicitly through fitting agree, and a rejected set never produces a model.",
 ["inputs", "configurations"], "all combinations of hyperparameter values including boundaries, infinities and NaN, for all six estimators and both float widths",
 "Tests try one bad value per parameter for some estimators; combinations, boundaries, NaN, and agreement of the checking paths are not covered.",
 [HYP, "src/estimators/param_guard.rs", "src/estimators/error.rs"], [("ParamGuard::check_ref / check", HYP), ("blanket Fit for unchecked parameters", "src/estimators/param_guard.rs")])
prop("C13", "The maximal regularisation is the exact threshold of the null model",
 "With regularisation at or above the helper's maximum (single-task, multi-task and sparse variants), Lasso, MCP and multi-task Lasso/MCP fits return exactly zero coefficients; strictly below it the coefficients are not all zero. For Elastic Nets the same holds with the maximum divided by the l1 ratio.",
 ["inputs"], "every dataset with a non-zero correlation between features and targets; all factors around the threshold",
 "Tests compute the maximum on one tiny matrix and never relate it to fits at other data.",
 [UT, CD, BCD], [("compute_alpha_max, compute_alpha_max_mtl, compute_alpha_max_sparse", UT+":helpers")])
prop("C14", "Public numerical helpers are correct",
 "The linear-system helper returns a solution with small residual for every well-conditioned square system, reports an error (never a wrong or non-finite answer, never a panic) for exactly singular ones, and handles sizes from 1 up. The argsort helper returns a permutation that sorts its input under the given comparison, and the sigmoid is accurate, monotone and within [0,1] for all inputs.",
 ["inputs"], "all systems of moderate size and conditioning incl. those needing row exchanges; all arrays and comparison orders; all reals",
 "Tests solve one 3x3 system and two singular ones; no test needs a row exchange, argsort and sigmoid have no test.",
 [UT], [("solve_lin_sys, argsort_by, sigmoid", UT+":helpers")])
prop("C15", "Acceleration never needs materially more work, and pays off",
 "On ill-conditioned strictly convex problems, an accelerated fit needs at most slightly more coordinate passes than a plain one to reach the same tolerance on each problem, and clearly fewer in aggregate.",
 ["inputs", "configurations"], "ill-conditioned least-squares and multi-task problems; K between 2 and 10",
 "Tests cannot see work done: final coefficients are the same when extrapolation never succeeds, so a broken extrapolation passes them all.",
 [CD, BCD, UT], [("Anderson extrapolation weights", CD+":anderson_accel"), ("Anderson extrapolation weights", BCD+":anderson_accel"), ("solve_lin_sys", UT)], observe=["number of coordinate steps counted by a monitored datafit"])
prop("C16", "Every valid fit completes with finite coefficients of the right shape",
 "On every finite dataset with consistent shapes (magnitudes whose squares are representable) and every finite valid hyperparameter combination, a fit returns normally with one finite coefficient per feature (and per task): no panic, overflow or hang beyond the iteration budget. This includes fewer features than extrapolation points, working sets larger than the problem, a single sample or feature, zero, constant or duplicated columns, zero targets and zero regularisation.",
 ["inputs", "configurations"], "every dataset and valid hyperparameters, extreme but finite scales included",
 "Tests fit only friendly data with near-default knobs.",
 [CD, BCD, EST], [("shape handling in working set and extrapolation", CD), ("shape handling in working set and extrapolation", BCD)])
prop("C17", "Fits depend only on the numbers, respecting symmetries",
 "Memory layout, ownership and strides of the inputs do not influence a fit, and fitting does not modify the dataset. Permuting samples, features or tasks, repeating all samples, flipping signs of features or targets, and jointly rescaling targets and regularisation transform the converged solution accordingly.",
 ["inputs"], "every dataset, layout (row-major, column-major, strided, reversed, owned or view), permutation, sign pattern and scale",
 "Tests use contiguous owned arrays and no transformed repetitions.",
 [CD, BCD, DM, DF, "src/datasets/impl_datasets.rs"], [("ndarray-generic datasets", "src/datasets/impl_datasets.rs")])
prop("C18", "Fits are deterministic, also under concurrency",
 "The same data and hyperparameters give bit-identical coefficients on every repetition, in other processes, after any other fits, when re-using a parameter set, solver or datafit object, and when many threads fit the same shared dataset at once; concurrent fits are free of data races.",
 ["schedules", "histories", "inputs"], "every interleaving of fits on shared data and every order of preceding fits",
 "Tests run each fit once; none runs fits concurrently or repeats them.",
 [CD, BCD, EST], [("no shared mutable state between fits", "src/"), ("datafit fully re-initialised at the start of a fit", CD)])
prop("C19", "The library never exhibits undefined behaviour",
 "No safe use of the Rust API, including malformed CSC arrays, inconsistent shapes and extreme values, reads or writes memory out of bounds, uses uninitialised or freed memory, or leaks another undefined behaviour: it works or stops with an ordinary panic or error.",
 ["inputs", "programs"], "every sequence of safe API calls on valid and hostile inputs",
 "The tests run without instrumentation on well-formed inputs only.",
 [DM, DF, MDF, "src/datasets/csc_array.rs", UT], [("bounds-checked indexing throughout", DM)], observe=["AddressSanitizer, Miri and debug-assertion reports"])
prop("C20", "Python fits solve the same problem as the Rust core",
 "For every estimator of the Python package, fitting on array-likes, dense arrays of any float dtype and memory order, or scipy sparse matrices stores coefficients in coef_ (n_features, or n_tasks by n_features) that are optimal for the documented objective within tolerance, and every constructor option reaches the solver unchanged.",
 ["inputs", "configurations"], "all six estimators, dtypes, memory orders, sparse formats, option values",
 "The Python tests compare with scikit-learn for one dataset per estimator and default options.",
 ["python/src/lasso.rs", "python/src/mcp.rs", "python/src/elastic_net.rs", "python/src/mtl_lasso.rs", "python/src/block_mcp.rs", "python/src/multi_task_elastic_net.rs", PYE], [("fit wrappers", "python/src/"), ("fit methods", PYE)])
prop("C21", "Python rejects invalid input with ordinary exceptions, accepts valid input",
 "For every Python estimator, out-of-domain hyperparameters (wrong type or range for alpha, gamma, l1_ratio, tol, K, p0, max_iter, max_epochs, also when assigned after construction) and malformed data (NaN, infinities, wrong dimensions, mismatched lengths) raise an ordinary Exception no later than fit, never crash, panic or give coefficients. Every in-domain combination is accepted.",
 ["inputs", "configurations", "histories"], "all hyperparameter values and data shapes, set at construction or later",
 "The Python tests never construct an invalid estimator or pass bad data.",
 [PYE, "python/src/"], [("constructor checks and _validate_params", PYE), ("ParamGuard checks behind the wrapper", HYP)])
prop("C22", "Python estimators follow the predictor protocol",
 "For every Python estimator, predict before fit raises an exception and after fit returns X times the coefficients (n_samples, or n_samples by n_tasks) for dense and sparse X; fit returns the estimator itself; refitting replaces the coefficients with those of a fresh estimator; get_params, set_params and clone preserve the configuration; and fitting leaves the caller's arrays, and every coefficient or prediction array handed out earlier, untouched.",
 ["inputs", "histories"], "all estimators, sequences of fit/predict/set_params/clone calls, dense and sparse data",
 "The Python tests never call predict, clone or refit.",
 [PYE], [("Estimator.predict", PYE), ("BaseEstimator protocol", PYE)])
prop("C23", "Python data utilities honour their documentation",
 "make_correlated_data returns arrays of the documented shapes for every option combination, with Y - X w having exactly the requested signal-to-noise ratio (no noise for an infinite one), the requested number of non-zero rows, the given w_true when supplied (1-d or 2-d), reproducibility by random_state, the documented correlation structure, and ValueError for out-of-range options. The Python compute_alpha_max equals the Rust threshold on dense and sparse X.",
 ["inputs"], "all sizes, task counts, correlations, ratios, densities and seeds",
 "The utilities are only used as fixtures.",
 [PYU], [("make_correlated_data, compute_alpha_max", PYU)])
prop("C24", "Verbosity only affects output",
 "Turning verbosity on or off never changes the coefficients in any bit; a quiet fit or solve writes nothing to standard output or standard error, and a verbose one reports progress.",
 ["inputs", "configurations"], "all models, knobs and datasets",
 "Tests never look at output nor compare verbose with quiet fits.",
 [CD, BCD, HYP], [("prints guarded by verbose", CD), ("prints guarded by verbose", BCD)])
prop("C25", "Budgets and tolerance are honoured",
 "A fit performs at most max_iterations times max_epochs passes, each visiting a feature at most once, returns zeros when either budget is zero, does no coordinate work when zero already satisfies the tolerance, and stops spending work once the tolerance is met; a looser tolerance never costs more work than a tighter one.",
 ["configurations", "histories"], "all budgets (including 0 and 1) and tolerances (including 0 and infinity) on every dataset",
 "Tests never count work nor set budgets to small values.",
 [CD, BCD, EST], [("loop bounds and stopping tests", CD), ("loop bounds and stopping tests", BCD)], observe=["calls received by a monitored datafit"])
prop("C26", "Estimators are exactly their datafit-penalty-solver composition",
 "Fitting an estimator gives bit-identical coefficients to solving with its documented datafit and penalty through a Solver with the same settings, for dense and sparse data and both float widths; fitting unchecked and checked parameters agrees, and the coefficient getter returns that array.",
 ["inputs", "configurations"], "all six estimators, all settings, all datasets",
 "Tests exercise the two routes on different data with stored coefficients.",
 [EST, HYP, "src/solvers/impl_solver.rs"], [("Fit implementations", EST), ("Solver::solve / solve_multi_task", "src/solvers/impl_solver.rs")])
prop("C27", "Single precision fits agree with double precision",
 "Every model fitted in f32 on data representable in f32 returns coefficients close to the f64 solution at f32 accuracy, and penalties, datafits and helpers evaluated in f32 agree with their f64 values at f32 accuracy.",
 ["inputs"], "all models on moderately conditioned data",
 "No fit is ever tested in f32.",
 ["src/lib.rs", CD, BCD, PEN, DF], [("generic Float code", "src/lib.rs")])
prop("C28", "Models reduce to each other in their limiting cases",
 "Elastic Net with ratio 1 equals Lasso and with ratio 0 equals the ridge closed form, MCP with a huge gamma equals Lasso, a one-task multi-task model equals its single-task counterpart, zero regularisation equals least squares, and an orthonormal design gives the closed-form thresholded solution.",
 ["inputs", "configurations"], "every dataset on which the limiting problem has a unique solution",
 "Tests compare models with stored numbers, never with each other.",
 [PEN, BPEN, CD, BCD, EST], [("penalty formulas", PEN), ("penalty formulas", BPEN)])
prop("C29", "Regularisation paths are monotone",
 "Along increasing regularisation strength, converged Lasso, Elastic Net, multi-task and logistic fits have non-increasing penalty norm, non-decreasing data loss and non-decreasing optimal objective, and the path starts at the unregularised fit and ends at zero.",
 ["inputs", "configurations"], "every dataset and every pair of strengths",
 "Tests fit at a single strength.",
 [CD, BCD, EST], [("objective scaling shared by datafit and penalty", EST)])
prop("C30", "Design-matrix and dataset operations are exact",
 "For dense and sparse matrices, feature counts, matrix kind, model-fit updates and extrapolated fits equal the plain linear-algebra result for any feature subset in any order, through references too; datasets return the very matrix and targets they were built from, and targets report samples and tasks and convert to single targets exactly when they have one column.",
 ["inputs"], "all matrices, feature subsets, coefficient arrays and target shapes",
 "Tests cover one matrix and never feature subsets or references.",
 [DM, "src/datasets/impl_datasets.rs", "src/datasets/impl_targets.rs", "src/datasets/mod.rs"], [("DesignMatrix implementations", DM), ("AsMultiTargets / AsSingleTargets", "src/datasets/impl_targets.rs")])
prop("C31", "Settings objects hold exactly what was set",
 "For every estimator parameter set and the Solver builder, each setter changes its own field only, the last call wins, untouched fields keep the documented defaults, and checked parameters expose through their getters precisely the values set.",
 ["histories", "configurations"], "every sequence of setter calls with any values",
 "Tests build parameter sets in one order and never read them all back.",
 [HYP, "src/solvers/impl_solver.rs"], [("builder setters and getters", HYP), ("Solver builder", "src/solvers/impl_solver.rs")])

prop("C32", "Working sets hold the support and the worst violators",
 "Each outer iteration of both solvers works on exactly max(start size, min(2 * support size, number of features)) features, never more: they include every feature with non-zero coefficients, no feature left out violates the optimality conditions more than a zero feature taken in, and within the iteration every member with a non-zero column is updated once per epoch. (Features with a null column are never updated; a start size above the number of features means all features.)",
 ["inputs", "histories", "configurations"], "every dataset, penalty, starting size and iteration of a fit, single-task and multi-task, dense and sparse",
 "Tests only see final coefficients, which come out the same when the working set is badly chosen, only later.",
 [CD, BCD], [("ranking and geometric growth", CD+":construct_ws_from_kkt"), ("ranking and geometric growth", BCD+":construct_ws_from_kkt")],
 [("ws", "features of the subproblem", CD)], ["coordinate updates of a monitored penalty and datafit between two scorings of all features"])
prop("C33", "An extrapolation is the Anderson combination, kept only if better",
 "With acceleration on, the iterate changes outside coordinate descent only at every (K+1)-th epoch, and there it either stays as coordinate descent left it or becomes the affine combination of the first K of the cycle's K+1 iterates whose weights (summing to one) minimise the norm of the combined successive differences; the combination is taken exactly when its objective is lower.",
 ["inputs", "histories", "configurations"], "every dataset, penalty, number K of iterates and cycle of a fit, single-task and multi-task, dense and sparse",
 "A wrong combination is turned down by the objective test or repaired by later epochs, so final coefficients do not show it.",
 [CD, BCD, UT], [("extrapolation", CD+":anderson_accel"), ("extrapolation", BCD+":anderson_accel"), ("linear system of the weights", UT+":solve_lin_sys")],
 [("last_K_w, U", "last iterates and their differences", CD)], ["coefficients at truncated epoch budgets"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
