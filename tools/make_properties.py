#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": None}})
ST = "pySOT/strategy/"
BASE = ST + "surrogate_strategy.py"
SRBF = ST + "srbf_strategy.py"
ALLST = [BASE, SRBF, ST+"dycors_strategy.py", ST+"ei_strategy.py", ST+"lcb_strategy.py", ST+"sop_strategy.py", ST+"random_strategy.py"]
AUX = "pySOT/auxiliary_problems/"

prop("C01", "The evaluation budget is never exceeded and is used up",
 "For every strategy, the number of completed evaluations never exceeds max_evals, and at no moment do completed plus in-flight evaluations exceed max_evals. "
 "A run ends with a terminate action only when nothing is in flight; unless evaluations failed after the whole budget had been handed out (or the run converged with restarts disabled, or the user asked it to stop), exactly max_evals evaluations have completed by then. "
 "Random search completes exactly max_evals evaluations even if some attempts fail.",
 ["schedules", "configurations", "fault_sequences"],
 "every strategy and option set, every order of accept/reject/complete/fail/kill events, every number of workers",
 "The strategy tests run six fixed configurations on one objective with no failures or rejections and only check the final count.",
 ALLST, [("check_termination", BASE), ("propose_action", BASE), ("RetryStrategy use", ST+"random_strategy.py")],
 ["propose_action() results", "strategy.num_evals", "EvalRecord states"],
 [("num_evals", "completed evaluations", BASE), ("pending_evals", "outstanding evaluations", BASE)])

prop("C02", "Every proposed point is feasible",
 "Every point that any strategy proposes for evaluation has exactly dim finite coordinates, lies within the problem's lower and upper bounds (up to floating-point rounding), and has an exact integer in every integer coordinate. "
 "This holds in every phase, including initial designs, restarts and re-proposals after failures or rejections.",
 ["inputs", "schedules", "configurations"],
 "every problem (dimension, bounds, integer/continuous split), strategy, surrogate, design, schedule and seed",
 "Tests use a single continuous 10-dimensional problem with symmetric bounds and never look at the proposed points.",
 ALLST + [AUX+"candidate_srbf.py", AUX+"candidate_dycors.py", "pySOT/utils.py"],
 [("round_vars", "pySOT/utils.py"), ("truncated normal candidates", AUX+"candidate_srbf.py"), ("GA clipping", "pySOT/utils.py")],
 ["proposal.args[0]"])

prop("C03", "Bookkeeping equals the true evaluation history",
 "After every event, the strategy's X and fX contain exactly the user-supplied known points followed by the completed evaluations in order of completion, num_evals counts the completions, and fevals lists the finished records (completed and failed) in order. "
 "At the same moments Xpend holds exactly the in-flight points, as a multiset, and pending_evals is their number.",
 ["schedules", "fault_sequences", "histories"],
 "every interleaving of proposals, rejections, completions, failures and kills, with duplicate points possible",
 "Tests only compare the final contents with the controller's list after clean runs; rejections, failures, duplicates and intermediate states are not reached.",
 [BASE, SRBF, ST+"sop_strategy.py"], [("make_proposal/remove_pending", BASE), ("on_*_completed/aborted/rejected", BASE)],
 ["strategy.X", "strategy.fX", "strategy.Xpend", "strategy.num_evals", "strategy.pending_evals", "strategy.fevals"])

prop("C04", "Runs make progress and respect synchronous/asynchronous scheduling",
 "Whenever nothing is in flight, asking for the next action yields an evaluation or terminate, never nothing, so a controller cannot hang. "
 "An asynchronous strategy offers an evaluation whenever budget remains (SOP: and a center is free), while a synchronous strategy hands out adaptive points in batches of exactly batch_size (fewer only when the budget ends) and starts a new batch only after every point of the previous one has finished. "
 "The first points handed out are exactly the points of the initial design plus the extra points that need evaluation, and no adaptive point is generated before all of them have been handed out.",
 ["schedules", "configurations", "fault_sequences"],
 "every strategy, mode, batch size, number of workers and every accept/reject/complete/fail schedule",
 "Thread tests exercise one uncontrolled schedule; a hang or a broken barrier in a rare schedule is not observable there.",
 ALLST, [("propose_action", BASE), ("batch_queue", BASE)], ["propose_action() results", "calls to surrogate.predict"])

prop("C05", "Failed, killed and rejected evaluations leave no trace in the optimization",
 "An evaluation that fails, is killed or whose proposal is rejected contributes no data: it enters neither X/fX nor the surrogate's training set, does not count against the budget, and no longer appears as pending; no exception results. "
 "A point of the initial design (or an extra point) whose evaluation fails or whose proposal is rejected is handed out again, and likewise a rejected point of a synchronous batch.",
 ["schedules", "fault_sequences"],
 "every strategy and every pattern of failures, kills and rejections, in every phase",
 "No test ever fails, kills or rejects an evaluation.",
 ALLST, [("on_initial_aborted/on_initial_rejected", BASE), ("on_adapt_aborted/on_adapt_reject", BASE), ("release_center", ST+"sop_strategy.py")],
 ["strategy.X/fX/Xpend", "surrogate.X/fX", "later proposals"])

prop("C06", "The surrogate is trained on exactly the data of the current run",
 "Whenever an adaptive point is generated, the surrogate contains exactly the completed evaluations proposed since the last restart, with their true values and each exactly once, plus (before the first restart) the known extra points. "
 "A restart resets the surrogate and begins with a new initial design; evaluations proposed before a restart that finish after it never enter the new model, and only restarts discard data.",
 ["schedules", "histories", "configurations"],
 "every strategy with a surrogate, every asynchronous or synchronous schedule, any number of restarts",
 "No test inspects the training data or has evaluations in flight across a restart or a radius change.",
 [BASE, SRBF, ST+"sop_strategy.py", "pySOT/surrogate/surrogate.py"], [("event indices ev_id/ev_restart", BASE), ("sample_restart/sample_initial", BASE)],
 ["surrogate.X", "surrogate.fX", "surrogate.reset calls"])

prop("C07", "Extra points: known values are used, unknown values are evaluated once",
 "An extra point whose value is unknown (no values given, NaN or infinite) is handed out for evaluation as part of the first initial design, exactly once as long as no attempt fails. "
 "A known extra point is never handed out in the initial design; it is in X/fX and the surrogate from the start, does not count against the budget, and is treated like an evaluated point by the adaptive phase (it can be the best point that SRBF/DYCORS search around). Extra points are not used again after a restart, and the caller's arrays are not modified.",
 ["inputs", "schedules", "configurations"],
 "any number of extra points, any mix of known/NaN/inf values, all surrogate strategies, restarts included",
 "No test supplies extra points.",
 [BASE], [("sample_initial", BASE)], ["proposals", "strategy.X/fX", "surrogate.X/fX"])

prop("C08", "Checkpoint files are always complete and up to date",
 "Wherever a checkpointed run is interrupted (between any two file operations or in the middle of a write), the checkpoint file is either absent (only before the first evaluation finished) or loads as a complete strategy. "
 "The loaded snapshot contains every evaluation that had finished before the last completed save, including the one that triggered it, and an interrupted save never damages the previous snapshot. The file may be given as a bare name or with a directory.",
 ["crash_points", "schedules", "configurations"],
 "every crash point (file operation or byte offset), every strategy, serial and parallel schedules with failures",
 "One test kills a serial run once after a fixed number of seconds.",
 [BASE, "pySOT/controller/controller.py"], [("save: temp file + rename", BASE), ("on_update/_save", "pySOT/controller/controller.py")],
 ["checkpoint file contents"])

prop("C09", "A resumed run continues the interrupted one",
 "Resuming from any snapshot keeps all completed evaluations (points, values and order), treats in-flight ones as never started (nothing is pending afterwards), and goes on to complete exactly the remaining budget. If the interruption falls into an initial design, every unfinished point of that design is evaluated and none of its finished points is evaluated again. "
 "The returned best point is the best over both parts. Starting a new run over an existing checkpoint and resuming without one are refused with an error and leave files untouched.",
 ["crash_points", "histories", "configurations"],
 "every snapshot of a run (serial or parallel, with failures), every strategy, repeated interruptions",
 "One serial DYCORS run with one interruption; nothing in flight, no other strategies, only the final count compared.",
 [BASE, "pySOT/controller/controller.py", ST+"sop_strategy.py"], [("resume", BASE), ("resume/run", "pySOT/controller/controller.py")],
 ["CheckpointController.resume()", "strategy.X/fX/num_evals"])

prop("C10", "Runs are reproducible and leave the user's objects alone",
 "With NumPy's random seed fixed, a serial (or deterministically scheduled) run of any strategy is a pure function of its inputs: repeating it gives the identical sequence of points and values. "
 "Neither the run nor the construction of a strategy modifies the arrays of the problem (bounds, variable indices), the extra points and values, or the weights.",
 ["inputs", "configurations", "histories"],
 "every strategy, surrogate, design, problem and seed",
 "No test repeats a run or compares inputs before and after.",
 ALLST, [("np.random use", AUX+"candidate_srbf.py"), ("np.copy of points", BASE)], ["proposals", "input arrays"])

prop("C11", "The RBF interpolant depends only on its data and solves the RBF system",
 "For every kernel, tail and eta, predictions equal those of a direct solve of the documented RBF system for the current data (in unit-box coordinates, after the output transformation), no matter in which increments or order points were added and when predictions were requested in between, including after reset. "
 "Consequently data generated by a polynomial in the tail is reproduced everywhere, and predictions are linear in the function values.",
 ["histories", "inputs", "configurations"],
 "every sequence of add_points/predict/reset calls, every kernel/tail pair, dimension and domain",
 "One fixed 2-D data set added in two increments, checked loosely.",
 ["pySOT/surrogate/rbf.py", "pySOT/surrogate/kernels", "pySOT/surrogate/tails"], [("_fit LU/Cholesky extension", "pySOT/surrogate/rbf.py")],
 ["RBFInterpolant.predict"])

prop("C12", "Derivatives are consistent with values",
 "The RBF interpolant's predict_deriv equals the gradient of predict with respect to the original (unscaled) coordinates, row by row, for every kernel, tail, domain and data set. "
 "Each kernel's deriv is the derivative of its eval, each tail's deriv is the Jacobian of its eval, the kernels and tails have their documented closed forms, and none of these functions modifies its input.",
 ["inputs", "configurations"],
 "all kernels, tails, distances, data sets, domains and evaluation points",
 "Tests compare derivatives at a handful of fixed points in the unit square.",
 ["pySOT/surrogate/rbf.py", "pySOT/surrogate/kernels", "pySOT/surrogate/tails"], [("predict_deriv", "pySOT/surrogate/rbf.py")],
 ["predict_deriv", "Kernel.eval/deriv", "Tail.eval/deriv"])

prop("C13", "Surrogates do not depend on the units of the variables or the values",
 "Rescaling and shifting each variable together with its bounds leaves the predictions of every surrogate (RBF, GP, polynomial) at corresponding points unchanged. "
 "An affine change of the function values (positive factor) maps RBF and GP predictions by the same affine change and scales RBF gradients and GP standard deviations by the factor.",
 ["inputs", "configurations"],
 "all per-coordinate positive scalings and shifts, all affine value changes, all data sets",
 "test_unit_box checks one domain for one surrogate pair.",
 ["pySOT/surrogate/rbf.py", "pySOT/surrogate/gp.py", "pySOT/surrogate/poly.py", "pySOT/surrogate/surrogate.py"],
 [("to_unit_box", "pySOT/utils.py"), ("output standardization", "pySOT/surrogate/gp.py")], ["predict", "predict_std", "predict_deriv"])

prop("C14", "Surrogates are faithful, lazy containers of their data",
 "After any sequence of operations a surrogate's X and fX are exactly the points and values added since construction or the last reset, in order, num_pts is their number, and the arrays passed in are neither modified nor aliased; single points and batches, and scalar, 1-D and column values, are equivalent. "
 "add_points never refits: updated becomes False and the new data takes effect at the next prediction, which sees all data and makes updated True; reset returns the object to the behaviour of a new one. Predictions have shape (n, 1) for n points or a single vector, and the output transformation (identity by default, median capping as documented) affects predictions but never the stored values.",
 ["histories", "inputs", "configurations"],
 "every sequence of add/predict/reset calls on every surrogate class",
 "Each surrogate test performs one fixed sequence.",
 ["pySOT/surrogate/surrogate.py", "pySOT/surrogate/rbf.py", "pySOT/surrogate/gp.py", "pySOT/surrogate/poly.py", "pySOT/surrogate/output_transformations"],
 [("add_points/reset/updated", "pySOT/surrogate/surrogate.py")], ["Surrogate attributes and predict"])

prop("C15", "GP and polynomial surrogates match independent reference models",
 "With a given kernel, GPRegressor's mean and standard deviation equal the closed-form Gaussian-process posterior for the standardized values, mapped back to the original units; with the default kernel the posterior is consistent with the kernel it reports as fitted. "
 "PolyRegressor equals ridge regression (unit penalty, free intercept) on all monomials up to the given degree in unit-box coordinates. The standard deviation is non-negative, of shape (n, 1), and does not exceed the prior's.",
 ["inputs", "configurations"],
 "all data sets, domains, dimensions, kernels and degrees",
 "The GP test checks a loose accuracy bound on one data set (and fails in this environment); the polynomial test likewise.",
 ["pySOT/surrogate/gp.py", "pySOT/surrogate/poly.py"], [("_fit standardization", "pySOT/surrogate/gp.py"), ("Ridge pipeline", "pySOT/surrogate/poly.py")],
 ["predict", "predict_std"])

prop("C16", "Candidate search returns the best candidate under the documented merit",
 "Each point chosen by weighted-distance selection is one of the candidates and minimizes w*s + (1-w)*(1-d) (values and distances rescaled to [0,1]) among candidates at least dtol away from all evaluated, pending and already chosen points; if such a candidate exists the chosen point keeps that distance, and inputs are not modified. "
 "The SRBF, DYCORS and uniform searches choose in this way from num_cand feasible candidates that differ from the search center (the best evaluated point, or the given one) only in the given subset of coordinates; DYCORS perturbs every candidate in at least one coordinate, each coordinate of the subset being eligible, and on average in a prob_perturb fraction of them.",
 ["inputs", "configurations"],
 "all problems, data sets, pending points, weights, subsets, radii, tolerances and surrogate landscapes",
 "The tests check two weights on one data set by a distance comparison, and fail in this environment.",
 [AUX+"candidate_srbf.py", AUX+"candidate_dycors.py", AUX+"candidate_uniform.py"], [("weighted_distance_merit", AUX+"candidate_srbf.py")],
 ["return values", "calls to surrogate.predict"])

prop("C17", "Expected improvement and confidence-bound selection match their formulas",
 "ei_merit is the closed-form expected improvement below the best value and lcb_merit is mean minus kappa standard deviations, for every row, with points closer than dtol to evaluated or pending points made unattractive (EI 0, LCB infinite). "
 "The EI and LCB searches return either None or num_pts feasible points with integer coordinates rounded, each at least dtol away from evaluated, pending and previously chosen points and with merit reaching the given tolerance/target; None is returned only if the search found no such point, and a returned point is at least as good as the points of the search's own populations.",
 ["inputs", "configurations"],
 "all data sets, pending points, tolerances and predicted means/deviations",
 "test_ei uses one data set and fails in this environment; LCB has no direct test.",
 [AUX+"ei_merit.py", AUX+"lcb_merit.py", AUX+"ei_ga.py", AUX+"lcb_ga.py", ST+"ei_strategy.py", ST+"lcb_strategy.py"],
 [("ei_merit", AUX+"ei_merit.py"), ("lcb_merit", AUX+"lcb_merit.py")], ["return values", "calls to surrogate.predict"])

prop("C18", "The genetic algorithm returns the best feasible individual it evaluated",
 "Every population evaluated by the genetic algorithm has pop_size rows (rounded up to even), lies within the bounds and has integers in the integer coordinates, for every documented initial population including a user-supplied one, which is left unmodified; it performs num_gen generations after the initial one. "
 "The returned value equals the function at the returned individual and is the smallest value of any individual ever evaluated. "
 "Parents are winners of tournaments of five, crossover (probability 0.9) averages them, and mutation perturbs each coordinate with probability 1/dim by a normal with standard deviation 0.2 of its range, clipped to the bounds.",
 ["inputs", "configurations"],
 "all dimensions, bounds, integer sets, population sizes, generations, initializations, objectives and seeds",
 "One smooth test function with a tolerance on the result.",
 ["pySOT/utils.py"], [("elitism and clipping in GeneticAlgorithm.optimize", "pySOT/utils.py")], ["function arguments", "optimize() result"])

prop("C19", "Experimental designs have their defining structure",
 "In the unit box a Latin hypercube has exactly one point in each of num_pts equal slices per coordinate, a symmetric Latin hypercube takes each of the num_pts equally spaced levels in [0,1] once per coordinate and is symmetric under point reflection about the center, and the two-factorial design is exactly the set of corners. "
 "Mapped to a domain they are the affine image with integer variables rounded into the bounds, always num_pts distinct points of full rank; of the requested number of iterations the design with the largest minimum distance is kept. An unusable request is refused with ValueError.",
 ["inputs", "configurations"],
 "all dimensions, numbers of points, iterations, domains, integer sets and seeds",
 "Tests check three fixed sizes and only bounds/shape/rounding.",
 ["pySOT/experimental_design"], [("_expdes_dist", "pySOT/experimental_design/experimental_design.py"), ("_slhd", "pySOT/experimental_design/slhd.py")], ["generate_points"])

prop("C20", "Pareto utilities agree with the definition of dominance",
 "For any set of objective vectors, nd_front splits the indices into the vectors not dominated by any other (dominance: strictly smaller in every objective) and the rest, and nd_add updates such a split by one vector; ties and duplicates do not matter. "
 "nd_sorting assigns front numbers by repeatedly removing the non-dominated vectors, leaving infinity for fronts not reached once nmax vectors are ranked, and the radius rule rejects a point exactly if it is closer to some center than that center's (failure-halved) radius times the threshold over sqrt(dim).",
 ["inputs"], "all matrices of objective vectors (with ties), all nmax, all centers",
 "One fixed front, one fixed sort (failing here) and two fixed radius cases.",
 ["pySOT/utils.py"], [("nd_add/nd_front/nd_sorting/check_radius_rule", "pySOT/utils.py")], ["return values"])

prop("C21", "Box maps, rescaling and rounding are exact inverses/projections",
 "to_unit_box and from_unit_box are mutually inverse affine bijections that send the bounds to 0 and 1; unit_rescale maps any array onto [0,1] by an increasing affine map (constant arrays to ones). "
 "round_vars leaves continuous variables untouched and sends each integer variable to the closest integer inside the bounds, is idempotent, and works for any set of integer indices; these functions do not modify arguments other than the array round_vars is documented to return.",
 ["inputs"], "all shapes, bounds (also fractional ones on integer variables) and values",
 "Tests check a single matrix each.",
 ["pySOT/utils.py"], [("to_unit_box/from_unit_box/unit_rescale/round_vars", "pySOT/utils.py")], ["return values"])

prop("C22", "Test problems are what they are documented to be",
 "Every built-in test problem passes the library's own problem check in every supported dimension, and its stored global minimizer (where given) is inside the domain and attains the stored minimum value, below which the function does not go anywhere in the domain. "
 "Each function agrees with its published formula at every point, is deterministic, returns a finite scalar, does not modify its argument, and rejects a point of the wrong dimension with ValueError.",
 ["inputs", "configurations"], "all problems, dimensions and points of the domain",
 "test_all evaluates each problem once at the minimizer and does not look inside the domain.",
 ["pySOT/optimization_problems"], [("eval/__check_input__", "pySOT/optimization_problems")], ["eval", "attributes"])

prop("C23", "Invalid configurations are refused, valid ones accepted",
 "Constructing a strategy with an inconsistent configuration raises an error before anything is proposed: max_evals that is not an integer, not positive or smaller than the initial design, a missing batch size in synchronous mode, objects that do not implement the required interfaces, malformed problems (dimension, bounds, variable indices), a non-GP surrogate for EI/LCB, weights outside [0,1], too few SOP centers or a batch larger than the number of centers; also a kernel whose order exceeds the tail's degree by more than one, mismatching dimensions between points and surrogates, and unknown arguments of the genetic algorithm. "
 "Every consistent configuration is accepted.",
 ["configurations", "inputs"], "all combinations of arguments, with one defect injected at a time or none",
 "The tests construct only a few valid configurations.",
 ALLST + ["pySOT/utils.py", "pySOT/surrogate/rbf.py"], [("check_input", BASE), ("check_opt_prob", "pySOT/utils.py")], ["constructors"])

prop("C24", "SRBF/DYCORS adapt the sampling radius and restart as documented",
 "The sampling radius starts at 0.2 in every run, is halved after failtol consecutive fresh results (asynchronous) or batches (synchronous) without significant improvement of the run's best adaptive value and doubled, up to 0.2, after three consecutive improvements, where results proposed before the last radius change do not count; the run restarts exactly when the radius has become minimal (0.2/2^6) or 4*failtol consecutive failures occurred. "
 "Candidates are centered at the best point of the current run with spread given by the current radius (at least 1 for integer variables), the weights are used cyclically in order, and DYCORS lowers the perturbation probability logarithmically with the number of evaluations, never below 1/dim.",
 ["histories", "schedules", "configurations"],
 "all sequences of objective values, synchronous and asynchronous schedules with out-of-order completions, all dimensions and batch sizes",
 "No test looks at the radius, restarts, weights or candidates.",
 [SRBF, ST+"dycors_strategy.py", AUX+"candidate_srbf.py", AUX+"candidate_dycors.py"], [("adjust_step", SRBF), ("get_weights", SRBF), ("generate_evals", ST+"dycors_strategy.py")],
 ["strategy.sampling_radius", "calls to surrogate.predict and exp_design.generate_points"])

prop("C25", "SOP searches around Pareto-selected centers",
 "Every adaptive SOP point is the candidate with the smallest predicted value (subject to the distance tolerance) among candidates that perturb a DYCORS-distributed subset of the coordinates of one center, and centers are evaluated points chosen in the documented order: not tabu first, then by non-domination rank in (value, distance to the other points), then by value, skipping points within the radius of centers chosen in the same update; the best point found is always a center unless its search is already in progress. "
 "A center whose search does not produce a non-dominated point has its radius halved, and it becomes tabu for five rounds after more than three failures.",
 ["histories", "schedules", "configurations"],
 "all sequences of objective values, synchronous and asynchronous schedules",
 "All SOP tests fail in this environment, and would only check the evaluation count.",
 [ST+"sop_strategy.py", "pySOT/utils.py"], [("update_center_list/adjust_memory/update_ranks", ST+"sop_strategy.py")],
 ["calls to surrogate.predict", "proposals"])

prop("C26", "A run does not depend on the unit of the domain or of the objective",
 "Multiplying the lower and upper bounds (and the extra points) of a continuous problem by a common factor, or multiplying all objective values (and ei_tol/lcb_tol) by a positive factor, does not change a run: with the same random seed and the same schedule every strategy gives the same answers, its points multiplied by the factor of the bounds. "
 "Only the absolute distance tolerance 1e-3 of the candidate searches and the floor for the spread of the values in GPRegressor are exempt.",
 ["configurations", "inputs", "schedules"],
 "every strategy, surrogate without internal scale, schedule and factor; factors that are powers of two are exact in floating point",
 "No test runs the same problem in two units, and one problem in one unit cannot show a constant that has a unit.",
 ALLST + ["pySOT/surrogate/rbf.py", "pySOT/utils.py", AUX+"candidate_srbf.py"],
 [("to_unit_box", "pySOT/utils.py"), ("unit_rescale", "pySOT/utils.py"), ("adjust_step", SRBF)], ["propose_action() results"])

prop("C27", "Documented defaults and equivalent statements of a problem give the same run",
 "Leaving an option out, setting it to None or setting it to its documented default is the same: weights, num_cand, ncenters, kappa, dtol, use_restarts, asynchronous, extra points, ei_tol/lcb_tol and the arguments kernel, tail, eta, degree and output_transformation of the surrogates. "
 "The batch size is ignored in asynchronous mode, an unknown extra value may be NaN, inf, -inf or no array at all, and bounds, indices, weights, extra points and objective values may have any numeric type (and weights any sequence type): with the same seed the run is identical.",
 ["configurations", "inputs"], "every combination of equivalent replacements, strategies, surrogates, modes and problems",
 "The tests pass most options explicitly and never compare two ways of stating the same problem.",
 ALLST + ["pySOT/surrogate/rbf.py", "pySOT/surrogate/surrogate.py", "pySOT/surrogate/poly.py"],
 [("constructors", BASE), ("constructor", "pySOT/surrogate/rbf.py"), ("check_input", BASE)], ["points passed to the objective", "result of the controller"])

prop("C28", "Strategies are independent of each other and of observers",
 "Several strategies in one process, advanced in any interleaving and each with its own random state, behave exactly as if each ran alone, even if they share the problem, the experimental design, kernels, tails, weights and the arrays of extra points. "
 "Saving a strategy, copying it with copy.deepcopy (whatever then happens to the copy) or reading its public attributes during a run does not change the run.",
 ["interleavings", "configurations", "histories"],
 "every set of configurations, interleaving of their steps, set of shared objects and moments of observation",
 "Every test creates one strategy and runs it alone.",
 ALLST + ["pySOT/surrogate/surrogate.py", "pySOT/surrogate/rbf.py"], [("save", BASE), ("reset", "pySOT/surrogate/surrogate.py")],
 ["propose_action() results", "strategy.X", "strategy.fX"])

prop("C29", "Runs under the real controllers end with the best evaluation",
 "Under POAP's serial, simulated-time and threaded controllers, also behind CheckWorkerStrategy or pySOT's CheckpointController, with any number of workers, any evaluation times and objectives that may raise, a run ends with nothing in flight, the returned record is a best completed evaluation (None if there is none), the budget is used up unless evaluations crashed, and X, fX, num_evals and fevals of the strategy describe exactly the evaluations that were made. "
 "Checkpointing works while the workers are active and for objectives that cannot be pickled, and the last snapshot holds the complete run.",
 ["schedules", "fault_sequences", "configurations"],
 "every controller, number of workers, evaluation time, crash pattern and configuration",
 "The tests run a handful of fixed configurations with objectives that never fail, and no snapshot is taken while workers are active.",
 ALLST + ["pySOT/controller/controller.py"], [("CheckpointController", "pySOT/controller/controller.py"), ("save", BASE)],
 ["result of controller.run()", "strategy.X", "strategy.fX", "strategy.num_evals", "strategy.fevals", "checkpoint file"])

prop("C30", "Surrogate optimization beats random search by far on smooth problems",
 "On smooth convex problems with two to four variables (minimizer in the interior, moderate conditioning, continuous or with integer variables) SRBF, DYCORS and SOP with a cubic or thin-plate RBF find points within 40 evaluations after the initial design - and EI and LCB with a smooth Gaussian process within 12 - that are better than all but a fraction of about 1e-4 of the domain, where random search reaches 1e-2 (3e-2 with the budget of EI and LCB): averaged geometrically over five problems the fraction stays below 3e-3 (8e-3 for EI and LCB). "
 "This holds for every schedule, unit and offset of the values, and with failures and rejections.",
 ["inputs", "configurations", "schedules"],
 "every strategy, such problem, schedule and seed",
 "The tests do not look at the quality of the result at all.",
 ALLST + ["pySOT/surrogate/rbf.py", "pySOT/surrogate/gp.py", AUX+"candidate_srbf.py", AUX+"candidate_dycors.py", AUX+"ei_merit.py"],
 [("generate_evals", SRBF), ("weighted_distance_merit", "pySOT/auxiliary_problems/candidate_srbf.py")], ["values of the completed evaluations"])

prop("C31", "The log records every evaluation once and does not influence the run",
 "Every completed evaluation of a surrogate strategy leads to exactly one entry at level INFO, which tells its number, its value and its point (as evaluated), and every crashed one to exactly one entry at level WARNING with its point; there are no other entries about evaluations or warnings. "
 "The level of logging does not influence the run.",
 ["histories", "schedules", "configurations"],
 "every strategy, configuration and schedule with failures, rejections and restarts",
 "No test reads the log.",
 [BASE, "docs/logging.rst"], [("log_completion", BASE), ("log_failure", BASE)], ["records of the logger pySOT"])

prop("C32", "Serial runs do not depend on the mode, synchronous runs not on the workers",
 "With one worker, an asynchronous run and a synchronous run with batch size 1 evaluate exactly the same points, also with crashes (without crashes for SOP). "
 "A synchronous run is determined by its batches: for a deterministic objective (crashes being a function of the point) without ties it evaluates the same initial designs and the same batches whatever the number of workers, the order in which the evaluations of a batch finish and the proposals that are rejected on the way.",
 ["schedules", "histories", "configurations"],
 "every configuration, number of workers, order of completion, pattern of crashes and rejections",
 "The tests run one schedule per mode and only look at its end.",
 ALLST, [("propose_action", BASE), ("on_adapt_completed", SRBF), ("on_adapt_aborted", SRBF), ("generate_evals", SRBF)],
 ["points proposed by propose_action()"])

prop("C33", "What is documented to be random is uniform, independent and new every time",
 "The points of random search, the candidates of the uniform search (in the given subset of coordinates) and the random initial population of the genetic algorithm are independent and uniform in the domain (before integers are rounded). "
 "In (symmetric) Latin hypercubes from one iteration every assignment of the levels of one coordinate to those of another is equally likely (subject to the symmetry), coordinates are independent of each other and designs from successive calls are independent.",
 ["inputs", "histories"],
 "every domain, size and seed, every sequence of calls",
 "The tests look at single designs, a fixed or degenerate one passes.",
 ["pySOT/experimental_design/lhd.py", "pySOT/experimental_design/slhd.py", "pySOT/strategy/random_strategy.py", AUX+"candidate_uniform.py", "pySOT/utils.py"],
 [("_slhd", "pySOT/experimental_design/slhd.py"), ("RandomStrategy", "pySOT/strategy/random_strategy.py"), ("candidate_uniform", AUX+"candidate_uniform.py")],
 ["generate_points()", "propose_action()", "candidates passed to predict()", "populations passed to the function"])

prop("C34", "The progress plot shows every result and the best value so far",
 "progress_plot draws the values of all completed evaluations of a controller in their order and the running minimum of these values, each at consecutive positions, leaves out crashed and unfinished evaluations, shows the whole range of values and the given title, switches to interactive mode only on request and does not change the records.",
 ["histories"],
 "every history of completed, crashed and unfinished evaluations",
 "The tests do not plot (matplotlib is not installed).",
 ["pySOT/utils.py"], [("progress_plot", "pySOT/utils.py")], ["calls of pyplot"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
