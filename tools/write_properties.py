#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay editable)."""
import json, os
P = []
SS = "pySOT/strategy/surrogate_strategy.py"
def prop(id, title, statement, over, qtext, why, files, mech, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({"state": [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}),
                               hook_needed=None)))

prop("S01", "The evaluation budget is never exceeded",
     "Whatever the order of proposals, accepts, rejects, completions and aborts, and across restarts, a strategy never has more evaluations completed plus outstanding than the evaluation budget it was given. The random-sampling strategy submits exactly as many points as its budget.",
     ["histories", "schedules", "configurations"],
     "every interleaving of proposal replies and record updates, every strategy, serial/synchronous/asynchronous, with and without restarts",
     "The tests run each strategy once per controller with one budget and only check the final count on lucky schedules; no test delivers rejects or aborts in adversarial order.",
     [SS, "pySOT/strategy/random_strategy.py"],
     [("check_termination / propose_action", SS), ("make_proposal, on_*_completed, on_*_rejected, on_*_aborted counters", SS), ("one rput per budget unit", "pySOT/strategy/random_strategy.py")],
     [("num_evals", "completed evaluations", SS), ("pending_evals", "outstanding evaluations", SS), ("max_evals", "budget", SS)])
prop("S02", "Outstanding evaluations are accounted for exactly",
     "After every reply a strategy's count of outstanding evaluations and its list of pending points describe exactly the evaluations it has proposed that have not yet been rejected, completed, killed or cancelled. Proposing adds the proposed point once, a rejection or the end of an evaluation removes it once, and an acceptance or an intermediate status update changes neither.",
     ["histories", "schedules", "fault_sequences"],
     "every reply (accepted, rejected) to every proposal and every status (pending, running, completed, killed, cancelled) of every evaluation, in both phases, for every strategy class",
     "Tests never kill, cancel or reject; serial runs always have one outstanding evaluation, so a leaked or double-released slot stays invisible.",
     [SS, "pySOT/strategy/sop_strategy.py", "pySOT/strategy/srbf_strategy.py"],
     [("make_proposal / remove_pending", SS), ("on_initial_* and on_adapt_* handlers", SS)],
     [("pending_evals", "number outstanding", SS), ("Xpend", "pending points", SS)])
prop("S03", "Every completed evaluation is recorded exactly once, with its own value",
     "When an evaluation completes, exactly one row with its own point and its own value is appended to the strategy's history of points and values, at the same position in both, its record is added once to the list of evaluations and the completion counter grows by one. Evaluations that are killed, cancelled or still in progress add nothing to the points, values or counter.",
     ["histories", "schedules", "fault_sequences"],
     "every completion/abort history of every strategy class, in both phases",
     "Tests compare the best value found with a loose bound; swapped, dropped or duplicated rows do not change it.",
     [SS, "pySOT/strategy/sop_strategy.py", "pySOT/strategy/srbf_strategy.py"],
     [("on_initial_completed / on_adapt_completed", SS), ("on_initial_update / on_adapt_update dispatch on status", SS)],
     [("X, fX", "points and values of all completed evaluations", SS), ("fevals", "finished records", SS)])
prop("S04", "A run's model holds exactly the evaluations of that run",
     "Every evaluation proposed since the last restart enters, on completion and exactly once, the surrogate and the current-run data, with its own point and value. An evaluation proposed before the last restart never does, no matter when it finishes, and killed or cancelled evaluations never do.",
     ["histories", "schedules"],
     "every interleaving of restarts, proposal acceptances and completions, including asynchronous stragglers from an earlier run or an earlier sampling radius",
     "Stragglers across a restart need an asynchronous schedule with a restart in flight; the tests never restart with evaluations outstanding.",
     [SS, "pySOT/strategy/srbf_strategy.py"],
     [("event index compared in on_*_completed", SS), ("sample_restart", SS), ("on_*_accepted stamps the record", SS)],
     [("_X, _fX", "data of the current run", SS), ("ev_id, ev_restart, ev_next", "event order", SS)])
prop("S05", "Initial-design points and synchronous batch points are never lost",
     "A point of the initial design whose proposal is rejected or whose evaluation is killed or cancelled goes back into the queue unchanged and exactly once, and so does a point of a synchronous batch whose proposal is rejected. Adaptive points that were aborted, or rejected in asynchronous mode, are not queued again, and completed points never are.",
     ["histories", "fault_sequences"],
     "every reply and every final status of every proposed point in both phases and both modes",
     "No test rejects a proposal or aborts an evaluation in the initial phase.",
     [SS],
     [("on_initial_rejected, on_initial_aborted, on_adapt_reject, on_adapt_aborted", SS)],
     [("batch_queue", "points waiting to be proposed", SS)])
prop("S06", "Strategies terminate exactly when done and never stall",
     "A strategy asks to terminate only when nothing is outstanding and the budget is spent, or it has converged and restarts are disabled. It declines to propose anything only while some evaluation is outstanding, so that a later reply can always make progress, and after convergence with restarts disabled no further evaluation is proposed.",
     ["histories", "schedules", "configurations"],
     "every reachable combination of phase, mode, convergence, restart setting, queue content and outstanding evaluations",
     "The tests always use restarts and never converge, so the terminating and waiting branches are mostly unreached.",
     [SS, "pySOT/strategy/random_strategy.py"],
     [("propose_action", SS), ("check_termination", SS), ("propose_action", "pySOT/strategy/random_strategy.py")],
     [("terminate, converged, use_restarts, phase", "protocol flags", SS)])
prop("S07", "A restart begins a fresh run and keeps the global history",
     "When a run restarts, the current-run data and the surrogate are emptied, a new complete initial design is queued, the convergence flag and the run-local search state (sampling radius, success and failure counters, best value of the run) return to their initial values, and the strategy is back in its initial phase. The global history of points and values, the list of evaluations, the counters of completed and outstanding evaluations and the pending points are untouched.",
     ["histories", "configurations"],
     "every state in which a restart can be triggered, for every strategy class",
     "No test reaches a restart and then inspects the state.",
     [SS, "pySOT/strategy/srbf_strategy.py"],
     [("sample_restart", SS), ("sample_initial", SS), ("sample_initial", "pySOT/strategy/srbf_strategy.py")])
prop("S08", "Synchronous batches wait for the whole batch; asynchronous proposals come singly",
     "In synchronous mode new adaptive points are generated, and a converged run is restarted, only when nothing is outstanding and the queue is empty, and exactly one batch of the configured size is generated; in asynchronous mode exactly one point is generated at a time. Every strategy's generator adds exactly the requested number of points to the queue, or declares convergence and adds none.",
     ["histories", "schedules", "configurations"],
     "all schedules; all strategy classes; batch sizes and modes",
     "With serial controllers the two modes coincide; thread tests cannot observe generation with work outstanding.",
     [SS, "pySOT/strategy/srbf_strategy.py", "pySOT/strategy/dycors_strategy.py", "pySOT/strategy/ei_strategy.py", "pySOT/strategy/lcb_strategy.py", "pySOT/strategy/sop_strategy.py"],
     [("propose_action", SS), ("generate_evals", "each strategy")])
prop("S09", "Initial design and extra points are each queued exactly once",
     "Starting a run queues every point of the generated initial design exactly once, generated for the problem's own bounds and integer variables. At the start of the first run only, each user-supplied extra point without a finite value is queued once, while each one with a known value is not evaluated but enters the history, the current-run data and the surrogate with that value.",
     ["inputs", "configurations", "histories"],
     "all designs, all extra points with known, unknown (missing, nan, inf) or mixed values, first run and restarts",
     "Tests never pass extra points.",
     [SS],
     [("sample_initial", SS)])
prop("S10", "Every generated point lies in the domain and is integer where required",
     "Every point that a strategy, a candidate or acquisition search, an experimental design mapped to a domain, or the genetic algorithm produces lies within the lower and upper bounds of the problem in every coordinate and has integer values in the integer coordinates.",
     ["inputs", "configurations", "histories"],
     "all problems (bounds of an integer variable need not be integers, but an integer lies between them), all current best points, radii, subsets, random draws and surrogate values",
     "Tests check a few continuous problems and one small mixed one with particular seeds.",
     ["pySOT/auxiliary_problems/candidate_srbf.py", "pySOT/auxiliary_problems/candidate_dycors.py", "pySOT/auxiliary_problems/candidate_uniform.py", "pySOT/auxiliary_problems/ei_ga.py", "pySOT/auxiliary_problems/lcb_ga.py", "pySOT/utils.py", "pySOT/strategy/random_strategy.py", "pySOT/experimental_design/experimental_design.py", "pySOT/experimental_design/two_factorial.py"],
     [("truncated perturbations and rounding", "pySOT/auxiliary_problems"), ("round_vars", "pySOT/utils.py"), ("clipping and rounding in GeneticAlgorithm.optimize", "pySOT/utils.py"), ("_expdes_dist", "pySOT/experimental_design/experimental_design.py")])
prop("S11", "The sampling radius follows success and failure counts",
     "In the stochastic RBF strategies a step counts as a success exactly when it improves the run's best value by more than 0.1 percent (or is the first). The radius is halved after the tolerated number of consecutive failures and doubled, but never above its initial maximum, after three consecutive successes, and otherwise unchanged; convergence is declared exactly when the radius falls to its minimum or the failures reach their maximum.",
     ["histories"],
     "all sequences of completed values in serial, synchronous and asynchronous mode",
     "The tests run for 200 evaluations of one function and never inspect the radius.",
     ["pySOT/strategy/srbf_strategy.py"],
     [("adjust_step", "pySOT/strategy/srbf_strategy.py"), ("on_adapt_completed", "pySOT/strategy/srbf_strategy.py")],
     [("sampling_radius, status, failcount, _fbest", "trust-region state", "pySOT/strategy/srbf_strategy.py")])
prop("S12", "Merit weights are used in cyclic order",
     "Every adaptively generated point of the stochastic RBF strategies takes the next weight of the configured list, in order and wrapping around at the end, continuing where the previous batch stopped. Point i of a batch is selected with weight i of that batch.",
     ["histories", "configurations"], "all weight lists, batch sizes and histories",
     "Tests use the default weights and look only at the best value.",
     ["pySOT/strategy/srbf_strategy.py", "pySOT/auxiliary_problems/candidate_srbf.py"],
     [("get_weights", "pySOT/strategy/srbf_strategy.py"), ("weighted_distance_merit", "pySOT/auxiliary_problems/candidate_srbf.py")])
prop("S13", "SOP centers propose once each and their memory follows the outcomes",
     "In SOP each available center generates at most one new point until that point is finished, and a completed point is credited to the center that generated it and to its own position in the archive. A center whose new point is not on the best Pareto front gains one failure and has its radius halved, a center with more than three failures becomes tabu with its failures cleared and radius reset, and a tabu point is released with its memory reset after five updates. Every completed evaluation of a center counts exactly once, also in a batch whose last evaluation is aborted.",
     ["histories", "schedules"], "all completion orders and outcomes, synchronous and asynchronous",
     "The SOP tests check only the best value found.",
     ["pySOT/strategy/sop_strategy.py"],
     [("generate_evals, on_adapt_completed, adjust_memory", "pySOT/strategy/sop_strategy.py"), ("_SopRecord, _SopCenter", "pySOT/strategy/sop_strategy.py")])
prop("S14", "SOP selects the centers its archive and memory call for",
     "Before each generation SOP ranks the evaluated points by non-dominated sorting on function value (smaller is better) and on the distance in the unit cube to the nearest other evaluated point (larger is better), with fronts peeled off until 100 points are ranked. Centers whose point is finished leave the list of centers, all others stay in it, and the list is refilled to exactly the configured number. First comes the best evaluated point, even if it is tabu, unless it is the center of a point still under way; then the evaluated points follow in order of tabu status (centers still under way count as tabu), front and function value. Each is accepted only if, for every center picked in this refill, it lies outside that center's radius (the sampling radius over the square root of the dimension, halved with each failure of that center and shrinking linearly to zero from the end of the initial design to the end of the budget). If the archive is exhausted first, the picked centers repeat in the same order. Every new center holds the evaluated point it was chosen from with that point's archive position, and starts without a new point. The selection after an evaluation uses the memory and fronts as that evaluation left them.",
     ["histories", "inputs"], "all archives, memories and sets of centers under way, synchronous and asynchronous",
     "The SOP tests check only the best value found; a wrong center only makes the search worse.",
     ["pySOT/strategy/sop_strategy.py"],
     [("generate_evals, update_center_list, adjust_memory", "pySOT/strategy/sop_strategy.py"), ("update_ranks, update_F", "pySOT/strategy/sop_strategy.py")])
prop("S15", "Each strategy chooses its points by the search and merit it documents",
     "Adaptive points of SRBF come from the Gaussian candidate search over all coordinates, those of DYCORS and SOP from the search perturbing a subset of the coordinates, those of EI and LCB from maximizing expected improvement and minimizing the lower confidence bound. Every search is asked with the strategy's own surrogate; SOP selects from the candidates of a center by the surrogate prediction alone (merit weight one for every point); SRBF and DYCORS search with the current sampling radius and LCB with the configured kappa, in every state and for every batch size.",
     ["histories", "configurations"], "all states in which points are generated, synchronous and asynchronous, all batch sizes",
     "Tests look only at the best value found; another merit only makes the search worse.",
     [SS, "pySOT/strategy/srbf_strategy.py", "pySOT/strategy/sop_strategy.py"],
     [("generate_evals", "pySOT/strategy/srbf_strategy.py"), ("generate_evals", "pySOT/strategy/sop_strategy.py"), ("generate_evals", "pySOT/strategy/ei_strategy.py"), ("generate_evals", "pySOT/strategy/lcb_strategy.py")])
prop("C01", "A checkpoint on disk is always a complete snapshot",
     "Saving writes the whole state to a separate temporary file in the same directory, closes it, and only then replaces the checkpoint in one atomic rename. The checkpoint itself is never opened for writing, truncated or removed, so a crash at any point leaves the previous or the new complete snapshot.",
     ["crash_points"], "a crash before, during or after any file operation of a save; any checkpoint path",
     "The test never crashes inside a save and uses a bare file name.",
     [SS, "pySOT/controller/controller.py"],
     [("save", SS), ("_save", "pySOT/controller/controller.py")])
prop("C02", "Every finished evaluation reaches the checkpoint",
     "With checkpointing on, every evaluation that completes, is killed or is cancelled, and the end of the run, each trigger a save, and that save happens after the strategy has recorded the evaluation. Intermediate updates do not trigger saves, and a fresh run refuses to start when the checkpoint file already exists.",
     ["histories", "crash_points", "fault_sequences"], "every evaluation outcome and every moment at which the process may stop",
     "The test kills a serial run at one wall-clock time; it never aborts an evaluation nor looks at which evaluations the file holds.",
     ["pySOT/controller/controller.py"],
     [("_add_on_update, on_update, on_terminate, run", "pySOT/controller/controller.py")])
prop("C03", "Resuming restores the saved run and re-queues its lost initial points",
     "Resuming loads the strategy from the checkpoint (failing if there is none), gives its evaluations to the controller, calls the strategy's resume step and then continues the run. The resume step forgets everything that was outstanding, re-queues each outstanding point of an initial phase exactly once, lets the unspent budget be used, and leaves the history, the surrogate, the queue and the other counters as saved.",
     ["crash_points", "histories"], "every snapshot that can be taken, in either phase, with any outstanding evaluations",
     "The serial test resumes once with nothing outstanding.",
     ["pySOT/controller/controller.py", SS, "pySOT/strategy/sop_strategy.py"],
     [("resume", "pySOT/controller/controller.py"), ("resume", SS)])
prop("M01", "Predictions always reflect all data added so far",
     "Every prediction, standard deviation or derivative of a surrogate is computed from a model fitted to all points added since the last reset and to no others. Adding points or resetting invalidates the fit and nothing else marks it valid than a fit with the current data; adding points does not itself fit.",
     ["histories"], "all sequences of add, reset, predict, predict-std and predict-deriv calls on all surrogates",
     "Tests follow one add-then-predict sequence per surrogate.",
     ["pySOT/surrogate/surrogate.py", "pySOT/surrogate/gp.py", "pySOT/surrogate/mars.py", "pySOT/surrogate/poly.py", "pySOT/surrogate/rbf.py"],
     [("updated flag, reset, add_points", "pySOT/surrogate/surrogate.py"), ("_fit and predict*", "each surrogate")])
prop("M02", "Surrogate data stay aligned, and raw values are never altered",
     "Adding points appends the points and their values in matching order, keeps the scaled copy of the points and the point count consistent with them, and rejects mismatched sizes or dimensions; resetting empties all of it. The output transformation is applied to a copy of the values exactly when fitting, so the stored values always remain the ones supplied, and the fit pairs each scaled point with its own transformed value.",
     ["inputs", "histories"], "all points, scalar or array values, transformations and call sequences",
     "Tests use the identity or one capping on one data set, and look at predictions only.",
     ["pySOT/surrogate/surrogate.py", "pySOT/surrogate/gp.py", "pySOT/surrogate/mars.py", "pySOT/surrogate/poly.py", "pySOT/surrogate/rbf.py", "pySOT/surrogate/output_transformations/median_capping.py"],
     [("add_points, reset", "pySOT/surrogate/surrogate.py"), ("_fit", "each surrogate"), ("median_capping", "pySOT/surrogate/output_transformations/median_capping.py")])
prop("M03", "Predictions have one row per query point",
     "For any number of query points, given as an n x dim array or as a single vector, every surrogate returns predictions and standard deviations of shape n x 1 and derivatives of shape n x dim.",
     ["inputs"], "all numbers of query points including one, all dimensions, all surrogates",
     "Tests compare values on one grid; broadcasting hides wrong shapes.",
     ["pySOT/surrogate/gp.py", "pySOT/surrogate/mars.py", "pySOT/surrogate/poly.py", "pySOT/surrogate/rbf.py"],
     [("predict, predict_std, predict_deriv", "each surrogate")])
prop("M04", "Surrogates scale queries exactly as they scale their data",
     "Surrogates map query points to the unit box with the same bounds used for the stored points, exactly once. Scaling applied to the values for fitting is undone in predictions and standard deviations, and derivatives are returned with respect to the original coordinates.",
     ["inputs", "configurations"], "all domains (not only the unit box), queries and surrogates that provide the operation",
     "Most tests use symmetric or unit domains on which several wrong scalings agree.",
     ["pySOT/surrogate/surrogate.py", "pySOT/surrogate/gp.py", "pySOT/surrogate/mars.py", "pySOT/surrogate/poly.py", "pySOT/surrogate/rbf.py"],
     [("to_unit_box in add_points and predict*", "pySOT/surrogate"), ("chain-rule division in predict_deriv", "pySOT/surrogate/rbf.py")])
prop("M05", "The RBF model uses the requested kernel and tail and forgets on reset",
     "An RBF interpolant uses the kernel, polynomial tail and regularization it was given, filling in cubic and linear defaults only for what was omitted, and refuses kernel/tail pairs whose orders do not fit or whose dimension is wrong. After a reset nothing of the earlier factorization or coefficients is reused, and a failed incremental update falls back to a full refit.",
     ["configurations", "histories"], "all kernel/tail/eta combinations and all add/reset/predict histories",
     "Tests pass both kernel and tail together and never reset between fits.",
     ["pySOT/surrogate/rbf.py"],
     [("__init__, reset, _fit", "pySOT/surrogate/rbf.py")])
prop("M08", "Incremental RBF updates agree with refitting from scratch",
     "Extending a fitted RBF model with new points, one by one or in blocks, gives (up to rounding) the same predictions as a model built from all points at once, also when the update of the factorization fails and a new one is computed; without regularization the model reproduces the (transformed) function values at the points added.",
     ["inputs", "histories"], "all data, increments, kernels, tails and transformations",
     "Tests compare on one data set.", ["pySOT/surrogate/rbf.py"], [("_fit", "pySOT/surrogate/rbf.py")])
prop("M06", "Kernels and tails compute their documented formulas with true derivatives",
     "Each radial kernel evaluates its documented formula elementwise and its derivative is the derivative of that formula; its order and each polynomial tail's degree and basis size match the basis it evaluates, and the tail derivative is the derivative of that basis. Wrong input dimensions are rejected.",
     ["inputs"], "all distances, including zero, and all points and dimensions",
     "Tests compare with finite differences at a few points.",
     ["pySOT/surrogate/kernels/cubic_kernel.py", "pySOT/surrogate/kernels/linear_kernel.py", "pySOT/surrogate/kernels/tps_kernel.py", "pySOT/surrogate/tails/constant_tail.py", "pySOT/surrogate/tails/linear_tail.py"],
     [("eval/deriv", "pySOT/surrogate/kernels"), ("eval/deriv", "pySOT/surrogate/tails")])
prop("M09", "Output transformations compute what they document and leave their input alone",
     "Median capping replaces exactly the values above the median of all given values by that median and keeps every other value, in place and order, for any number of values including even counts and ties; the identity transformation changes nothing. Neither modifies the array it is given, so the true values of the run are never overwritten.",
     ["inputs"], "all columns and vectors of function values",
     "Tests use one transformation on one data set.", ["pySOT/surrogate/output_transformations/median_capping.py", "pySOT/surrogate/output_transformations/identity.py"],
     [("median_capping", "pySOT/surrogate/output_transformations/median_capping.py"), ("identity", "pySOT/surrogate/output_transformations/identity.py")])
prop("V01", "The progress plot shows every finished evaluation and the best value so far",
     "The progress plot of a controller draws the function values of exactly the evaluations that finished, in order, whatever their values (zero and negative values included), next to the running minimum of these values; evaluations that crashed are skipped without shifting the others, and the plotted range contains every value.",
     ["histories"], "all evaluation histories with at least one finished evaluation",
     "Plotting is never run by the tests.", ["pySOT/utils.py"], [("progress_plot", "pySOT/utils.py")])
prop("M07", "Library calls never modify the caller's data",
     "Arrays and lists passed by the user or by another component (points, values, bounds, candidate sets, pending points, distances, initial populations, objectives, weights) are not modified by predictions, fits, kernel and tail evaluations, candidate and acquisition searches, designs, the genetic algorithm, benchmark evaluations or strategies. The data a surrogate or a strategy keeps is not aliased to the arrays of an evaluation request or of the user so that later changes cannot corrupt it.",
     ["inputs", "histories"], "every public function and method, all inputs",
     "Tests rarely reuse an input after a call and never compare it.",
     ["pySOT/surrogate", "pySOT/auxiliary_problems", "pySOT/utils.py", "pySOT/optimization_problems", "pySOT/experimental_design", "pySOT/strategy"],
     [("copies before in-place updates", "throughout")])
prop("U01", "Unit-box maps are exact inverses and rounding stays in the domain",
     "Mapping to the unit box and back are the affine maps sending the lower bound to 0 and the upper bound to 1, inverse to each other, coordinate by coordinate. Rounding moves exactly the integer coordinates to the nearest integer within the bounds, and rescaling to the unit interval maps minimum to 0 and maximum to 1, or gives all ones for constant input.",
     ["inputs"], "all points, bounds, index sets and vectors, including constant vectors",
     "Tests check a few points.",
     ["pySOT/utils.py"], [("to_unit_box, from_unit_box, round_vars, unit_rescale", "pySOT/utils.py")])
prop("U02", "The genetic algorithm returns the best point it evaluated, with its value",
     "The genetic algorithm returns a point together with the objective value computed for that very point (with integer variables rounded), no worse than every point of the final and of every earlier generation. Invalid initial populations (wrong size, outside the domain, unknown method) are rejected, and valid ones are accepted.",
     ["inputs", "configurations"], "all objectives, domains, integer sets, population sizes, generation counts and random draws",
     "Tests run it on one function and check closeness to the optimum.",
     ["pySOT/utils.py"], [("GeneticAlgorithm.optimize", "pySOT/utils.py")])
prop("U03", "Pareto ranking is a correct partition by domination",
     "One vector dominates another exactly when it is strictly better (smaller) in every objective; splitting a set puts every point exactly once into the non-dominated or the dominated part. Ranking gives front 1 to non-dominated points and each next rank to the points non-dominated once the earlier fronts are removed; points beyond the requested number stay unranked, and the radius rule rejects exactly the points closer than the scaled radius to an already chosen center.",
     ["inputs"], "all objective matrices and limits",
     "Tests use a handful of small matrices.",
     ["pySOT/utils.py"], [("domination, nd_add, nd_front, nd_sorting, check_radius_rule", "pySOT/utils.py")])
prop("D01", "Designs deliver the promised number of distinct points or fail loudly",
     "A generated experimental design has exactly the announced number of points and dimensions, lies in the unit cube or, when bounds are given, in the mapped and rounded domain. Latin hypercube type designs are chosen among the requested number of trials as the one with the largest minimum distance among those of full rank (ranked after mapping and rounding), never contain coinciding points, and an error is raised when no trial qualifies; the two-level factorial design contains every corner and refuses 15 or more dimensions.",
     ["inputs", "configurations"], "all dimensions, sizes, bounds, integer sets and random draws",
     "Tests check fixed sizes and seeds.",
     ["pySOT/experimental_design/experimental_design.py", "pySOT/experimental_design/lhd.py", "pySOT/experimental_design/slhd.py", "pySOT/experimental_design/two_factorial.py"],
     [("_expdes_dist", "pySOT/experimental_design/experimental_design.py"), ("generate_points", "each design")])
prop("D02", "Latin hypercube designs hit every level once per coordinate and are symmetric",
     "Before mapping to bounds, a Latin hypercube design has in every coordinate exactly one point in each of the num_pts equal intervals, a symmetric Latin hypercube design exactly one point on each of the num_pts levels, and the symmetric variant is point-symmetric about the center of the cube.",
     ["inputs"], "all sizes (even and odd), dimensions and random draws",
     "Tests check two sizes.",
     ["pySOT/experimental_design/slhd.py", "pySOT/experimental_design/lhd.py"], [("_slhd", "pySOT/experimental_design/slhd.py"), ("generate_points", "pySOT/experimental_design/lhd.py")])
prop("B01", "Benchmark problems describe themselves consistently and check their input",
     "Every benchmark problem declares a dimension, bounds of that length with lower below upper, disjoint integer and continuous index sets covering all coordinates, and, where it declares a minimizer, one inside the bounds. Its evaluation rejects points of the wrong length before computing anything and does not modify the point.",
     ["configurations", "inputs"], "all benchmark classes, all dimensions, all points",
     "The test instantiates each class once with its default dimension.",
     ["pySOT/optimization_problems"], [("__init__ and eval of each problem", "pySOT/optimization_problems"), ("__check_input__", "pySOT/optimization_problems/optimization_problem.py")])
prop("B02", "Benchmark problems compute their published formulas",
     "For every point of every dimension, each benchmark problem returns the value of its published (documented) objective function.",
     ["inputs", "configurations"], "all points and dimensions for all problems",
     "The test evaluates each function only at its minimizer in the default dimension, where many wrong formulas agree.",
     ["pySOT/optimization_problems"], [("eval of each problem", "pySOT/optimization_problems")])
prop("A01", "Acquisition values follow their definitions",
     "Expected improvement equals sigma*(g*Phi(g)+phi(g)) with g=(f_best-mu)/sigma, the lower confidence bound equals mu-kappa*sigma, and the weighted merit equals w*v+(1-w)*(1-d) with predictions v and distances d each rescaled to [0,1]. Each selected candidate minimizes the merit, every selected point being taken into account in the distances for the following ones and never chosen again while another admissible candidate remains.",
     ["inputs"], "all candidates, data, weights and surrogate predictions",
     "Tests check that the search returns points, not that the merit is right.",
     ["pySOT/auxiliary_problems/ei_merit.py", "pySOT/auxiliary_problems/lcb_merit.py", "pySOT/auxiliary_problems/candidate_srbf.py"],
     [("ei_merit", "pySOT/auxiliary_problems/ei_merit.py"), ("lcb_merit", "pySOT/auxiliary_problems/lcb_merit.py"), ("weighted_distance_merit", "pySOT/auxiliary_problems/candidate_srbf.py")])
prop("A02", "New points keep their distance from evaluated, pending and fellow points",
     "Candidates closer than the distance tolerance to a previously evaluated point of the run, a pending point or a point already chosen for the same batch get the worst possible merit (zero improvement, or an infinite bound or merit) in every acquisition. The acquisition searches give up, returning nothing, exactly when the best attainable improvement is below its tolerance or the best bound is above its target, and strategies pass their own run data, pending points and (where they take one) tolerance to the search.",
     ["inputs", "histories", "schedules"], "all data, pending sets, batch sizes and tolerances",
     "With serial tests there is never a pending point; duplicates are rare and unnoticed.",
     ["pySOT/auxiliary_problems/ei_merit.py", "pySOT/auxiliary_problems/lcb_merit.py", "pySOT/auxiliary_problems/ei_ga.py", "pySOT/auxiliary_problems/lcb_ga.py", "pySOT/auxiliary_problems/candidate_srbf.py", "pySOT/strategy"],
     [("distance masks", "pySOT/auxiliary_problems"), ("give-up tests", "pySOT/auxiliary_problems/ei_ga.py, lcb_ga.py"), ("generate_evals", "pySOT/strategy")])
prop("A03", "Candidate searches perturb around the best point as documented",
     "Candidates are the best evaluated point of the run (or the given center) with only coordinates of the requested subset changed: all of them for the stochastic RBF and uniform searches, and for the dynamic coordinate search each with the given probability and at least one per candidate. Perturbations are centered at that point with standard deviation radius times the coordinate range (at least 1 for integer variables), the uniform search draws over the full range, and the default number of candidates is 100 per dimension.",
     ["inputs", "configurations"], "all data, subsets, radii, probabilities and draws",
     "Tests never pass a subset and look only at bounds of the result.",
     ["pySOT/auxiliary_problems/candidate_srbf.py", "pySOT/auxiliary_problems/candidate_dycors.py", "pySOT/auxiliary_problems/candidate_uniform.py"],
     [("candidate generation", "pySOT/auxiliary_problems")])
prop("A04", "DYCORS and SOP perturb fewer coordinates as the budget is spent",
     "Every call of the dynamic coordinate search by a strategy passes the perturbation probability max(min(20/d, 1)(1 - ln(n - n0 + 1)/ln(N - n0)), min(1, 1/d)), where d is the dimension, N the budget, n0 the size of the initial design and n the number of completed and pending evaluations, over all restarts.",
     ["histories", "schedules", "configurations"], "all numbers of completed and pending evaluations, budgets, design sizes and dimensions",
     "Tests have small dimensions, serial schedules and never look at the probability.",
     ["pySOT/strategy/dycors_strategy.py", "pySOT/strategy/sop_strategy.py"],
     [("generate_evals", "pySOT/strategy/dycors_strategy.py, sop_strategy.py")])
prop("K01", "Invalid configurations are rejected when constructed",
     "Constructing a strategy or checking a problem raises an error for a problem, design or surrogate of the wrong kind, a budget that is not a positive integer or is smaller than the initial design, a missing batch size in synchronous mode, malformed dimension, bounds or variable index sets, merit weights outside [0,1], an SOP batch larger than its number of centers, or a surrogate unsuited to the strategy. Valid configurations are accepted.",
     ["configurations"], "all argument combinations",
     "Tests construct valid objects only.",
     [SS, "pySOT/strategy/srbf_strategy.py", "pySOT/strategy/sop_strategy.py", "pySOT/strategy/ei_strategy.py", "pySOT/strategy/lcb_strategy.py", "pySOT/strategy/random_strategy.py", "pySOT/utils.py"],
     [("check_input", "each strategy"), ("check_opt_prob", "pySOT/utils.py")])
prop("K02", "Every configuration argument takes effect",
     "Each argument of every public constructor and search function has the effect its documentation gives it: it is stored or forwarded under its own name to where it is used, never dropped, swapped with another or overwritten, and documented defaults apply exactly when it is omitted.",
     ["configurations"], "all public constructors and search functions and all their arguments",
     "Tests mostly use defaults.",
     ["pySOT/strategy", "pySOT/auxiliary_problems", "pySOT/surrogate", "pySOT/experimental_design", "pySOT/optimization_problems", "pySOT/utils.py"],
     [("constructors and forwarding calls", "throughout")])
prop("K03", "Runs are reproducible from NumPy's global random seed",
     "All randomness in the library comes from NumPy's global random state and nothing reseeds, replaces or bypasses it, nor depends on time, process identity, hashing or the order of unordered collections.",
     ["histories", "inputs"], "all library functions",
     "Tests fix the seed and never compare two runs.",
     ["pySOT"], [("np.random / scipy.stats calls", "throughout")])
prop("K04", "Separate objects and runs share no hidden mutable state",
     "No function or method keeps state in mutable default arguments, class-level containers or module-level variables, so that building or running one strategy, surrogate, design or problem never affects another.",
     ["histories", "configurations"], "all functions, classes and modules",
     "Tests build fresh objects and rarely two of a kind at once.",
     ["pySOT"], [("instance attributes initialised per object", "throughout")])
prop("K05", "No code path uses a name, attribute or library call that does not exist",
     "On every path of every function, each name is bound before it is used, each attribute read on the object itself is assigned by some constructor or method that has run, calls within the library match the signatures of what they call, and the external functions used exist in the installed versions.",
     ["inputs", "configurations", "histories"], "all paths of all functions in the library",
     "Rarely executed branches (aborts, restarts, odd sizes) are never run by the tests.",
     ["pySOT"], [("all modules", "pySOT")])
# declined
prop("N03", "Optimizers find near-optimal solutions on the benchmarks",
     "With a reasonable budget each strategy finds a solution close to the known optimum of the benchmark problems.",
     ["inputs", "histories"], "all seeds and problems", "Tests check one seed and one problem.",
     ["pySOT/strategy"], [("all strategies", "pySOT/strategy")])
prop("N04", "Concurrent workers never corrupt the strategy",
     "Under threaded or distributed controllers all callbacks of a strategy run one at a time, so that its state is never observed half updated.",
     ["schedules"], "all thread and message schedules", "Thread tests sample a few schedules.",
     ["pySOT/strategy"], [("controller event loop", "POAP, outside this repository")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, sort_keys=False) + "\n")
print(len(P), "properties")
