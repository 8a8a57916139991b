#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Q = "sqpdfo/"
MAIN, SQP, PRE, TRB = Q + "sqpdfo_main.py", Q + "sqpdfo.py", Q + "sqpdfo_prelim.py", Q + "sqpdfo_solve_TR_bc.py"

P = []


def prop(pid, title, statement, over, qtext, why, files, mech, observe, level_note, state="", claimed=True):
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], state=[dict(name=w.strip(), meaning="state the property is about", where=files[0]) for w in (state or "info, X, fX, Y, sigma, delta").split(",") if w.strip() != "none"],
                               observe_at=[observe], hook_needed=None), note=level_note, claimed=claimed))


FEW = "The tests run a handful of fixed problems and compare final values to a few digits; "
INP = ["inputs", "histories", "configurations"]

prop("P01", "Evaluation accounting: every user call is a counted, paired, used evaluation",
     "In every run of optimize, info.nsimul[1] (also at every iteration) equals the number of calls of func_f made so far; func_c is called exactly once after "
     "each call of func_f, at the same point, when there are constraints, and func_f is never called twice without it in between; every "
     "point handed to the user is a finite vector of the n original variables; every trust-region step is followed by exactly one evaluation, at its trial "
     "point, before the next step; between two steps further evaluations occur only for an improvement of the interpolation set.",
     INP, "all problems, options, budgets and sequences of objective values",
     FEW + "the count and pairing must hold at every point of every history, including runs that stop on a budget or fail.",
     [MAIN, PRE, Q + "sqpdfo_augmX_evalf.py", Q + "sqpdfo_func.py", Q + "sqpdfo_evalfgh.py"],
     [("evaluation and counter", Q + "sqpdfo_augmX_evalf.py"), ("trial evaluation", MAIN), ("improvement evaluations", MAIN)],
     "calls of func_f and func_c; info.nsimul; sqpdfo_solve_TR_bc_ and sqpdfo_iter_printout_ calls",
     "Model checked on the core specification; runs of the real code are validated step by step as behaviours of the trace specification.")

prop("P02", "Budgets and termination: every run ends, within its budgets, with the right flag",
     "Every run returns. No trust-region step is computed once miter iterations were made or msimul evaluations used; the count of evaluations exceeds msimul by at "
     "most the initial set or one set improvement; info.niter never exceeds miter by more than one and advances by at most two between steps. info.flag is 5 only "
     "if niter >= miter, 6 only if nsimul >= msimul and niter < miter, and 15 only if the trust-region radius fell to its minimum (1e-10 or ten machine epsilons of |x|). "
     "A run on valid arguments whose evaluations all succeed ends with flag 0, 3 (no finite neighbourhood), 5, 6, 8, 15 or 30.",
     INP, "all problems, budgets miter and msimul >= 1, and objective-value sequences (including adversarial ones)",
     FEW + "a budget test missed on one path (after an improvement, a rejected step, a failed replacement) shows only for particular histories.",
     [MAIN, SQP, Q + "sqpdfo_options.py"],
     [("budget tests at the head of the loop", MAIN), ("radius exits", MAIN)], "info.flag, info.niter, info.nsimul, return of optimize",
     "Core specification: invariants and liveness (termination) exhaustively; real runs validated, with budgets ending the run in every phase.")

prop("P03", "Result consistency: what is returned describes the returned point",
     "When a run returns after its initial set was evaluated, x is a one-dimensional vector of the n variables that was evaluated by func_f, info.f is "
     "func_f(x), info.ce is func_c(x), lm is finite with n + me + mi entries, the flag is a documented one, and with flag 0 (equalities only) info.feasn is the largest "
     "constraint violation at x. This holds on every exit (convergence, budgets, small radius, failed evaluation). A run that fails earlier still returns a complete one-dimensional x.",
     INP, "all problems, exits and histories",
     FEW + "the incumbent, its values and the printed state are kept in several variables updated on a dozen paths.",
     [MAIN, SQP, Q + "sqpdfo_augmX_evalf.py", Q + "sqpdfo_find_smallf.py"],
     [("reassembly of the result", SQP), ("incumbent bookkeeping i_xbest, fx, info.f", MAIN)], "optimize return value",
     "Real runs validated by the trace specification with the recorded evaluations as oracle.")

prop("P04", "Acceptance: the iterate moves exactly when merit decreases enough",
     "The current iterate is always an evaluated point, and its f and constraint values are the evaluated ones. After a trust-region step it becomes the trial point "
     "only if the merit f + sigma*|c| decreased by at least 1e-4 times the predicted reduction (and that is positive), and then always (unless the trial coincides with an evaluated point); "
     "otherwise it stays. The penalty parameter sigma starts at 1, never decreases and grows to max(1.5 sigma, q/(0.7 rpred)) exactly when it is below that threshold. An improvement of the interpolation "
     "set moves to the point of the set inside the bounds with the least f + floor(sigma)*|c|, never to a worse one. Without constraints f never increases from iterate to iterate, nor above the first value at return.",
     INP, "all problems and objective-value sequences",
     FEW + "each acceptance decision depends on the values of the last two iterates; wrong ones still converge on easy problems.",
     [MAIN, Q + "sqpdfo_find_smallf.py"],
     [("rho, sigma, merit", MAIN), ("best point after improvement", Q + "sqpdfo_find_smallf.py")], "sqpdfo_solve_TR_bc_, sqpdfo_find_smallf_, sqpdfo_optimality_ calls; func_f, func_c",
     "The decision rules (SqpRules.tla) are model checked with small integers and evaluated in IEEE arithmetic on recorded runs.")

prop("P05", "Bounds: iterates, trial points and results respect lb <= x <= ub",
     "Every iterate, every trial point that is evaluated, every point moved to after an improvement, and the returned x satisfy lb <= x <= ub up to 1e-7; the "
     "points of the initial set lie inside the bounds exactly; without bounds the first evaluation is at x0; variables fixed by lb = ub have that value in every evaluation.",
     ["inputs", "configurations"], "all bounds (one-sided, narrow, infinite, fixed), starting points inside or outside, constraints",
     FEW + "bound handling differs per component and per active set.",
     [PRE, TRB, MAIN, Q + "bcdfo_solve_TR_MS_bc.py", Q + "sqpdfo_find_smallf.py"],
     [("starting point and initial simplex", PRE), ("bounded trust-region step", TRB), ("in-bounds test", Q + "sqpdfo_find_smallf.py")],
     "func_f arguments, returned x", "Real runs over bound configurations validated by the trace specification.")

prop("P06", "Trust-region discipline: steps, radius updates and model decrease",
     "The radius is always in [1e-10, 1e5]. An unconstrained step is no longer than the radius, or than twice the radius when it was composed of parts because it met a bound; a constrained one is no longer than twice the radius (a component may in addition be moved onto a bound 1e-5 away), and a step never increases the "
     "quadratic model when there are no constraints. After an accepted step the radius becomes min(max(2|s|, delta), 1e5), or five times (ratio >= 0.9 and delta < 5) or twice (ratio >= 1e-4) the radius when the step was at the boundary; after a rejected "
     "one it is kept, halved, or set to between 0.01 and 0.5 of min(delta, |s|), and is never increased. A set improvement sets it to the radius used for the improvement.",
     INP, "all problems and objective-value sequences",
     FEW + "radius laws are per-step relations between consecutive states.",
     [MAIN, TRB, Q + "bcdfo_solve_TR_MS.py", Q + "bcdfo_solve_TR_MS_bc.py", Q + "sqpdfo_truncated_cg.py"],
     [("radius updates", MAIN), ("step computation", TRB)], "sqpdfo_solve_TR_bc_ arguments and results",
     "Radius rules of SqpRules.tla: exhaustive on the core model, IEEE on recorded runs.")

prop("P07", "Success is truthful: flag 0 means feasible and stationary",
     "If info.flag is 0, then at the returned x every equality is satisfied within 100 tol_feas, every inequality holds within 100 tol_feas, info.feasn <= 100 tol_feas, info.glagn <= 100 tol_grad, these figures are those of the returned point, "
     "and for smooth problems (default or Frobenius-norm models) the true projected gradient of the Lagrangian, with the returned multipliers, is small: at most 100 tol_grad (10 + 0.01 max|lm|). "
     "The reported Lagrangian gradient is g + lm_b (on bounds within 1e-5) + A'lm and the reported feasibility is c (minus squared slacks).",
     ["inputs", "configurations"], "all smooth problems, tolerances, bounds and constraints",
     FEW + "a premature success needs a model that looks stationary where the function is not.",
     [MAIN, Q + "sqpdfo_optimality.py", Q + "sqpdfo_compute_multiplier.py"],
     [("convergence tests", MAIN), ("optimality measures", Q + "sqpdfo_optimality.py")], "info.flag, info.glagn, info.feasn, x, lm; true derivatives of the problem families (Problem.tla)",
     "Oracle: derivatives of the problem families written in TLA+; recorded runs validated. Not covered: signs of inequality multipliers (squared slacks allow wrong signs).")

prop("P08", "Multipliers are the bounded least-squares multipliers of the iterate",
     "Multipliers computed at an iterate are finite, have one entry per variable and constraint, vanish for variables away from their bounds, are nonpositive at an active lower and nonnegative at an active upper bound, "
     "may be nonzero exactly for variables on their bounds, and solve the (normal-equation) least-squares problem min |A(A'lm + g)| under these sign conditions, where A stacks the active-bound rows and the constraint gradients (including the slack derivatives). The multipliers returned are the last ones computed, with zeros for variables fixed by their bounds.",
     ["inputs", "configurations"], "all iterates, active sets and constraint gradients", FEW + "multipliers are only compared at solutions.",
     [Q + "sqpdfo_compute_multiplier.py", Q + "blls.py", MAIN], [("least squares", Q + "sqpdfo_compute_multiplier.py"), ("bounds passed", MAIN)],
     "sqpdfo_compute_multiplier_ results, lm returned", "KKT conditions of the least-squares problem evaluated by TLC on every recorded computation (well-conditioned ones).")

prop("P09", "Interpolation set integrity: points, values and models agree",
     "Whenever models are built, every point of the interpolation set is an evaluated point (or the point substituted for it is), the values used are those the user returned there, the set has between n+1 and (n+1)(n+2) points, "
     "and on a poised set every interpolation model (objective and each constraint) takes the given values at the points; the gradient and Jacobian used are the derivatives of those models at the current iterate. "
     "The improvement of a set keeps the iterate, changes only the points it reports, puts the new ones within the given radius and leaves none outside the far radius; the choice of the best point only permutes the set.",
     INP, "all histories of set updates (augment, replace far/close/current, improvement)",
     FEW + "a mismatch between Y, fY, ind_Y and X after a particular sequence of updates corrupts later models silently.",
     [MAIN, Q + "bcdfo_computeP.py", Q + "bcdfo_repair_Y.py", Q + "bcdfo_include_in_Y.py", Q + "bcdfo_augment_Y.py", Q + "sqpdfo_swap_in_Y.py", Q + "sqpdfo_find_smallf.py"],
     [("set updates", MAIN), ("model building", Q + "bcdfo_computeP.py")], "bcdfo_computeP_, sqpdfo_computeHessian_, bcdfo_repair_Y_, sqpdfo_find_smallf_ calls",
     "Recorded runs validated; polynomials are evaluated by TLC (Poly.tla), poisedness by a checked witness.", state="Y, fY, ind_Y, X, fX, poised_model")

prop("P10", "Runs are isolated: a run does not depend on earlier runs in the process",
     "A run of optimize makes the same evaluations and returns the same result whatever runs (with other problems, inequality slacks, options, failures or rejected arguments) were made before it in the same process; it also prints the same, and in the same directory it writes the same history file.",
     ["histories"], "all sequences of calls", "State in module globals leaks only for particular sequences; tests run few sequences.",
     [SQP, Q + "sqpdfo_global_variables.py", Q + "sqpdfo_init_prob.py", PRE, Q + "sqpdfo_func.py"], [("globals", Q + "sqpdfo_global_variables.py"), ("reset at start", SQP)],
     "optimize calls in one process against a fresh process", "TLC enumerates call histories (Session.tla); each is executed and compared with fresh runs by the pair specification.", state="module globals")

prop("P11", "Failure containment: a failed evaluation ends the run cleanly with flag 3",
     "If func_f raises or returns NaN or an infinity, or func_c raises or returns NaN, at any evaluation (initial set, trial point, set improvement), then optimize does not raise, evaluates no further point, returns flag 3 with the "
     "best iterate so far, and closes the history file. Flag 3 is never returned when all evaluations are finite and moderate. Infinite constraint values are clipped and are no failure.",
     ["fault_sequences", "inputs"], "every evaluation number as the failing one, every kind of failure", "Tests contain no failing evaluation at later points.",
     [Q + "sqpdfo_func.py", Q + "sqpdfo_augmX_evalf.py", MAIN, PRE], [("exception handling", Q + "sqpdfo_func.py"), ("flag", Q + "sqpdfo_augmX_evalf.py")],
     "optimize return, user calls", "Fault at each evaluation of generated problems; runs validated by the trace specification.")

prop("P12", "Arguments and options are validated before anything is evaluated",
     "Missing or malformed arguments (no objective, no x0, empty x0, constraints announced without func_c) and invalid options (nonpositive miter, msimul, dxmin, inf; negative tolerances; unknown hess_approx, whichmodel, final_degree, algo_descent) "
     "are reported with flag 1, inconsistent bounds and problems with all variables fixed with flag 2, without raising and without evaluating; zero tolerances mean 1e-5; verbose outside 0..6 and negative fout are replaced by 1; the values of the string options are read without regard to "
     "case and spaces and missing options have their documented defaults.",
     ["inputs", "configurations"], "all combinations of the option and argument classes", "Tests check a few single options.",
     [SQP, PRE, Q + "sqpdfo_options.py"], [("option checks", Q + "sqpdfo_options.py"), ("argument checks", SQP)], "optimize return, user calls, effective options",
     "Decision table in TLA+ (Api.tla) enumerated by TLC, executed, and compared.", state="options")

prop("P13", "The history file convhist.m tells the run's story",
     "With verbose 1 to 3 convhist.m starts with the header, has one row per printed iteration (niter, nsimul, f, merit (of the initial point, after a step of its trial point), |gradient of the Lagrangian|, and feasibility when there are constraints) equal to the iteration's state, replaces any earlier file, is closed by '];' on every "
     "exit, its niter and nsimul columns never decrease and its last row shows the returned niter, nsimul and f; every f in it is the value of an evaluated point. With verbose 0 it has no rows.",
     INP, "all runs, exits and verbosity levels", "No test reads the file.",
     [Q + "sqpdfo_iter_printout.py", SQP, MAIN], [("row", Q + "sqpdfo_iter_printout.py"), ("header and closing", SQP)], "convhist.m in the working directory",
     "The file is parsed and compared by TLC with the recorded iterations and the result.", state="convhist.m")

prop("P14", "Runs depend only on the problem: deterministic, pure, format independent",
     "Repeating a call makes the same evaluations and returns the same result. The caller's x0, lb, ub, options and the arrays the user's functions return are not modified, and a returned array that the user's function overwrites later does not change what was returned. The representation of x0, lb, ub (column, row, flat array, list, tuple, scalar), of the values returned by func_f and func_c, "
     "the verbosity level, infinite bounds given as inf or 1e20 or omitted, and in-place changes the user's functions make to their argument, do not change the evaluations or the result.",
     ["inputs", "configurations", "histories"], "pairs of equivalent calls", "Tests use one representation and verbosity.",
     [SQP, Q + "sqpdfo_func.py", Q + "sqpdfo_augmX_evalf.py", Q + "sqpdfo_iter_printout.py", PRE, MAIN], [("input conversion", SQP), ("user call", Q + "sqpdfo_func.py")],
     "evaluations and results of pairs of runs", "Pair specification (PairTrace.tla): two recorded runs must be equal step by step.", state="caller's objects")

prop("P15", "Fixed variables: the run is that of the reduced problem",
     "A problem with variables fixed by equal bounds makes the same evaluations (with the fixed values inserted) and returns the same f, flag, counts and (expanded) x as the problem in the remaining variables alone; multipliers of the remaining variables and the constraints agree.",
     ["inputs", "configurations"], "all subsets of fixed variables", "Tests contain no fixed variable.",
     [PRE, MAIN, SQP, Q + "sqpdfo_augmX_evalf.py", TRB], [("reduction", PRE), ("expansion", Q + "sqpdfo_augmX_evalf.py"), ("reassembly", SQP)],
     "evaluations and results of the full and the reduced problem", "Pair specification with the embedding map.", state="nfix, indfix, indfree, xfix")

prop("P16", "Inequalities: slack bookkeeping and feasibility",
     "Inequality constraints c(x) >= 0 are handled as c(x) - s^2 = 0: the slacks start at sqrt(max(c, 0)) of the initial point and stay with the iterate (kept when a step is rejected or the set improved, replaced by those of the step when it is accepted, a zero slack being reset to sqrt(c) when c > 0.01), "
     "the feasibility measure is |c - s^2| for inequalities and |c| for equalities, and success (flag 0) means c >= -100 tol_feas at x.",
     INP, "all problems with mi > 0 and histories", "Few tests have inequalities, none looks at slacks.",
     [SQP, MAIN, TRB, Q + "sqpdfo_global_variables.py", Q + "sqpdfo_optimality.py"], [("slack update", MAIN), ("slack derivatives", TRB)], "slacks seen by sqpdfo_solve_TR_bc_ and sqpdfo_optimality_; x",
     "Recorded runs validated by the trace specification.", state="slacks")

prop("P17", "Unconstrained trust-region solvers meet their contracts",
     "bcdfo_solve_TR_MS_ returns a step no longer than the radius (1 + eps), the reported norm, model value and gradient are those of the step, and the value is within 2% of the global minimum of the quadratic in the ball (for g not 0); "
     "sqpdfo_truncated_cg_ returns a step inside the radius with at least the Cauchy decrease, flag 0 only if the residual meets the tolerance, 1 or 2 only on the boundary, 2 only with negative curvature.",
     ["inputs"], "all symmetric matrices (definite, indefinite, singular, hard case), gradients and radii", "Tests use single matrices.",
     [Q + "bcdfo_solve_TR_MS.py", Q + "sqpdfo_truncated_cg.py"], [("More-Sorensen iteration", Q + "bcdfo_solve_TR_MS.py"), ("Steihaug CG", Q + "sqpdfo_truncated_cg.py")], "return values",
     "TLC enumerates small integer problems and checks the contracts of the recorded calls, with a global lower bound from a checked multiplier certificate.", state="none")

prop("P18", "Bound-constrained subproblem solvers meet their contracts",
     "bcdfo_solve_TR_MS_bc_ returns a step inside the bounds and (up to 1e-5 per component) the radius, with reported norm and value equal to those of the step, and not increasing the model; blls_ returns the minimiser of |As-b| in the bounds (KKT conditions) when it reports success.",
     ["inputs"], "all small matrices, bounds and gradients", "Tests use single matrices.",
     [Q + "bcdfo_solve_TR_MS_bc.py", Q + "blls.py"], [("active-set loop", Q + "bcdfo_solve_TR_MS_bc.py"), ("projected search", Q + "blls.py")], "return values",
     "TLC enumerates small integer problems; contracts evaluated by TLC on the recorded calls and on calls made in runs.", state="none")

prop("P19", "Polynomial models: evaluation, gradient, Hessian and Lagrange polynomials agree",
     "For every coefficient vector, degree and shift, bcdfo_evalP_, bcdfo_gradP_ and bcdfo_hessP_ are the value, gradient and Hessian of the same polynomial, bcdfo_evalZ_ is its monomial basis and bcdfo_build_QR_of_Y_ factors its (scaled, shifted) matrix at the set; "
     "bcdfo_computeP_ interpolates on poised sets and the Lagrange polynomials bcdfo_computeLj_/bcdfo_evalL_ are 1 at their own point and 0 at the others.",
     ["inputs"], "dimensions, degrees, model types, shifts and sets", "Tests compare single cases.",
     [Q + "bcdfo_evalP.py", Q + "bcdfo_gradP.py", Q + "bcdfo_hessP.py", Q + "bcdfo_evalZ.py", Q + "bcdfo_computeP.py", Q + "bcdfo_computeLj.py", Q + "bcdfo_evalL.py", Q + "bcdfo_build_QR_of_Y.py"],
     [("monomials", Q + "bcdfo_evalZ.py"), ("interpolation", Q + "bcdfo_computeP.py")], "return values", "Poly.tla is the reference; TLC enumerates polynomials and sets and checks the recorded results.", state="QZ, RZ, scale")

prop("P20", "Hessians used are symmetric, finite and those of the current models",
     "The matrix used in the next step is n by n, finite and symmetric; with hess_approx='model' it is the Hessian of the model of the Lagrangian (or objective) just built, that is the combination of the models of the objective and of every constraint with the current multipliers; with 'bfgs' it is the (damped) BFGS update for the change of the gradient of the Lagrangian along the step, started from an initial matrix in the first iteration and again from the identity when the number of evaluations is a multiple of bfgs_restart > 0, positive definite from positive definite for moderate data, satisfying "
     "the secant equation for the damped difference; sqpdfo_check_convex_ returns a matrix with no eigenvalue below its threshold that equals the input when it already had none, sqpdfo_check_cond_ one whose condition is below the threshold.",
     INP, "all histories and matrices", "Tests compare one update.",
     [Q + "sqpdfo_computeHessian.py", Q + "sqpdfo_bfgs_update.py", Q + "sqpdfo_check_convex.py", Q + "sqpdfo_check_cond.py"], [("model Hessian", Q + "sqpdfo_computeHessian.py"), ("BFGS", Q + "sqpdfo_bfgs_update.py")],
     "return values", "Recorded runs and enumerated updates checked by TLC.", state="M")

prop("P21", "The console report tells the run's story",
     "With verbose 1 to 3 the output has one heading and one row per iteration showing its niter, nsimul, f, merit, Lagrangian gradient, feasibility (with constraints), the radius and length of the last step; with verbose >= 1 every run whose initial set was evaluated ends with exactly one summary, whose exit "
     "code is info.flag with the text of that flag, and whose final f, gradient, feasibility and counters are those returned; a feasibility of problems with bounds or constraints is that of the result; with verbose >= 3 the listed variables, bounds, constraints and multipliers are the returned ones. With verbose 0 there is no table and no summary, and everything of "
     "the report goes to the stream fout selects (1 stdout, 2 stderr).",
     INP, "all runs, exits, verbosity levels and streams", "No test reads the output.",
     [Q + "sqpdfo_iter_printout.py", Q + "sqpdfo_finish.py", SQP, MAIN], [("row", Q + "sqpdfo_iter_printout.py"), ("summary", Q + "sqpdfo_finish.py"), ("lists", SQP)],
     "standard output and standard error of optimize", "The captured output is parsed into rows and summary and compared by TLC with the recorded run and the returned values.", state="stdout")

prop("P22", "Set geometry: proposals, poisedness, repair and set operations are right",
     "bcdfo_find_new_yj_ proposes a point in the ball around the first point together with |L_j| there, which is within 2% of the largest |L_j| in the ball; bcdfo_poisedness_Y_ returns the largest distance from the first point and (within 2%) the largest |L_j| over all other points j in the ball of that radius; "
     "bcdfo_repair_Y_ keeps the first point, changes only the points it reports, reports each once, puts them into the given ball, leaves no point beyond the far distance, reports the new radius and, when it ends below its threshold, leaves no |L_j| in the ball above that threshold (3%). Augmenting appends the point (not to a full set), replacing replaces the named one, "
     "swapping exchanges points, values, constraint values and indices, including replaces the eligible candidate (|L_j(x)| above the threshold) that maximises the criterion (standard, distance or weighted) or nothing if there is none; each leaves the QR factors, base and scale of the resulting set.",
     ["inputs"], "well-conditioned sets of all sizes, model types, radii, criteria and candidates (L_j with nonzero slope at the first point)", "Tests compare single cases.",
     [Q + "bcdfo_find_new_yj.py", Q + "bcdfo_poisedness_Y.py", Q + "bcdfo_repair_Y.py", Q + "bcdfo_include_in_Y.py", Q + "bcdfo_augment_Y.py", Q + "bcdfo_replace_in_Y.py", Q + "sqpdfo_swap_in_Y.py"],
     [("maximisation of Lagrange polynomials", Q + "bcdfo_find_new_yj.py"), ("repair loop", Q + "bcdfo_repair_Y.py"), ("choice of the replaced point", Q + "bcdfo_include_in_Y.py")],
     "return values", "TLC enumerates integer sets and checks the recorded calls; the largest |L_j| is bounded from above by a checked multiplier certificate.", state="QZ, RZ, Y, scale")

prop("P23", "Convergence: well-scaled convex quadratics are minimised",
     "For strictly convex, well-scaled quadratics in up to 5 variables that are unconstrained, have bounds on one variable, or have independent linear equality constraints, optimize with default tolerances and budgets (1000 iterations and evaluations) ends with flag 0 "
     "at a point within 0.01 of the minimiser, for all model types, final degrees and Hessian approximations (with hess_approx='bfgs' only for problems without constraints, model types other than l2norm and final degrees other than linear; l2norm models not with equality constraints).",
     ["inputs", "configurations"], "all problems of the class, starting points and option combinations named", "Tests solve a few fixed problems.",
     [MAIN, TRB, Q + "bcdfo_computeP.py", Q + "sqpdfo_computeHessian.py", Q + "sqpdfo_optimality.py"],
     [("iteration", MAIN), ("step", TRB)], "x, info.flag",
     "Whole runs with default budgets; TLC checks the minimiser supplied as a witness (strict diagonal dominance, feasibility, first-order conditions) and compares the returned point with it.")

prop("P24", "Set evolution: the interpolation set changes only by the specified moves",
     "The first point of the interpolation set is always the current iterate. After a trust-region step the set used next is the previous one with the trial point added (exactly when the set had room: fewer than n+1, 2n+1 or (n+1)(n+2)/2 points for final "
     "degree linear, diagonal or quadratic, twice as many for regression models) or in the place of exactly one other point, or no new models are built; nothing else enters or leaves. A step with positive predicted reduction always adds its point to a set with room (unless the point coincides with an evaluated one). "
     "The set is improved, before the next step, exactly when the measures at the iterate are within the tolerances or the last step predicted no reduction; every point the improvement replaces is evaluated once and the next models are those of the improved set. "
     "Success is declared only after the geometry of the set was examined since the last step: poisedness times radius of the set is at most 1e-3.",
     INP, "all problems, model types, final degrees and objective-value sequences",
     FEW + "which point enters, leaves or comes first depends on the history of acceptances, conditioning and distances.",
     [MAIN, Q + "bcdfo_augment_Y.py", Q + "bcdfo_include_in_Y.py", Q + "sqpdfo_swap_in_Y.py", Q + "bcdfo_repair_Y.py", Q + "sqpdfo_find_smallf.py"],
     [("set updates after a step", MAIN), ("improvement and convergence tests", MAIN)], "bcdfo_computeP_, sqpdfo_solve_TR_bc_, bcdfo_repair_Y_, bcdfo_poisedness_Y_, sqpdfo_optimality_ calls",
     "Recorded runs validated by the trace specification (SetStep, SetTrs, SetRepair, SetRet); the core model contains the same moves.", state="Y, ind_Y, cur_degree, pred")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in P:
            fh.write(json.dumps({k: v for k, v in p.items() if k not in ("note", "claimed")}) + "\n")
    import sys
    sys.path.insert(0, os.path.join(HERE, "harness"))
    import plan
    checks = []
    na = []
    for p in P:
        pid = p["id"]
        if pid in plan.PLAN and p["claimed"]:
            checks.append(dict(property=pid, quick_cmd="python3 run_check.py %s --tier quick" % pid,
                               thorough_cmd="python3 run_check.py %s --tier thorough" % pid,
                               technique="TLA+ specification, TLC trace validation of recorded runs" + plan.TECH.get(pid, ""),
                               level="model_checking", level_note=p["note"]))
        else:
            na.append(dict(property=pid, reason="the check is not built yet"))
    m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na)
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


main()
