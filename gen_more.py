# Exec'd by gen.py: properties of the other parts of the library.
prop("V01", "Vector operations compute what is documented, whatever the aliasing",
     "Every operation on vectors (copy, swap, fill, scale, linear combinations, products, norms, element access, import/export, printing) computes its documented result whatever the sizes, coefficients, storage kind (allocated or wrapped, single or double precision) and aliasing of its arguments, and touches nothing but its destination. Calls with NULL vectors, vectors of different spaces or indices out of range are refused with the documented status (or reported to the error handler in use, which can be replaced at any time; the default one prints the message and stops the program) and change nothing; wrapped arrays of the caller are read and written in place.",
     ["histories", "inputs", "configurations"], "every history of operations on a population of vectors of several spaces, sharing memory or not, any values including special ones",
     "The tests call a few operations on distinct vectors, mostly through the optimizers.",
     ["src/algebra.c", "src/simple_vector.c", "src/optimpack.h"], [("dispatch and special coefficients", "src/algebra.c opk_v*"), ("kernels", "src/simple_vector.c")],
     "Seeded histories of calls against a model kept in plain arrays; every vector compared after every call, up to rounding.", ["contents of all vectors", "returned values and statuses", "text printed"])
prop("V02", "Box operations are exact projections, masks and step limits",
     "For any box (no, scalar or vector bounds on either side, static or volatile), projecting variables gives the nearest feasible values, projecting a direction (in either orientation) and computing the free variables block exactly the infeasible moves, and the step limits are the documented ones: the smallest step reaching a bound, and the step beyond which projected variables no longer change. Misuse (no bounds, wrong space, NULL) is refused with the documented status, and the capability queries agree with what the space implements.",
     ["inputs", "histories", "configurations"], "every box, point, direction and orientation, including active, equal and infinite bounds and zero directions, interleaved with changes of the vectors to which boxes are attached",
     "The tests use boxes only inside optimizers on one problem.",
     ["src/algebra.c", "src/simple_vector.c", "src/optimpack.h"], [("opk_project_variables, opk_project_direction, opk_get_free_variables, opk_get_step_limits", "src/algebra.c"), ("kernels", "src/simple_vector.c")],
     "Seeded histories of calls; componentwise model in the precision of the variables.", ["destination vectors", "step limits", "status"])
prop("R01", "A refused memory allocation is reported and leaves no trace",
     "When an allocation is refused, creating any object (vector space, vector, operator, line search, convex set, optimizer, driver, Powell context) returns NULL with errno set to ENOMEM, leaks nothing, keeps the caller's objects and their references as they were, and the same call made again later behaves exactly as if nothing had happened. An allocation refused while an optimizer runs either has no effect or puts it in error with an insufficient memory status.",
     ["fault_sequences", "configurations", "crash_points"], "which allocation is refused (any one, or all from any point on), in every constructor and option set, and while iterating",
     "The tests never run out of memory.",
     ["src/algebra.c", "src/vmlmb.c", "src/nlcg.c", "src/lnsrch.c", "src/driver.c", "src/simple_vector.c", "src/linalg.c", "src/newuoa.c", "src/cobyla.c"], [("allocation and unwinding in constructors", "opk_allocate_object and the opk_new_* functions")],
     "Seeded choice of the refused allocation; model of the heap (every block, canaries, leaks); bitwise differential of the retry with a fresh run.", ["returned pointer, errno", "live blocks", "references of the caller's objects"])
prop("R02", "Objects live exactly as long as they are referenced",
     "An object is destroyed exactly when its last reference goes: references of the user, of vectors and operators on their spaces, of convex sets on their space and bounds, and of optimizers on their space, convex set and line search. The release callback of a wrapped array is called exactly once, when the vector is destroyed or given another array; refused constructors take no reference and report EINVAL or EFAULT; and holding or dropping NULL is harmless. The same holds for objects, spaces, vectors, convex sets, line searches and operators of classes implemented by the caller: their additional bytes start zero, their operations are called with the arguments of the caller, their finalizers exactly once, before what they are built on goes.",
     ["histories", "configurations"], "every history of creations, holds, drops, rewraps and refused calls over a graph of objects",
     "The tests create a few objects and rarely check their release.",
     ["src/algebra.c", "src/simple_vector.c", "src/vmlmb.c", "src/nlcg.c", "src/lnsrch.c", "src/driver.c"], [("reference counting", "src/algebra.c opk_hold_object/opk_drop_object/opk_allocate_object"), ("finalizers", "the finalize functions of each class")],
     "Seeded histories against a model of the reference graph; the heap model tells which objects are alive.", ["live blocks", "reference counts", "release callbacks", "errno"])
prop("S01", "A line search honours its contract whatever values it is given",
     "Started with a valid step in its bounds and a descent slope, a line search only asks for steps within the bounds, proposes the documented next step (safeguarded bisection or interpolation, strictly shrinking for the backtracking and nonmonotone methods; safeguarded cubic steps for the Moré & Thuente method), claims convergence if and only if its documented conditions hold at the last step, never for values which are not numbers, leaves the last step unchanged when it ends (unless it vanished), and ends after a bounded number of steps. The safeguarded step of Moré & Thuente used alone (opk_cstep) gives the same step and interval, or refuses inconsistent arguments without changing any. Invalid parameters, invalid starts, calls out of order and steps changed by the caller are refused with the documented status, and the queries always agree with the last returned task.",
     ["inputs", "histories", "fault_sequences", "configurations"], "every method and parameters, function along the direction (smooth or not, bounded or not, adversarial, not finite at any call), bounds, first step, and every history of searches with the same object",
     "No test calls a line search by itself; optimizers exercise the common path of two of the three methods.",
     ["src/lnsrch.c"], [("checks and bounds", "src/lnsrch.c opk_lnsrch_start, opk_lnsrch_iterate"), ("methods", "src/lnsrch.c backtrack_iterate, nonmonotone_iterate, csrch_iterate, opk_cstep")],
     "Seeded histories; a reference of the three methods (fed with the steps actually taken, and silent when a comparison is too close to call) and the documented conditions evaluated on the recorded values.", ["returned task, status and step", "queries"])
prop("F01", "The univariate minimizer returns a valid bracket within its budget",
     "opk_fmin never evaluates the function on or beyond an exclusive bound, tries the other ends of the initial interval first, never makes more evaluations than allowed (nor less than the documented minimum), and always ends (when the function is bounded below or the evaluations are limited) even when the precision cannot be reached. Its status is the documented one, its result holds only evaluated points (or exclusive bounds) with their values; if the minimum has been bracketed, the solution is the best point found, lies in the returned interval, which holds the minimum of a unimodal function, and on convergence the interval has the requested precision. The reverse communication version asks for the same points and gives the same result, however contexts are interleaved, and can be continued with a smaller precision.",
     ["inputs", "histories", "fault_sequences", "configurations"], "every function (unimodal or not, flat, noisy, unbounded, not finite at some points), interval, flags, budget, precision, and interleaving of contexts",
     "No test calls this function.",
     ["src/fmin.c", "src/optimpack.h"], [("callback version", "src/fmin.c opk_fmin, opk_fmin_with_context"), ("reverse communication", "src/fmin.c opk_fmin_next")],
     "Seeded search; the documented contract evaluated on the recorded history; bitwise differential between the interfaces.", ["points asked for", "status and result array"])
prop("C01", "Conjugate gradients take optimal steps and keep true residuals",
     "The reverse communication conjugate gradient routines (LCG, PLCG, TRCG; single or double precision) always return a documented state in the documented order. At each OPK_CG_NEWX the variables changed by exactly rho[2]*p and the residuals by -rho[2]*q with the optimal step, so that (up to rounding) the residuals remain b - A.x and the quadratic objective never increases; the solution is reached in about n iterations for a positive definite operator. Directions of non-positive curvature and bad preconditioners are detected; TRCG never leaves the trust region and ends exactly on its boundary when it truncates. Requests for A.p or for the preconditioner change nothing else, all the state is in the caller's arrays (which can be moved, or z shared with q where documented), final states do not move, and invalid calls are refused.",
     ["inputs", "histories", "fault_sequences", "configurations"], "every operator (positive definite, indefinite, singular), preconditioner, right hand side, initial variables, trust region, precision, and every history of restarts, relocations and interleaved systems",
     "No test calls these routines.",
     ["src/lcg.c", "src/optimpack-linalg.h"], [("automaton", "src/lcg.c OPK_PLCG, OPK_TRCG"), ("truncation at the boundary", "src/lcg.c OPK_TRCG")],
     "Seeded histories; every transition compared with the documented one computed from the arrays before the call, and global invariants from the true operator.", ["state", "arrays p, q, r, x, z and rho"])
PW = "The tests run each solver on its author's smooth test problems from start to end, without bounds being tight, faults, scaling or maximization, and compare nothing but what is printed; "
prop("W01", "NEWUOA returns the best point it evaluated, whatever happens",
     "NEWUOA, through any of its three interfaces, evaluates the objective first at the given point, then on the documented initial design, only at finite points, at most maxfun times, and always ends with a documented status. The variables it returns are bit for bit an evaluated point and no other evaluated point is better; the returned value is that of this point. This holds whatever the objective returns at any call (including NaN and infinities), however the run ends (success, budget exhausted even during the initial design, rounding errors, failed step), when minimizing or maximizing, with or without scaling. The reported radius is in [rhoend, rhobeg], never increases, and is rhoend on success. Nothing is printed when iprint is 0 and only the caller's documented workspace is written.",
     ["inputs", "histories", "fault_sequences", "configurations"], "every objective (smooth, noisy, flat, discontinuous, unbounded), n, npt, radii, budget, scaling, interface, initial workspace contents, and fault placement",
     PW + "which point is returned after an early stop is never looked at.",
     ["src/newuoa.c", "src/newuoa.h"], [("trust region iterations and choice of the result", "src/newuoa.c newuob / newuoa_iterate"), ("scaling and maximizing", "src/newuoa.c newuoa_optimize")],
     "Seeded search over problems and faults; checks over the recorded history of evaluations.", ["points evaluated", "x, work[0] and status on return", "newuoa_get_rho"])
prop("W02", "BOBYQA stays within the bounds and returns the best point it evaluated",
     "BOBYQA evaluates the objective only at points which satisfy every bound exactly (also when the variables are scaled and when the bounds are one sided), at most maxfun times; the first one is the given point moved as documented when it is close to a bound, followed by the documented initial design; and it always ends with a documented status. The variables it returns satisfy the bounds exactly, are bit for bit an evaluated point, and no other evaluated point is better; on success work[0] is their value. This holds whatever the objective returns at any call (NaN and infinities included), however the run ends, when minimizing or maximizing. Bounds closer than 2*rhobeg are refused without changing the variables; the bounds are never modified.",
     ["inputs", "histories", "fault_sequences", "configurations"], "every objective, bounds (tight, far, one sided, start on, near or out of a bound), n, npt, radii, budget, scaling, initial workspace contents, and fault placement",
     PW + "feasibility of the evaluated points is never looked at.",
     ["src/bobyqa.c", "src/bobyqa.h"], [("bounds of the steps", "src/bobyqa.c trsbox, altmov, prelim, rescue, clamp"), ("choice of the result", "src/bobyqa.c bobyqb"), ("scaling", "src/bobyqa.c bobyqa_optimize, unscale")],
     "Seeded search; exact comparisons over the recorded history of evaluations.", ["points evaluated", "x, work[0] and status on return"])
prop("W03", "COBYLA ends within its budget and returns an evaluated point with its values",
     "COBYLA, through any of its three interfaces, evaluates the functions first at the given point, only at finite points, at most maxfun times, and always ends with a documented status whatever the functions return at any call (NaN and infinities included). When all the values were finite, the variables it returns are, up to rounding, an evaluated point; the returned objective value, constraint violation (the largest of 0 and minus the constraints) and number of evaluations are exactly those of this point and of the run; without constraints no better evaluated point is further than rhoend on success, and none at all exists when the run was stopped. The reported radius is in [rhoend, rhobeg] and never increases.",
     ["inputs", "histories", "fault_sequences", "configurations"], "every objective and constraints (also contradictory or curved), n, m, radii, budget, scaling, maximizing, interface, workspace contents, and fault placement",
     PW + "values returned with the result are never compared with the evaluations.",
     ["src/cobyla.c", "src/cobyla.h"], [("simplex iterations and choice of the result", "src/cobyla.c cobyla_optimize / cobyla_iterate"), ("linear subproblem", "src/cobyla.c trstlp")],
     "Seeded search over problems and faults; checks over the recorded history; an endless loop is reported as a hang. Powell's method does not promise the best point when it succeeds, hence the weaker statement.", ["points evaluated", "x, work[0], work[1], iact[0] and status on return"])
prop("W04", "Equivalent ways of running Powell's solvers give identical runs",
     "For each of NEWUOA, BOBYQA and COBYLA the following pairs of runs evaluate the same points in the same order and give the same result, bit for bit: callback and reverse communication; simple and general driver; maximizing f and minimizing -f; scaling by powers of 2 and the equivalent change of variables; unit scaling and none; printing and silent; a context restarted after any number of evaluations and a fresh one. Neither the initial contents of the workspace, nor other runs interleaved in any order with it (in callbacks or with other contexts), nor values which are not finite change any of this.",
     ["schedules", "histories", "configurations", "fault_sequences", "crash_points"], "every interleaving of up to six runs, restart point, problem, fault sequence, and contents of uninitialized memory",
     "The tests use one interface at a time and compare nothing between them.",
     ["src/newuoa.c", "src/bobyqa.c", "src/cobyla.c"], [("the two versions of the algorithm generated from the same code", "src/newuoa.c NEWUOA_REVCOM_, src/cobyla.c COBYLA_REVCOM_"), ("saved and restored variables", "SAVE/RESTORE"), ("drivers", "newuoa_optimize, bobyqa_optimize, cobyla_optimize")],
     "Seeded schedules of coroutines; bitwise differential.", ["points evaluated", "results of both runs"])
prop("W05", "Misuse of Powell's solvers is refused without side effects",
     "A call of NEWUOA, BOBYQA or COBYLA with an invalid number of variables, constraints or interpolation points, an invalid radius (also NaN or infinite), invalid scaling factors or bounds too close (or NaN) is refused with the status of an invalid argument; the objective is not called, the variables are unchanged, nothing is printed when iprint is 0. Creating a context with an invalid argument returns NULL with errno EINVAL and leaks nothing. An iteration with a NULL array or when none is due gives the documented status and changes no variables; after a restart the context behaves as a fresh one. The status, number of evaluations and radius reported by the queries always agree with the calls made; a NULL context is reported as such; each status has an explanation of its own.",
     ["histories", "inputs", "fault_sequences", "configurations"], "every combination of invalid arguments, and every sequence of valid and invalid calls on up to three contexts",
     "The tests make valid calls only.",
     ["src/newuoa.c", "src/bobyqa.c", "src/cobyla.c"], [("checks of the arguments", "newuoa_optimize, bobyqa_optimize, cobyla_optimize, newuoa_create, cobyla_create"), ("status of the context", "newuoa_iterate, cobyla_iterate, newuoa_restart, cobyla_restart")],
     "Seeded histories against a model of the context.", ["status, errno", "variables", "queries"])
prop("W06", "Powell's solvers converge on convex quadratic problems",
     "On strictly convex quadratic functions of 1 to 5 variables with condition number up to 100 (3 for COBYLA), without constraints (NEWUOA), with bounds (BOBYQA) or with linear inequality constraints (COBYLA), from any starting point, each solver finds the solution with an accuracy of a few rhoend times the condition number (a few percents of that with a complete model, which is exact) in a bounded number of evaluations, a small multiple of the usual one (about npt + 25 with a complete model), and in average over two dozen problems at the usual pace of the method, when minimizing or maximizing the opposite, with or without moderate scaling, through any interface, also after faults followed by a restart of the context. NEWUOA and COBYLA then report success, and the constraints are violated by no more than about rhoend.",
     ["inputs", "configurations", "fault_sequences", "histories"], "every such problem, starting point, npt, radii, and history of faults before the restart",
     PW + "their objectives are few and their results only printed.",
     ["src/newuoa.c", "src/bobyqa.c", "src/cobyla.c"], [("trust region steps", "src/newuoa.c trsapp, biglag, bigden; src/bobyqa.c trsbox, altmov; src/cobyla.c trstlp"), ("update of the model", "update functions")],
     "Seeded problems; the solution is computed by enumeration of the active sets. Tolerances and usual numbers of evaluations (by solver, number of variables, kind of model and condition number) calibrated on millions of runs (margins of 2 to 4 for one run, 6.5 standard deviations for the average of 24 problems).", ["x, status, number of evaluations"])
prop("W07", "What Powell's solvers print is what happened",
     "With iprint = 1, 2 or 3 the report of NEWUOA, BOBYQA and COBYLA (callback, simple driver or reverse communication) tells what was done, whatever values the objective function gives, when minimizing or maximizing, with or without scaling: with 3, each evaluation once, in order, with its number, the value the caller returned and the variables the caller was given (and for COBYLA the largest constraint violation); with 2 or 3, each new trust region radius, strictly decreasing down to rhoend on success, with the number of evaluations so far and the best variables found so far, in the units of the caller, with their value (for NEWUOA and BOBYQA the best of all evaluations so far); at the return the variables, value and number of evaluations which are returned, and a reason exactly when the solver failed or refused its arguments. Nothing of a higher level is printed.",
     ["inputs", "configurations", "fault_sequences", "schedules"], "every problem, fault of the objective function or constraints, level, interface, and interleaving of solves",
     "The tests print reports which are not read.",
     ["src/newuoa.c", "src/bobyqa.c", "src/cobyla.c"], [("reports", "print_x, print_calcfc, print_error and their callers, with iprint")],
     "Seeded histories with the standard output and error captured; the text is read back and compared with the recorded evaluations and the returned result (to the printed precision).", ["printed text", "evaluations", "result"])
prop("G01", "Trust region steps are feasible, accurate and leave the model intact",
     "In a trust region method which solves its subproblems with opk_dgqt or opk_sgqt, keeping the Lagrange multiplier from one to the next, each call returns a documented status after at most itmax iterations whatever the multiplier it is given (also wrong, infinite or not a number) and whatever the matrix holds. A, b and the memory beyond the matrix are as before the call (the lower triangle completed); nothing depends on the former contents of the work arrays nor on which optional results are wished. The reported value is the value of the quadratic at the step and the multiplier is not negative. On success the step is not longer than (1 + rtol)*delta and its value has the accuracy announced by the status: relative (f(x) <= (1 - rtol)^2*f(xsol)) or absolute. Without rounding difficulties, convergence takes a few iterations (one to five in the mean, according to the spectrum, the radius and the accuracy). The singular vector of opk_destsv/opk_sestsv is normalized and matches the singular value returned, which is not smaller than the smallest one and, in the mean over well conditioned matrices, close to it.",
     ["inputs", "histories", "fault_sequences", "configurations"], "every history of subproblems (rejected and accepted steps, growing and shrinking regions), spectrum (positive, indefinite, singular, clustered), hard cases, tolerances, iteration budgets, precision, array layout and faults",
     "No test calls these routines.",
     ["src/gqtpar.c", "src/linalg.c", "src/optimpack.h"], [("safeguarded Newton iterations on the multiplier", "src/gqtpar.c OPK_GQT"), ("negative curvature", "src/gqtpar.c OPK_ESTSV"), ("factorization and triangular systems", "src/linalg.c")],
     "Seeded histories of subproblems with faults; exact solution by an eigenvalue decomposition and the dual function in extended precision. One known finding (b = 0).", ["x, par, f, status, iterations", "a and b after the call"])
prop("N01", "Dense linear algebra kernels compute the documented results",
     "The BLAS-like routines and the Cholesky routines of the linear algebra library compute their documented results for any sizes and strides.",
     ["inputs"], "all sizes, strides, flags and values", "The tests do not call them.",
     ["src/linalg.c", "src/optimpack-linalg.h"], [("kernels", "src/linalg.c")], "", None, None,
     "Pure functions of their arguments: no time, scheduling, I/O, allocation, callbacks or state for a simulator to control or to inject faults into.")
YT = "The Yorick tests minimize three smooth functions from start to end and only look at the final point; "
prop("Y01", "From Yorick, optimizers do what the library does, and errors change nothing",
     "Driven from Yorick (opk_nlcg, opk_vmlmb, opk_blmvm, opk_start, opk_iterate, members of the optimizers), any number of optimizers, interleaved in any order, return the same tasks and variables, bit for bit, and have the same members as optimizers of the library given the same options, bounds, values and gradients, whatever the dimensions (also none), precision, type and form of the arguments and order of the keywords. The variables of the caller are updated in place, keep their type and dimensions; gradients and bounds are left unchanged. A call with an array of another type or of other dimensions, a missing argument or an invalid option raises an error and changes nothing. opk_minimize evaluates the function at the points of the same run, ends for the documented reasons (convergence, warning, maxiter, maxeval), returns the last iterate (the best one when evaluations are exhausted) with its value and gradient in FX and GX, leaves X0 unchanged, writes the status of the iterations asked for by VERB and the reason of a warning to OUTPUT, and raises the errors of the function and of the optimizer. opk_gqtpar gives the step, multiplier, value, iterations and status of the library for full and packed matrices, ignores the lower triangle and never changes its arguments. The other variables of the caller are neither used nor changed. Errors, refused allocations and the last reference to an optimizer going leak nothing.",
     ["histories", "inputs", "configurations", "fault_sequences"], "every sequence of calls on one to three optimizers, options, bounds, dimensions, types, faulty values and gradients, errors raised by the function, refused allocations and misuse",
     YT + "misuse, other types and dimensions, early stops and errors are never tried.",
     ["yorick/opky.c", "yorick/opky.i"],
     [("wrapping of the optimizers", "yorick/opky.c Y_opk_nlcg, new_vmlmb, Y_opk_start, Y_opk_iterate, get_array, get_bound"), ("driver", "yorick/opky.i opk_minimize"), ("trust region step", "yorick/opky.c Y_opk_gqtpar")],
     "Seeded histories executed by the real interpreter with the plug-in built from the working tree; bitwise comparison with reference runs made directly with the library of the same tree.", ["tasks, variables, members after each call", "points at which the function is called", "results, errors and text written", "live blocks"])
prop("Y02", "From Yorick, NEWUOA and COBYLA do what the library does, and errors are reported",
     "Driven from Yorick, contexts of NEWUOA and COBYLA, interleaved in any order, return the same status and variables, bit for bit, and have the same members as those of the library, whatever the type of the arguments and the dimensions of the variables; constraints are left unchanged; invalid parameters, arrays of other sizes, values which are not scalar and contexts of the other algorithm raise an error and change nothing; restarting is the one of the library. The drivers (newuoa_minimize, newuoa_maximize, cobyla_minimize, cobyla_maximize) evaluate the functions once at each point of the same run (minimizing the opposite of the function to maximize it, in units of SCALE), return the final variables or, with ALL, the best value found with its variables (with constraints: those of the final variables), the number of evaluations, status and radius; they report an abnormal end as documented for keyword ERR, raise the errors of the functions, and leave the variables and scale given unchanged. The other variables of the caller are neither used nor changed. Errors, refused allocations and the last reference to a context going leak nothing.",
     ["histories", "inputs", "configurations", "fault_sequences"], "every sequence of calls on one to three contexts, problem, scale, radii, budget, keywords, faulty values, errors raised by the functions, refused allocations and misuse",
     YT + "scaling, constraints, early ends, keywords ALL and ERR are never tried.",
     ["yorick/ycobyla.c", "yorick/ynewuoa.c", "yorick/opky.i"],
     [("wrapping of the contexts", "yorick/ycobyla.c, yorick/ynewuoa.c"), ("drivers", "yorick/opky.i newuoa_minimize, newuoa_maximize, cobyla_minimize, cobyla_maximize, opk_scaling")],
     "Seeded histories executed by the real interpreter with the plug-in built from the working tree; bitwise comparison with reference runs made directly with the library of the same tree.", ["status, variables, members after each call", "points at which the functions are called", "results and errors", "live blocks"])
