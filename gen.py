#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json (run by hand when a property changes)."""
import json, os
D = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mech, level_note, observe=None, state=None, na=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}, level_note, na))


TRUST = " Trusts: the simulated caller and reference model in /verif/sim, the gcc build of /repo/src, IEEE-754 double arithmetic. Nothing is proved for histories not generated."
TESTS = "The repository's tests run a handful of fixed, smooth, well-behaved problems from one starting point, start to finish, one optimizer at a time, and only look at the final point; "

prop("L01", "Trial points of a bounded optimization never leave the box",
     "When a limited-memory optimizer is given bounds, every point at which it asks for the objective function, and every iterate or final point it reports, satisfies each lower and upper bound exactly, whatever the evaluator returned so far (including NaN, infinities and inconsistent values) and however often the optimizer was restarted. If the caller has only ever supplied finite numbers of ordinary magnitude, these points are also free of NaN.",
     ["inputs", "histories", "fault_sequences", "configurations"], "every objective, bounds (scalar, vector, single sided, equal, none), starting point (feasible or not), options, line search, precision, interface, and every sequence of evaluation faults and restarts",
     TESTS + "no test checks the feasibility of the trial points of the line searches.",
     ["src/vmlmb.c", "src/algebra.c", "src/simple_vector.c", "src/lnsrch.c", "src/driver.c"],
     [("projection of the trial variables", "src/vmlmb.c opk_iterate_vmlmb/next_step"), ("step limits", "src/simple_vector.c get_step_limits"), ("projection", "src/simple_vector.c project_variables")],
     "Seeded search; exact comparison of every requested point with the bounds in the type of the variables.", ["variables each time the task is OPK_TASK_COMPUTE_FG, OPK_TASK_NEW_X or OPK_TASK_FINAL_X"])
prop("L02", "Every accepted iterate meets the descent conditions of its line search",
     "For an objective that is a function (same value each time at the same point), each new iterate reported by a limited-memory optimizer has an objective value not above the previous iterate's (for a nonmonotone line search: not above the largest of the last m iterates'), up to rounding. Without bounds it also satisfies the sufficient decrease condition with the line search's ftol along the actual displacement, and for the Moré & Thuente line search the strong curvature condition with its gtol.",
     ["inputs", "histories", "configurations", "fault_sequences"], "every deterministic objective (convex, nonconvex, unbounded, with regions where it is not finite), option set, line search parameters, restarts and refused calls in between",
     TESTS + "the conditions on intermediate iterates are never looked at.",
     ["src/lnsrch.c", "src/vmlmb.c", "src/nlcg.c"],
     [("Armijo / nonmonotone / Moré & Thuente acceptance tests", "src/lnsrch.c"), ("decision to accept an iterate", "src/vmlmb.c opk_iterate_vmlmb, src/nlcg.c opk_iterate_nlcg")],
     "Seeded search; the simulator recomputes the conditions from its own record of points, values and gradients, with tolerances for rounding.", ["consecutive OPK_TASK_NEW_X / OPK_TASK_FINAL_X points"])
prop("L03", "Convergence is claimed exactly when the documented gradient test passes",
     "At every iterate the optimizer's gradient norm is the Euclidean norm of the gradient (with bounds: of its components along which a descent move is feasible), and the iterate is reported as final if and only if that norm is at most max(0, gatol, grtol times the norm at the starting point). So convergence is neither claimed too early nor missed.",
     ["inputs", "histories", "configurations"], "every objective, starting point, bounds, tolerances, precision and interface, after any number of restarts",
     TESTS + "a wrong threshold or projected norm changes only when they stop.",
     ["src/vmlmb.c", "src/nlcg.c"], [("convergence test", "src/vmlmb.c opk_iterate_vmlmb, src/nlcg.c opk_iterate_nlcg"), ("projected gradient", "src/algebra.c opk_get_free_variables, src/simple_vector.c")],
     "Seeded search; independent recomputation of the (projected) gradient norm and threshold; relative tolerance 1e-11 (double) or 1e-5 (single).", ["gnorm getters", "task after an evaluation"])
prop("L04", "Reverse communication protocol: tasks, counters and side effects are consistent",
     "After each call the returned task equals the pending task; each evaluation is counted exactly once; an iterate (new or final) is always the last evaluated point and is counted exactly once; start resets all counters; an optimizer in an error state stays there, unchanged, until started again. Calls refused because of a NULL argument, and queries, change neither the variables nor the counters, and the caller's gradient is never modified.",
     ["histories", "fault_sequences", "inputs", "configurations"], "every sequence of start, iterate, query, refused and repeated calls, with any evaluation results, on every interface",
     TESTS + "they follow the nominal calling sequence only.",
     ["src/driver.c", "src/vmlmb.c", "src/nlcg.c"], [("task state machine", "src/vmlmb.c, src/nlcg.c success/failure helpers"), ("driver dispatch", "src/driver.c")],
     "Seeded search over calling sequences; protocol automaton checked after every call.", ["task, status, counters, step, variables after each call"])
prop("L05", "Interleaved optimizers do not influence each other",
     "Running several optimizers in one process, with their calls interleaved in any order and with vector spaces, bounds and convex sets shared between them, gives each of them bit for bit the same sequence of points, tasks and counters as when it runs alone. After everything has been released no memory remains allocated.",
     ["schedules", "histories", "configurations", "fault_sequences"], "every interleaving of 2 to 4 optimizers of any kind and interface, with stalls, faults, errors, and destruction of some while others run",
     "The tests never run two optimizers at once.",
     ["src/driver.c", "src/vmlmb.c", "src/nlcg.c", "src/lnsrch.c", "src/algebra.c"], [("all state in the context objects, reference counted sharing", "src/algebra.c opk_hold_object/opk_drop_object")],
     "Seeded schedules (discrete-event clock with latency and stalls); differential comparison, bit for bit, of each session with its solo run.", ["all observable results of each session"])
prop("L06", "A restarted optimizer behaves as a freshly created one",
     "Starting an optimizer again, at any moment (in the middle of a line search, after convergence, after an error or after evaluation faults), yields bit for bit the same sequence of trial points, tasks, statuses and counters as a newly created optimizer with the same options on the same problem. Nothing of the abandoned run leaks into the new one.",
     ["crash_points", "histories", "configurations", "fault_sequences"], "every abandonment point in every first run, any change of problem and starting point",
     "The tests never start an optimizer twice.",
     ["src/vmlmb.c", "src/nlcg.c", "src/lnsrch.c", "src/driver.c"], [("reset at start", "src/vmlmb.c opk_start_vmlmb, src/nlcg.c opk_start_nlcg, src/lnsrch.c")],
     "Seeded search over abandonment points; bitwise differential against a fresh optimizer built on differently filled memory.", ["all results after the restart"])
prop("L07", "After faults stop, convex problems are solved within a bounded number of steps",
     "Once evaluation faults have stopped and the optimizer has been restarted, any limited-memory optimizer with default line search tolerances converges on smooth, strictly convex, well conditioned problems (with or without bounds) within a bounded number of evaluations, also when the objective function or the variables are exactly zero at the start: it reports a final point whose projected gradient meets the tolerance, or stops within rounding error of the solution. (The variables of the restart are neither tiny without being zero, because the documented first step is relative to them when the objective function is zero, nor within rounding errors of a bound without being at it.)",
     ["fault_sequences", "inputs", "configurations"], "every history of faults, errors and refused calls preceding the restart, all memory sizes, update rules, line searches, precisions and interfaces",
     TESTS + "never after a failure.",
     ["src/vmlmb.c", "src/nlcg.c", "src/lnsrch.c"], [("line search progress", "src/lnsrch.c"), ("search direction", "src/vmlmb.c, src/nlcg.c")],
     "Bounded liveness: at most 3000 evaluations after the last fault; restricted to the family of problems stated.", ["number of evaluations until OPK_TASK_FINAL_X"])
prop("L08", "Non-finite objective values never become solutions",
     "When the evaluator returns NaN or infinite values or gradients, the optimizer never reports convergence at a point where a free component of the gradient is not finite, and never accepts as an iterate, after the starting point, a point whose objective is NaN or +infinity when the previous iterates are finite. Unless gradients were themselves non-finite, the points at which it asks for evaluations remain finite and within the bounds. When the objective breaks down for good (only such values from some evaluation on), the optimizer stops by itself after a bounded number of evaluations.",
     ["fault_sequences", "inputs", "histories"], "every placement of NaN, +inf, -inf, huge, tiny, sign-flipped and noisy values in any evaluation history",
     "The tests use only finite, smooth objectives.",
     ["src/vmlmb.c", "src/nlcg.c", "src/lnsrch.c"], [("handling of bad values in the line searches", "src/lnsrch.c backtrack/nonmonotone/csrch iterate"), ("convergence test", "src/vmlmb.c, src/nlcg.c")],
     "Seeded fault injection in the evaluator on every run.", ["task after a faulty evaluation", "variables"])
prop("L09", "Only the caller's current variables are written, and no pointer is kept",
     "The simple driver reads and writes nothing of the caller's memory but the arrays given to the present call: it writes only the variables, never the gradient nor the bounds, nothing next to them, and keeps no pointer to an array after the call returns, so that the caller may move its arrays between any two calls with bit for bit identical results. Bounds passed as volatile arrays are copied; static ones are not modified.",
     ["histories", "configurations", "inputs", "fault_sequences"], "every relocation schedule of the arrays, alignment, precision, bound kind and calling sequence",
     "The tests always pass the same arrays, which stay in place and have slack around them.",
     ["src/driver.c", "src/simple_vector.c", "src/algebra.c"], [("rewrapping the caller's arrays", "src/driver.c opk_start/opk_iterate"), ("bounds", "src/driver.c get_bound, src/vmlmb.c")],
     "Arrays placed against inaccessible pages, moved and revoked between calls at seeded moments; any stray access ends the run with a signal which is reported as the violation.", ["bytes around the arrays", "results after relocation"])
prop("L10", "Search directions are those of the documented methods",
     "Each trial point is, up to rounding, the one prescribed by the documented method from the iterates seen so far: limited-memory BFGS (VMLMB, BLMVM or L-BFGS: update pairs kept, newest first, at most mem of them and only if their curvature is admissible, with the documented initial scaling on the free variables) or the selected nonlinear conjugate gradient formula with its Powell/restart tests and Shanno-Phua/Barzilai-Borwein first steps. Otherwise, if that direction is not a sufficient descent direction, the method restarts along the steepest descent and counts a restart. The memorized pairs which can be queried are those of the last iterates, newest first.",
     ["histories", "configurations", "inputs", "fault_sequences"], "every history of iterates, memory size, update rule, option set and fault sequence",
     TESTS + "a wrong but still descending direction only makes them slower.",
     ["src/vmlmb.c", "src/nlcg.c"], [("two-loop recursion and update", "src/vmlmb.c apply/update"), ("NLCG update formulas", "src/nlcg.c update_*")],
     "Refinement against an executable textbook model with a perturbation filter that skips decisions within rounding noise.", ["first trial point after each iterate", "restarts counter"])
prop("L11", "Spaces, sets and line searches of the caller are used within their contract",
     "With a vector space implemented by the caller, the library calls each operation only with live vectors of that space and within its documented preconditions (never scaling by one, never with forbidden coefficients), obtains the same iterates whatever storage the vectors use, and survives any failing operation: a refused vector creation yields a failed constructor or an error task without leak, and a failing box operation is reported as an error with its status. A convex set or a line search implemented by the caller, which does what the library's own do, yields the same history; a failing operation of the caller's set is reported at once with its status, a missing one as not implemented when it is first needed, and never before. Everything created through the space is released through it; what the caller supplied is finalized exactly once.",
     ["configurations", "fault_sequences", "histories"], "every storage layout, which operation fails or is missing, with which status, and when",
     "The tests only use the built-in float and double vectors, whose operations never fail.",
     ["src/algebra.c", "src/vmlmb.c", "src/nlcg.c", "src/lnsrch.c"], [("dispatch to the operations of the space", "src/algebra.c"), ("checking of the results", "src/vmlmb.c, src/nlcg.c")],
     "The simulated space checks its own preconditions on every call and fails at seeded moments.", ["calls received by the user's space", "task and status", "live allocations"])

prop("L12", "Optimizers are built exactly from valid settings, and describe themselves",
     "Creating a limited-memory optimizer (driver, VMLMB or NLCG) succeeds for every valid combination of algorithm, precision, size, bounds, options, line search and convex set, and is refused for any invalid one, with NULL, errno EINVAL or EFAULT as documented, nothing left allocated and the caller's options and objects untouched; the functions checking the options agree with that. Default options are valid; giving no options, the default ones, or no NLCG flags is all the same. A new optimizer refuses to iterate before being started; its method, name and description are those of its settings at any time, any buffer size gives the required size and a terminated prefix within the buffer. Constants, statuses and reasons are consistent, and a NULL optimizer is reported as such.",
     ["configurations", "inputs", "histories", "fault_sequences"], "every combination of valid and invalid settings (special values included), buffer size, and moment of the query",
     "The tests create optimizers with a few valid settings and never ask for a description in a small buffer.",
     ["src/driver.c", "src/vmlmb.c", "src/nlcg.c", "src/algebra.c", "src/utils.c"], [("checks of the settings", "src/driver.c opk_new_optimizer, src/vmlmb.c opk_new_vmlmb_optimizer/opk_check_vmlmb_options, src/nlcg.c opk_new_nlcg_optimizer/opk_check_nlcg_options"), ("descriptions", "opk_get_name, opk_get_description, opk_get_vmlmb_description, opk_get_nlcg_description, src/utils.c opk_copy_string")],
     "Seeded histories of constructions and queries against a table of valid settings; buffers end at inaccessible pages; bitwise differential for the defaults.", ["returned pointer, errno, status", "live blocks and references", "texts"])

prop("L13", "The optimizers do what the line search tells them",
     "Whatever a line search answers, a limited-memory optimizer acts upon it exactly: a search is started once per iterate, with the value of the objective function, the slope along the search direction, the first step and the limits of the step (relative to it, or where all variables are at their bounds), and iterated once per evaluation with the value, the derivative along the (projected) path when it is wanted, and the current step. As long as the search goes on the next point is on the same (projected) path at the step wanted by the line search; when it has converged, or cannot progress because of rounding errors at a point which is not worse, the evaluated point is the new iterate; any other outcome stops the optimizer with the reason given by the line search. A new optimization resets the line search, which is never used otherwise, and is destroyed exactly once, when neither the optimizer nor the caller holds it.",
     ["schedules", "fault_sequences", "histories", "configurations"], "every sequence of answers (go on with any step, converged, warnings, errors, refusal to start), evaluation faults, restarts, bounds, precision and interface",
     TESTS + "their line searches never fail or warn.",
     ["src/vmlmb.c", "src/nlcg.c", "src/lnsrch.c"], [("use of the line search", "src/vmlmb.c opk_iterate_vmlmb, src/nlcg.c opk_iterate_nlcg"), ("interface of line searches", "src/lnsrch.c opk_lnsrch_start/iterate, opk__reset_lnsrch")],
     "The line search is a simulated component whose answers are drawn; what it receives and what the optimizer does next are compared with a model of the projected search path.", ["arguments of the calls of the line search", "task, status, counters, step, variables", "references"])

exec(open(os.path.join(D, "gen_more.py")).read()) if os.path.exists(os.path.join(D, "gen_more.py")) else None

TECH = "deterministic simulation with fault injection (seeded schedules and faults, in-process simulator, minimised replay)"
with open(os.path.join(D, "properties.jsonl"), "w") as f:
    for p, _, _ in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": [], "not_applicable": [],
       "notes": "No hooks in /repo: every seam (evaluator, allocator, error handler, user vector space, reverse communication, caller memory) already exists in the API or is taken at link time. check.py replay FILE re-executes a replay file."}
for p, note, na in P:
    if na:
        man["not_applicable"].append({"property": p["id"], "reason": na})
    else:
        man["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py run %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py run %s --tier thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"], "technique": TECH, "level": "exploration", "level_note": note + TRUST})
with open(os.path.join(D, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
