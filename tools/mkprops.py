#!/usr/bin/env python3
"""Writes ../properties.jsonl. One entry per property; run after editing."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])],
                          "observe_at": observe, "hook_needed": None}})

IL, AL, KP = "altro/ilqr/ilqr.hpp", "altro/augmented_lagrangian/al_solver.hpp", "altro/ilqr/knot_point_function_type.hpp"
ALC, CV = "altro/augmented_lagrangian/al_cost.hpp", "altro/constraints/constraint_values.hpp"
PR = "altro/problem/problem.hpp"

p("C01", "Solver trajectories obey the dynamics and start at the initial state",
  "At every iteration and after every solve, whatever the final status, the solver's trajectory starts exactly at the problem's current initial state and each following state is the user's discrete dynamics applied to the previous state and control at that knot point's own time and time step. The times and steps set by the user are never altered, and the dynamics are only asked about those times and steps. This holds for repeated solves after the initial state, the guess, the times or the trajectory object changed, for both solvers.",
  ["inputs", "histories", "configurations"], "all problems (sizes, time-varying nonlinear dynamics, costs, constraints, non-uniform steps), options, and sequences of solves with changes between them",
  "tests solve a few autonomous uniform-step examples once and compare final values; none recomputes the rollout, varies time-dependence, or re-solves after a change",
  [IL, AL], [("closed-loop rollout with line search and trajectory swap", IL + ": RolloutClosedLoop, ForwardPass, Rollout"), ("time/step propagation to the candidate trajectory", IL + ": SolveSetup")],
  ["trajectory at each iteration via the violation callback", "trajectory after the solve", "arguments of the user's dynamics"])
p("C02", "Accepted steps decrease the cost and the log tells the truth",
  "An iteration either leaves the trajectory bit-for-bit unchanged, or replaces it with the closed-loop rollout of the computed policy with the logged step length, which is one of the line-search step lengths, and whose actual-to-expected decrease ratio lies within the configured bounds. The recorded cost is always the objective value of the current trajectory, the recorded cost change is the difference of successive recorded costs, and, for an unchanged objective, the cost never increases.",
  ["inputs", "configurations"], "all problems including nonconvex and divergent ones, and all line-search options",
  "tests compare final costs of a few converging examples; failed line searches, shortened steps and the logged quantities are not recomputed",
  [IL, "altro/common/solver_stats.cpp"], [("line search acceptance", IL + ": ForwardPass"), ("statistics", IL + ": UpdateConvergenceStatistics")],
  ["per-iteration trajectory, policy and statistics"])
p("C03", "Linear-quadratic problems are solved to the exact optimum by the right policy",
  "For linear (possibly time-varying, affine) dynamics and convex quadratic costs, the unconstrained solver reaches the unique global minimiser from any guess. The reported feedback gains and cost-to-go expansion equal those of the exact Riccati recursion, so that following the policy from any initial state is optimal for that state.",
  ["inputs"], "all LQ problems: dimensions, horizons, time-varying and cross-term cost data, guesses",
  "tests check fixed gain values on one triple-integrator instance; cross terms, time variation, several controls and off-nominal initial states are not sampled",
  [IL, KP], [("Riccati recursion", KP + ": CalcActionValueExpansion, CalcGains, CalcCostToGo"), ("backward pass", IL + ": BackwardPass")],
  ["solution, gains, cost-to-go vs dense KKT solution and own Riccati recursion"])
p("C04", "Regularised backward pass yields a usable policy or fails cleanly",
  "After every successful backward pass the regularised control Hessian is positive definite at every knot point and the gains are its exact solution, and the regularisation stays within its configured limits, growing when a factorisation fails, never without need, and shrinking after success. When regularisation at its maximum still fails, the solve ends with the regularisation-failure status after a bounded number of attempts and the trajectory is unchanged.",
  ["inputs", "configurations"], "indefinite and badly scaled cost Hessians, all regularisation options",
  "no test makes the backward pass fail; the source itself carries a TODO for it",
  [IL, KP], [("regularise, restart, fail", IL + ": BackwardPass, IncreaseRegularization, DecreaseRegularization")],
  ["action-value expansion, gains and regularisation at each iteration; status and trajectory at the end"],
  [("regularisation", "current weight and growth rate", IL + ": rho_, drho_")])
p("C05", "Expansions are exactly the user's derivatives at the current point",
  "After updating expansions, the stored cost gradients and Hessians, dynamics Jacobians and per-knot-point costs are exactly what the user's functions return at that knot point's current state, control, time and step. Outputs handed to the user's cost, dynamics and constraint derivative functions are zero-initialised, so entries the user does not write are zero and never stale values from an earlier evaluation, for any number of threads or tasks.",
  ["inputs", "histories", "configurations"], "all user functions writing any subset of entries, at any sequence of points, thread counts and task splits",
  "tests use functions that write every entry and evaluate once",
  [IL, KP, "altro/ilqr/cost_expansion.hpp", "altro/ilqr/dynamics_expansion.hpp"], [("zero then fill", "CostExpansion::CalcExpansion, DynamicsExpansion::CalcExpansion"), ("block split", IL + ": UpdateExpansionsBlock")],
  ["per-knot-point expansion blocks and costs", "arguments received by user functions"])
p("C06", "Reported success of the constrained solver means true feasibility",
  "When the constrained solver reports success, every equality and inequality constraint evaluated by the user's own functions on the returned trajectory is satisfied within the configured constraint tolerance. The maximum violation it reports and logs, at every iteration and at the end, is the true violation of the trajectory it holds at that moment.",
  ["inputs", "configurations", "histories"], "all constrained problems, feasible or not, with any solver options and repeated solves",
  "tests look at the reported number on a few examples and never recompute it from the constraint functions",
  [AL, CV], [("convergence decision", AL + ": IsDone"), ("violation from cached constraint values", CV + ": MaxViolation")],
  ["returned trajectory, status, logged and queried violation"])
p("C07", "Constrained solutions satisfy the optimality conditions with returned duals",
  "For convex problems (affine dynamics, convex quadratic costs, affine constraints) that are strictly feasible, a successful constrained solve started from zero multipliers with tight tolerances returns a trajectory that is a constrained minimiser, and multipliers that certify it: the Lagrangian gradient vanishes, inequality multipliers have the right sign and vanish on inactive constraints. The objective value agrees with the true constrained optimum up to the solver tolerances, also at the default ones; with kept multipliers the gradient and sign conditions still hold.",
  ["inputs"], "all strictly feasible convex problems: sizes, horizons, equality and inequality mixes, at any subset of knot points",
  "tests compare with stored values on a handful of problems and never check multipliers against optimality conditions",
  [AL, ALC, IL], [("augmented Lagrangian outer loop", AL + ": Solve, UpdateDuals, UpdatePenalties")],
  ["trajectory, multipliers, objective"])
p("C08", "The augmented Lagrangian value and derivatives match their formula",
  "For any state, control, multipliers and positive penalties, the cost used for constrained solving equals the user's cost plus (|P(lambda - rho c)|^2 - |lambda|^2)/(2 rho) summed over all constraints, with P the projection onto the dual cone. Its gradient is the exact gradient, and its Hessian the user's Hessian plus the Gauss-Newton term of the active constraints.",
  ["inputs"], "all points, multipliers, penalties, constraint dimensions, types and mixes",
  "tests check selected values for one equality and one inequality example at fixed multipliers",
  [ALC, CV, "altro/constraints/constraint.hpp"], [("value, gradient, Hessian", CV + ": AugLag, AugLagGradient, AugLagHessian"), ("sum over constraints", ALC + ": Evaluate, Gradient, Hessian"), ("cone projections", "altro/constraints/constraint.hpp: ZeroCone, NegativeOrthant")],
  ["value, gradient and Hessian of the augmented cost at a knot point"])
p("C09", "Multiplier and penalty schedule is the augmented Lagrangian one",
  "After every outer iteration each multiplier becomes the dual-cone projection of its old value minus penalty times constraint value at the current trajectory, so inequality multipliers never have the wrong sign, and penalties grow by the configured factor from the configured initial value, and are left alone once the solve has ended. At the start of a solve, penalties and multipliers are reset or kept exactly as the reset options say.",
  ["inputs", "histories", "configurations"], "all constrained problems, penalty options, reset options and sequences of solves",
  "tests check one update on one constraint; the schedule over a whole solve, the reset options and repeated solves are not observed",
  [AL, ALC, CV], [("update rules", CV + ": UpdateDuals, UpdatePenalties"), ("schedule and reset", AL + ": Solve, SolveSetup")],
  ["multipliers and penalties at each iteration"],
  [("duals and penalties", "one per constraint row and knot point", CV + ": lambda_, penalty_")])
p("C10", "Constraint bookkeeping and violation reports are complete and exact",
  "The number of constraints, and the list of constraint reports (one per constraint at each knot point, with its index, label, type and violation vector), cover exactly the constraints the user added, in a sound sorted order. Violations reported for the current or for any given trajectory, in the max norm or any other p-norm, equal those recomputed from the user's functions.",
  ["inputs", "configurations"], "all placements, types and dimensions of constraints over knot points, all trajectories, p-norms",
  "tests query one or two small configurations",
  [AL, ALC, PR, CV], [("queries", AL + ": GetMaxViolation, MaxViolation, GetConstraintInfo, NumConstraints"), ("per-cost", ALC)],
  ["all violation and counting queries"])
p("C11", "Every solve terminates within its budgets and reports a true status",
  "Every solve returns after at most the configured inner, outer and total iteration counts, also for hostile problems (infeasible, unbounded, diverging, non-finite values from user functions), and the iteration counters equal the work done. The solve ends at the first iteration that meets the tolerances or exhausts a budget, and the final status states the condition that really ended it: success only if the logged values meet the tolerances, a limit status only if that limit was reached.",
  ["inputs", "configurations"], "all problems including hostile ones, all iteration limits and tolerances",
  "tests check the status of a few converging runs; budgets and failure statuses are not exercised",
  [IL, AL], [("termination tests", IL + ": IsDone; " + AL + ": IsDone, Solve")],
  ["status, counters, history, number of user function calls"])
p("C12", "State and control limits hold on every accepted step",
  "With bound checking on, no accepted trajectory contains a state after the first or a control whose norm exceeds the configured limits, unless it was part of the open-loop rollout of the initial guess that no step has replaced. If every candidate step violates a limit the trajectory stays unchanged, the inner solve ends and, unless tolerances or an iteration budget end the solve at the same moment, the status names the limit the last candidate violated; with checking off limits play no role.",
  ["inputs", "configurations"], "all problems and limits, stable and unstable dynamics",
  "tests never trigger a limit in combination with an accepted shorter step",
  [IL], [("bound check in the closed-loop rollout", IL + ": RolloutClosedLoop")],
  ["trajectory at each iteration, status"])
p("C13", "Repeating a solve reproduces it bit for bit",
  "Once statistics are reset and the same initial guess is restored, solving again with the same solver gives bit-identical trajectories, statuses, iteration histories and (if they are reset) multipliers, as does a freshly built solver. Whatever the solver did before, including other problems' initial states, failed or limit-terminated solves, different options or thread counts, leaves no trace in later solves.",
  ["histories", "inputs"], "all sequences of solves and option changes before the repeated solve",
  "tests re-solve one example and compare a cost",
  [IL, AL, "altro/common/solver_stats.cpp"], [("reset at the start of a solve", IL + ": SolveSetup, ResetInternalVariables; " + AL + ": SolveSetup")],
  ["trajectory, status, history of repeated solves"])
p("C14", "Results do not depend on threads or task partition",
  "For any number of threads, tasks per thread and any valid user-defined partition of the knot points, the solve performs the same user function evaluations the same number of times per knot point and produces bit-identical results to the single-threaded solve. The default partition always starts at zero, is ordered, covers every knot point exactly once, and a user-defined partition is validated and honoured until changed.",
  ["schedules", "configurations", "histories"], "thread counts, tasks per thread, partitions, changes of these between solves, thread schedules",
  "tests check some partitions and one cost comparison",
  [IL, "altro/common/threadpool.cpp", "altro/common/solver_options.cpp"], [("task creation and relaunch", IL + ": LaunchThreads, DefaultTaskAssignment, SetTaskAssignment, UpdateExpansions")],
  ["results, call counts per knot point, task assignment"])
p("C15", "No data races in the solver, the thread pool or the queue",
  "No execution of a multi-threaded solve, of a thread pool, or of the concurrent queue contains two unsynchronised conflicting memory accesses. User functions of distinct knot points may run in parallel, but no knot point's functions run in two threads at once, and all their effects are visible once the parallel phase is over.",
  ["schedules"], "all schedules of the parallel phases, producers and consumers",
  "unit tests run without a race detector and with few threads",
  ["altro/common/threadpool.cpp", "altro/common/threadpool.hpp", "altro/common/threadsafe_queue.hpp", IL], [("per-queue head/tail locks and condition variable", "altro/common/threadsafe_queue.hpp"), ("task completion via futures", "altro/common/threadpool.cpp: Wait")],
  ["ThreadSanitizer reports; per-knot-point occupancy in user functions"])
p("C16", "The thread pool runs every task exactly once and waiting is a barrier",
  "Every task added to a running pool is executed exactly once, by one of the launched threads, and a wait returns only after all tasks added before it have finished, with their effects visible. This holds across repeated waits, stopping and relaunching with other thread counts, moves of the pool and tasks that throw; stopping joins every thread and never loses or repeats work already waited for.",
  ["schedules", "histories"], "all schedules, task durations, thread counts and sequences of pool operations",
  "tests run a few tasks and check sums with fixed sleeps",
  ["altro/common/threadpool.cpp", "altro/common/threadpool.hpp"], [("packaged tasks and futures", "altro/common/threadpool.cpp")],
  ["execution log of every task, thread ids, thread count"])
p("C17", "The concurrent queue is a linearizable FIFO",
  "Every history of concurrent pushes, pops, emptiness and size queries is equivalent to a sequential first-in-first-out queue: no element is lost, duplicated, invented or reordered, and pops fail only when the queue was empty at some moment during the call. Clearing empties the queue, moving transfers all content in order, the size never goes negative and is exact when quiescent, and destruction of any length of queue is safe.",
  ["schedules", "histories"], "all interleavings of producers, consumers and observers; all operation sequences",
  "tests use single-threaded sequences and one two-thread smoke test",
  ["altro/common/threadsafe_queue.hpp"], [("two-lock linked queue with dummy node", "altro/common/threadsafe_queue.hpp")],
  ["invocation/response history of each operation"])
p("C18", "No memory errors or undefined behaviour for any dimensions",
  "For all state, control, constraint dimensions and horizons, compile-time sized and dynamically sized alike, every public operation is free of out-of-bounds accesses, use after free, misaligned or null accesses, arithmetic undefined behaviour and internal assertion failures, and releases what it allocates. Compile-time sized and dynamically sized solvers compute the same results.",
  ["inputs", "configurations", "histories"], "all sizes, static/dynamic mixes and API call sequences within their preconditions",
  "tests run without sanitizers on few sizes",
  [IL, AL, KP, "altro/common/knotpoint.hpp", "altro/common/trajectory.hpp", "altro/common/state_control_sized.hpp"], [("sized types", "altro/eigentypes.hpp; altro/common/state_control_sized.hpp")],
  ["ASan/UBSan, own allocation balance, static vs dynamic results"])
p("C19", "Moved and copied objects behave like the original",
  "A solver, statistics, problem, trajectory, knot point, logger, thread pool or queue that has been moved or (where allowed) copied behaves exactly like the original would have, and does not refer to the source any more: results, options, logs, callbacks, task partitions and constraint reports are the same, also after the source is destroyed. Changing a copy never changes the source.",
  ["histories", "inputs"], "moves and copies at any point of a history (before, between and after solves), sources destroyed or reused",
  "tests move a few objects and check one field",
  [IL, AL, "altro/common/solver_stats.hpp", "altro/common/solver_logger.hpp", PR, "altro/common/trajectory.hpp", "altro/common/knotpoint.hpp"], [("move constructors", "listed files")],
  ["results of the moved-to or copied object versus an untouched twin"])
p("C20", "Discretisation implements its integration rule and its exact derivative",
  "A discretised model equals the named explicit integration rule (Euler, fourth-order Runge-Kutta) of the continuous dynamics for every state, control, start time and step, including time-dependent dynamics, and its order of accuracy is the rule's. Its Jacobian is the exact derivative of that discrete map, for any dimensions and repeated use.",
  ["inputs"], "all smooth dynamics, dimensions, states, controls, times, steps",
  "tests use autonomous example models at few points",
  ["altro/problem/integration.hpp", "altro/problem/discretized_model.hpp", "altro/problem/dynamics.cpp"], [("RK4 and chain rule", "altro/problem/integration.hpp")],
  ["integrated state and Jacobian versus own implementation, finite differences and analytic flows"])
p("C21", "Bundled models, costs and constraints have correct values and derivatives",
  "The bundled models (n-fold integrator, unicycle), quadratic costs and constraints (goal, control bounds, circular obstacles) return the values of their documented formulas and derivatives that are the exact derivatives of those values, for all arguments and parameters. The bundled problem builders produce problems with the documented horizon, dynamics, costs and constraints.",
  ["inputs", "configurations"], "all parameters, dimensions, states, controls, bound sets (including infinite bounds) and index choices",
  "tests evaluate selected points",
  ["examples/triple_integrator.cpp", "examples/unicycle.cpp", "examples/quadratic_cost.cpp", "examples/basic_constraints.hpp", "examples/obstacle_constraints.hpp", "examples/problems/unicycle.cpp", "examples/problems/triple_integrator.hpp"], [("formulas", "examples/")],
  ["values and derivatives versus own formulas and finite differences"])
p("C22", "Derivative checkers accept right derivatives and reject wrong ones",
  "The finite-difference tools approximate gradients, Jacobians and Hessians with the right shape, layout and order of accuracy for any function, and leave their argument untouched. The derivative checks of functions and dynamics accept exact derivatives and reject any derivative with an entry that is wrong by more than the tolerance, wherever the entry is.",
  ["inputs"], "all functions, dimensions, points, and single-entry errors of any position",
  "tests check one or two correct functions and a single wrong one",
  ["altro/utils/derivative_checker.hpp", "altro/common/functionbase.cpp"], [("finite differences", "altro/utils/derivative_checker.hpp"), ("checks", "altro/common/functionbase.cpp")],
  ["verdicts on exact and mutated derivatives"])
p("C23", "Problem definitions are stored faithfully and misuse is rejected",
  "A problem returns exactly the dynamics, costs, constraints and initial state that were set for each knot point, whatever the order and grouping of the set calls, counts them correctly, and is reported fully defined exactly when every required piece is present. Out-of-range indices, inconsistent dimensions, undefined pieces, invalid partitions and unset trajectories are rejected at the call by the library's assertion, and never silently accepted or turned into a crash.",
  ["inputs", "histories"], "all sequences of set calls, valid and invalid",
  "tests try a few orders and a few invalid calls",
  [PR, "altro/problem/problem.cpp", IL, "altro/utils/assert.cpp"], [("setters with assertions", PR), ("IsFullyDefined", "altro/problem/problem.cpp")],
  ["getters after random call sequences; abort behaviour in child processes"])
p("C24", "Solve statistics are a faithful per-iteration history",
  "All per-iteration histories have the same length, one entry per completed iteration in order followed by the one in progress, each holding the value last logged for it up to the end of that iteration, and the iteration counters match them. Resetting empties everything, the capacity or verbosity settings never change recorded values, and logged values reach the printed table unchanged.",
  ["histories", "inputs"], "all sequences of logging, new-iteration, reset and capacity operations, and all solves",
  "tests log a few values",
  ["altro/common/solver_stats.cpp", "altro/common/solver_stats.hpp", "altro/common/solver_logger.cpp"], [("history vectors and pointer map", "altro/common/solver_stats.cpp")],
  ["history vectors and counters versus a reference log"])
p("C25", "The console table prints what was logged, at the right level and cadence",
  "Each printed row shows exactly the most recent data logged while its column was active, for the columns active at the current verbosity, aligned under their headers with the configured width and format, in the colour configured for values outside a column's bounds, and nothing is printed for levels above the verbosity. The header appears once per configured number of rows, and never when that number is zero.",
  ["configurations", "histories", "inputs"], "all verbosity levels, field sets, widths, formats, header frequencies and log sequences",
  "tests print one small table and compare by eye",
  ["altro/common/solver_logger.cpp", "altro/common/solver_logger.hpp", "altro/common/log_entry.cpp", "altro/common/log_entry.hpp"], [("row and header printing", "altro/common/solver_logger.cpp")],
  ["captured standard output parsed against the logged values"])
p("C26", "The profiler attributes every timed interval to the right place",
  "Every interval started and stopped while the profiler is active is added once to the entry for its nesting path, so entries appear exactly for executed paths, a parent's time is at least the sum of its children, and each printed percentage is that of the named parent or of the total. Inactive profilers record nothing, and output goes to the chosen file completely, with files closed exactly once, through moves and output changes.",
  ["histories", "configurations"], "all nesting sequences of timed intervals, activations, outputs",
  "tests time a few sleeps and are excluded from the reliable set",
  ["altro/common/timer.cpp", "altro/common/timer.hpp", "altro/common/profile_entry.cpp"], [("stack of names and time map", "altro/common/timer.cpp")],
  ["parsed profile output versus own record of intervals"])
p("C27", "Trajectories store what is set and keep consistent times",
  "A trajectory returns for each knot point exactly the state, control, time and step last written to it, and nothing written to one knot point shows up in another. Setting a uniform or individual step yields times and steps consistent with each other and with a zero final step, the time-consistency check accepts exactly consistent times, and zeroing or copying affects exactly the stated data.",
  ["histories", "inputs"], "all sequences of writes, sizes, static and dynamic",
  "tests write a few values to one size",
  ["altro/common/trajectory.hpp", "altro/common/knotpoint.hpp"], [("knot point storage", "altro/common/knotpoint.hpp"), ("times", "altro/common/trajectory.hpp: SetUniformStep, CheckTimeConsistency")],
  ["getters versus a reference model"])
p("C28", "No result depends on uninitialised memory",
  "No branch, user function argument, returned value, or logged value in any supported use depends on memory that was never written. In particular, freshly built solvers, problems, trajectories, statistics and bundled problems have fully defined values.",
  ["inputs", "configurations", "histories"], "all uses of the public API",
  "uninitialised memory is usually zero in a fresh process, so tests pass by luck",
  [IL, AL, KP, CV, "examples/problems/unicycle.hpp", "examples/problems/triple_integrator.hpp"], [("initialisers", "listed files")],
  ["valgrind memcheck definedness of everything compared or printed"])
p("C29", "Benchmark summaries are the statistics of the recorded times",
  "The benchmark helpers call the benchmarked function the promised number of times, and the reported mean, standard deviation, median, minimum and maximum are those of the recorded samples. This holds for any number and order of samples.",
  ["inputs"], "all sample sets of any positive size", "no test covers the helpers",
  ["altro/utils/benchmarking.hpp"], [("statistics", "altro/utils/benchmarking.hpp")],
  ["returned statistics versus own computation"])

p("C30", "Solvers built from one problem do not influence each other or the problem",
  "Any number of solvers, of both kinds, with dimensions known at compile time or not, can be built from one problem and used in any interleaving. Each behaves exactly as if it were alone: no operation of one solver changes what another shows, and none changes the problem. Later changes of the problem's costs, dynamics or constraints do not reach existing solvers; a new initial state reaches all of them.",
  ["inputs", "histories"], "all problems, sets of solvers and interleavings of their operations with changes of the problem", "tests use one solver at a time",
  ["altro/ilqr/ilqr.hpp", "altro/augmented_lagrangian/al_solver.hpp", "altro/augmented_lagrangian/al_problem.hpp", "altro/problem/problem.hpp"],
  [("building from a problem", "altro/ilqr/ilqr.hpp"), ("building the augmented Lagrangian problem", "altro/augmented_lagrangian/al_problem.hpp")],
  ["interleaved script versus each solver replayed alone, step by step"])

p("C31", "Exceptions of user functions reach the caller and leave no trace",
  "Whatever a user's dynamics, cost or constraint function, or the violation callback, throws during a solve or any other operation of a solver reaches the caller of that operation unchanged, for any number of threads. It is never swallowed or turned into a crash or a result. The solver keeps its trajectory and options, and can be destroyed, moved or used again; a following solve gives bit-identical results to a fresh solver's.",
  ["inputs", "fault_sequences", "histories"], "all problems, kinds of user functions, moments of the exception, numbers of threads and repetitions", "no test throws from a user function of a solver",
  ["altro/ilqr/ilqr.hpp", "altro/augmented_lagrangian/al_solver.hpp", "altro/common/threadpool.cpp"],
  [("parallel expansions", "altro/ilqr/ilqr.hpp: UpdateExpansions"), ("reset before each solve", "altro/ilqr/ilqr.hpp: SolveSetup, ResetInternalVariables")],
  ["exception that arrives versus the one thrown; later solve versus a fresh solver"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for e in P:
        assert len(e["title"]) <= 80, e["title"]
        f.write(json.dumps(e) + "\n")
print(len(P))
