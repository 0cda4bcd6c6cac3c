"""Which sources, build flavours and workloads decide each property."""
COMMON = ["-std=c++14", "-DFMT_DEPRECATED_OSTREAM", "-D_GLIBCXX_ASSERTIONS", "-w", "-isystem", "/usr/include/eigen3", "-gline-tables-only", "-fno-omit-frame-pointer"]
UB = ("bounds,integer-divide-by-zero,signed-integer-overflow,shift,bool,enum,float-cast-overflow,"
      "return,unreachable,vla-bound")
FLAVORS = {
    "asan": {"cc": ["clang++", "-O1"] + COMMON + ["-fsanitize=address," + UB, "-fno-sanitize-recover=all"],
             "env": {"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=0",
                     "UBSAN_OPTIONS": "print_stacktrace=1:abort_on_error=1"}},
    "ubsan": {"cc": ["clang++", "-O0"] + COMMON + ["-fsanitize=address,undefined", "-fno-sanitize=vptr",
                                                   "-fno-sanitize-recover=all"],
              "env": {"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0",
                      "UBSAN_OPTIONS": "print_stacktrace=1:abort_on_error=1"}},
    "tsan": {"cc": ["clang++", "-O1"] + COMMON + ["-fsanitize=thread"],
             "env": {"TSAN_OPTIONS": "halt_on_error=1:abort_on_error=0:exitcode=66:second_deadlock_stack=1"}},
    "plain": {"cc": ["clang++", "-O1"] + COMMON},
    "memcheck": {"cc": ["g++", "-O1"] + [x for x in COMMON if x != "-gline-tables-only"] + ["-g1"],
                 "prefix": ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--leak-check=no",
                            "--track-origins=no"]},
}
SPECS = {}


def spec(pid, src, rule, quick, thorough, flavor="asan", shards=8, **kw):
    runs = kw.pop("runs", None) or [dict(flavor=flavor, quick=quick, thorough=thorough, shards=shards)]
    SPECS[pid] = dict(src=src, rule=rule, runs=runs, flavors=[r["flavor"] for r in runs], **kw)

spec("C01", ["c01.cpp", ("c01.cpp", ["STATIC_UNIT"])],
     "random problems (sizes, time-varying linear/nonlinear dynamics, costs, constraints, options, threads) solved one to "
     "three times with changes in between; distinct = bit-distinct returned trajectories",
     quick=150, thorough=4000, minimum={"iterations_watched": 200, "status_solved": 50})

spec("C02", ["c02.cpp"],
     "random nonconvex, unstable and constrained problems with varied line-search options, observed at every iteration; "
     "distinct = bit-distinct trajectories seen between iterations",
     quick=200, thorough=8000, minimum={"iterations_accepted": 1000, "iterations_unchanged": 50, "shortened_steps": 50,
                                        "ratios_checked": 500})

spec("C03", ["c03.cpp"],
     "random linear-quadratic problems (cross terms, time-varying, affine, far guesses) against a dense solve and an own "
     "Riccati recursion, plus rollouts of the policy from other initial states; distinct = bit-distinct solutions",
     quick=250, thorough=8000, minimum={"gains_compared": 3000, "policies_rolled_out": 1000})
spec("C04", ["c04.cpp"],
     "indefinite, cross-coupled and badly scaled problems with all regularisation options, every backward pass recomputed "
     "from the user's derivatives; distinct = (regularisation, trajectory) pairs",
     quick=250, thorough=8000, minimum={"increase_needed": 200, "no_increase_needed": 1000, "must_fail": 50,
                                        "status_bp_failed": 50, "knot_points_checked": 5000})
spec("C05", ["c05.cpp", ("c05.cpp", ["STATIC_UNIT"])],
     "expansions at random points with user functions whose written entries change from call to call, over thread counts and "
     "task splits; distinct = bit-distinct evaluation trajectories",
     quick=250, thorough=8000, minimum={"threaded_updates": 500, "serial_updates": 500, "knot_points": 10000})
spec("C12", ["c12.cpp"],
     "random (also unstable) problems with tight limits, candidates of the last iteration replayed; distinct = bit-distinct "
     "trajectories between iterations",
     quick=250, thorough=8000, minimum={"accepted_with_limits": 1000, "fully_blocked": 20, "status_state_limit": 20,
                                        "status_control_limit": 20, "disabled_twins": 50})
spec("C11", ["c11.cpp"],
     "ordinary, infeasible, unbounded, diverging and poisoned (NaN/Inf/huge from user functions) problems under random budgets "
     "and tolerances; distinct = (result, status, iteration count)",
     quick=250, thorough=8000, minimum={"status_solved": 100, "status_max_inner": 50, "status_max_iterations": 50, "status_max_outer": 20,
                                        "status_max_penalty": 5, "status_bp_failed": 20, "poisoned": 200})
spec("C06", ["c06.cpp", ("c06.cpp", ["STATIC_UNIT"])],
     "random constrained problems (feasible, infeasible, nonconvex, with constraint functions that return NaN/Inf in a region), "
     "option changes between solves, every iteration compared with the user's constraint functions; distinct = bit-distinct "
     "returned trajectories",
     quick=150, thorough=5000, minimum={"iterations_watched": 5000, "status_solved": 200, "poisoned_problems": 50})
spec("C08", ["c08.cpp", ("c08.cpp", ["STATIC_UNIT"])],
     "random constraint mixes, multipliers (also of the wrong sign), penalties over nine decades, points and call orders, against "
     "an own implementation of the formula and finite differences; distinct = bit-distinct evaluation points",
     quick=400, thorough=20000, minimum={"values": 5000, "rows_active": 2000, "rows_inactive": 2000, "rows_equality": 2000, "expansions": 5000})
spec("C09", ["c09.cpp", ("c09.cpp", ["STATIC_UNIT"])],
     "random constrained problems with every combination of reset options, growth factors, warm starts and repeated solves; each "
     "outer iteration's multipliers and penalties recomputed from the trajectory; distinct = bit-distinct multiplier vectors",
     quick=200, thorough=8000, minimum={"outer_iterations": 5000, "duals_kept": 100, "penalties_kept": 50, "ends_checked": 500, "manual_updates": 50})
spec("C10", ["c10.cpp", ("c10.cpp", ["STATIC_UNIT"])],
     "random placements, types, labels and insertion orders of constraints, random trajectories (huge and NaN entries too), all "
     "queries compared with the user's functions; distinct = bit-distinct trajectories queried",
     quick=400, thorough=20000, minimum={"violations_compared": 20000, "reports": 20000, "solves": 500, "unconstrained": 50})
spec("C07", ["c07.cpp", ("c07.cpp", ["STATIC_UNIT"])],
     "random strictly feasible convex problems (horizons to 15, equality/inequality/box mixes, penalties, restarts), each solution "
     "certified through the returned multipliers by weak duality; distinct = bit-distinct solutions",
     quick=300, thorough=12000, minimum={"certified": 1000, "with_active_inequalities": 300, "with_mixed_activity": 200})
spec("C13", ["c13.cpp", ("c13.cpp", ["STATIC_UNIT"])],
     "random problems solved by a fresh solver, again by the same one, and by one that first did other solves (other initial "
     "states, options, threads, limits, failures, non-finite user values, partial runs); compared bit for bit; distinct = "
     "bit-distinct reference solutions",
     quick=120, thorough=5000, minimum={"compared": 700, "dirty_poison": 100, "dirty_limits": 100, "dirty_bp_failed": 30, "kept_duals": 50})
spec("C14", ["c14.cpp", ("c14.cpp", ["STATIC_UNIT"])],
     "random problems solved serially and with 1-8 threads, 1-5 tasks per thread, random partitions changed between solves, user "
     "functions of varying duration; results bit for bit, calls per knot point counted; distinct = bit-distinct solutions",
     quick=150, thorough=6000, minimum={"parallel_solves": 500, "custom_partitions": 200, "default_partitions": 1000, "invalid_partitions": 30})
spec("C15", ["c15.cpp", ("c15.cpp", ["STATIC_UNIT"]), ("c15.cpp", ["BUNDLED_UNIT"])],
     "threaded solves (plain and constrained, 1-6 threads, random partitions, repeats, moves, random delays inside user functions), "
     "pools and queues under load, all under ThreadSanitizer, with plain data in every user function, task and element; distinct = "
     "distinct assignments of knot points to threads",
     quick=300, thorough=8000, flavor="tsan", shards=6, parallel=6, examples=True,
     minimum={"parallel_solves": 150, "bundled_solves": 20, "bundled_concurrent": 20, "queue_watchers": 20, "concurrent_solvers": 50, "solves_with_real_parallelism": 30, "pool_tasks": 1000, "queue_elements": 2000, "pool_restarts": 20})
spec("C16", ["c16.cpp"],
     "random scripts of adding (several kinds of) tasks, launching, waiting, stopping, moving and destroying, with throwing, slow "
     "and mutually dependent tasks, against a model of what must have run; distinct = distinct assignments of tasks to threads",
     quick=400, thorough=20000, shards=6, parallel=6,
     minimum={"tasks": 5000, "waits": 1000, "stops": 200, "moves": 200, "destroyed_with_pending": 100, "rendezvous": 50, "misuse": 10, "timeouts": 20})
spec("C17", ["c17.cpp"],
     "recorded concurrent histories (2-6 threads, element moves that yield inside the critical sections): small ones searched for an "
     "equivalent sequential queue history, long ones checked for every forbidden FIFO pattern; model-based single-threaded scripts; "
     "distinct = distinct histories with overlapping operations",
     quick=700, thorough=20000, shards=4, parallel=4,
     minimum={"histories_linearized": 1500, "histories_by_pattern": 1500, "overlapping_operations": 20000, "clears": 100, "moves": 100, "long_queues": 3, "histories_with_clear": 200})
spec("C18", ["c18.cpp", ("c18.cpp", ["STATIC_UNIT=1"]), ("c18.cpp", ["STATIC_UNIT=2"]), ("c18.cpp", ["STATIC_UNIT=3"])],
     "random sequences of public operations over dimensions to 13x7 and seven compile-time size combinations (two of them mixed) under "
     "ASan and UBSan, allocation balance of every solver, and static against dynamic solvers; distinct = bit-distinct solutions",
     quick=60, thorough=2500, flavor="ubsan",
     minimum={"balances": 100, "agreements": 50, "function_sets": 20, "operations": 5000})
spec("C19", ["c19.cpp", ("c19.cpp", ["STATIC_UNIT"])],
     "random operation sequences on solvers of both kinds moved at random moments (source destroyed), copied/moved/assigned statistics, "
     "loggers, problems, trajectories, knot points and expansions, each against an untouched twin; distinct = distinct solver states compared",
     quick=300, thorough=12000,
     minimum={"solver_moves": 1000, "solver_operations": 1500, "stats_pairs": 100, "logger_pairs": 50, "problem_pairs": 50, "containers": 50})
spec("C20", ["c20.cpp", ("c20.cpp", ["STATIC_UNIT"])],
     "random continuous models (time-varying, nonlinear, piecewise, sparse and dense derivative writers) stepped by both rules through every "
     "public call, against an own implementation, differences of the map and an accurate flow; distinct = bit-distinct next states",
     quick=300, thorough=20000, minimum={"steps_rk4": 5000, "steps_euler": 5000, "time_varying": 5000, "orders_rk4": 100, "orders_euler": 500, "integrators": 5000})
spec("C21", ["c21.cpp"],
     "random arguments and parameters for every bundled model, cost and constraint, and every builder with random sizes and data, "
     "against the documented formulas and differences; distinct = bit-distinct values",
     quick=150, thorough=20000, examples=True,
     minimum={"integrator_values": 500, "unicycle_values": 500, "cost_values": 2000, "bound_values": 2000, "circle_values": 1000,
              "triple_problems": 100, "unicycle_obstacles": 30, "unicycle_turn90": 30, "solvers": 20})
spec("C22", ["c22.cpp"],
     "random functions with known derivatives, differenced in every mode and step; every kind of function checked with an exact derivative "
     "and with each single entry wrong, by given and random points; distinct = distinct differences and faults",
     quick=120, thorough=20000,
     minimum={"accepted": 1000, "faults": 10000, "within": 1000, "central_jacobians": 500, "forward_jacobians": 500, "hessians": 1000})
spec("C23", ["c23.cpp", ("c23.cpp", ["STATIC_UNIT"])],
     "random sequences of set calls (single, ranges, replaced, incomplete) against a model of what was set, and sixty kinds of misuse each in a "
     "child process that must end in the library's assertion; distinct = distinct definition states",
     quick=150, thorough=10000,
     minimum={"operations": 20000, "complete": 1000, "incomplete": 1000, "reports": 200, "solvers": 500, "incomplete_rejected": 200, "misuses": 3000})
spec("C24", ["c24.cpp", ("c24.cpp", ["STATIC_UNIT"])],
     "random logging scripts on statistics objects against a reference history, and solves of both kinds at all verbosity levels whose histories, "
     "counters and printed rows are compared with what the iterations handed over; distinct = distinct scripts and bit-distinct solutions",
     quick=150, thorough=8000,
     minimum={"unit_cases": 1000, "resets": 500, "rows": 1000, "iterations_watched": 10000, "twins": 300, "solves_level_0": 100, "solves_level_1": 100,
              "solves_level_3": 100, "solves_level_5": 100})
spec("C25", ["c25.cpp"],
     "random tables (columns, positions, widths, formats, levels, bounds, colours) under random sequences of logging, printing, level changes and "
     "clearing, the captured terminal text compared character by character with a model; distinct = distinct printed texts",
     quick=150, thorough=10000,
     minimum={"scripts": 10000, "rows": 50000, "headers": 5000, "coloured": 10000, "logged_inactive": 10000, "tolerances": 1000, "misuses": 50})
spec("C26", ["c26.cpp"],
     "random nestings of timed intervals with activations, exceptions, summaries and output changes, random given times, and profiled solves of both "
     "kinds; every printed summary parsed and compared with an own record of the intervals and paths; distinct = distinct scripts",
     quick=120, thorough=6000,
     minimum={"intervals": 5000, "inactive_intervals": 1000, "summaries": 1000, "summaries_inside": 100, "same_file_again": 100, "user_files": 500,
              "given_summaries": 2000, "profiled_solves": 1000, "thrown": 50, "exceptions": 300})
spec("C27", ["c27.cpp"],
     "random operation sequences on trajectories and knot points of five compile-time size combinations and lengths 0-120 against a reference model, every "
     "getter read after every operation; distinct = bit-distinct trajectories",
     quick=300, thorough=20000,
     minimum={"operations": 50000, "consistent": 2000, "inconsistent": 500, "tolerated": 100, "undefined": 50, "uniform": 2000, "copies": 2000, "moves": 2000,
              "from_vectors": 1000, "from_one_state": 50, "conversions": 5000, "misuses": 50})
spec("C28", ["c28.cpp", ("c28.cpp", ["STATIC_UNIT"])],
     "fresh, copied, moved and used objects of every kind read completely, random operation sequences on both solvers with user functions that look at "
     "the definedness of their arguments, bundled problems, integrators, checkers and all printed output, under valgrind memcheck; distinct = "
     "bit-distinct trajectories",
     quick=200, thorough=6000, flavor="memcheck", examples=True,
     minimum={"solver_reads": 500, "user_calls": 5000, "containers": 30, "bundled": 20, "statistics": 20, "printed_bytes": 10000})
spec("C29", ["c29.cpp"],
     "random sample sets (sizes 1-120, sorted, reversed, equal, with outliers and zeros, four units) summarised and printed, and benchmarks of functions that "
     "record their own start and end; distinct = distinct sample sets",
     quick=250, thorough=20000,
     minimum={"calculated": 20000, "odd": 5000, "even": 5000, "single": 500, "measured": 1000, "default_samples": 100, "exceptions": 1000})
spec("C30", ["c30.cpp", ("c30.cpp", ["STATIC_UNIT"])],
     "random scripts that interleave two to four solvers of both kinds (dynamic and compile-time sizes, moved, destroyed, built in "
     "several ways) over one problem edited in between; each solver replayed alone on a fresh problem and compared at every step; "
     "distinct = distinct solver states",
     quick=120, thorough=8000,
     minimum={"solvers": 1000, "replayed": 5000, "bystanders": 5000, "problem_edits": 300, "initial_states": 500})
spec("C31", ["c31.cpp", ("c31.cpp", ["STATIC_UNIT"])],
     "random problems whose user functions (every kind) or callback throw at a random call of a solve or of a single operation, with one to four "
     "threads, repeatedly, the solver moved or destroyed in that state; afterwards compared bit for bit with a fresh solver; distinct = bit-distinct "
     "solutions after an exception",
     quick=120, thorough=8000,
     minimum={"attempts": 1500, "compared": 800, "thrown_in_solve": 400, "thrown_with_threads": 150, "thrown_by_dynamics": 50, "thrown_by_dynamics Jacobian": 50,
              "thrown_by_cost": 50, "thrown_by_cost gradient": 50, "thrown_by_cost Hessian": 50, "thrown_by_constraint": 20, "thrown_by_constraint Jacobian": 20,
              "thrown_by_callback": 20})
