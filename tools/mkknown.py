#!/usr/bin/env python3
"""Writes ../known-findings.txt: commits are looked up by subject in /repo, so hashes stay right."""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
H = {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in log}
F = [
 ("C20", "evaluate RK4 stage Jacobians at the stage times", "the RK4 Jacobian of time-dependent dynamics used the start time in every stage"),
 ("C17", "do not deadlock when clearing the thread-safe queue", "clearing a non-empty queue deadlocked and the size was not reset"),
 ("C17", "count a queue element before it can be popped", "a concurrent pop could make the queue size negative"),
 ("C17", "destroy a long queue without recursion", "destroying a long queue overflowed the stack"),
 ("C27", "link a trajectory created by MakeTrajectory completely", "a trajectory made by the solver had no candidate trajectory, so solving dereferenced null"),
 ("C14", "always include the terminal index in the default task assignment", "rounding could leave the terminal knot point out of the default partition"),
 ("C14", "validate and use the task assignment passed by the user", "a user-defined partition was validated wrongly and not used until the thread count changed"),
 ("C19", "keep moved and copied solver statistics self-contained", "moved statistics wrote into the vectors of the source (use after free)"),
 ("C19", "do not keep pointers into another logger when copying", "a copied logger referred to the entries of its source"),
 ("C19", "keep a custom task assignment when moving the iLQR solver", "a moved solver lost the user-defined partition"),
 ("C19", "rebind the violation callback when moving the AL solver", "a moved constrained solver called back into its destroyed source"),
 ("C19", "copy the number of segments when copying or moving a problem", "a copied problem had an uninitialised horizon"),
 ("C23", "report missing initial dynamics instead of dereferencing null", "a problem without dynamics at the first knot point crashed the definedness query"),
 ("C23", "reject constraints at invalid knot points", "a constraint at an invalid knot point wrote out of bounds"),
 ("C02", "restart the expected cost decrease with the backward pass", "a restarted backward pass counted the expected decrease twice"),
 ("C04", "stop after a failed backward pass instead of rolling out stale gains", "after a failed backward pass stale gains were rolled out"),
 ("C02", "keep cost and constraint data consistent after a failed line search", "after a failed line search the recorded cost and the cached violation were those of the rejected candidate"),
 ("C25", "do not divide by a header frequency of zero", "header frequency zero divided by zero"),
 ("C26", "close the profiler file when the output changes", "changing the profiler output leaked or double-closed the file"),
 ("C26", "avoid integer overflow in the profiler percentages", "percentages overflowed for long runs"),
 ("C26", "find the parent of a profiler entry by its name", "profile entries were attributed to the wrong parent, or read out of bounds"),
 ("C18", "write the scalar Jacobian with the stride of the output", "the Jacobian of a scalar function wrote to a strided row as if it were contiguous"),
 ("C21", "fill both off-diagonal blocks of the joint cost Hessian", "the joint Hessian of a cost left its lower off-diagonal block unset"),
 ("C18", "size the joint state and control vector of a dynamic knot point", "the joint vector of a dynamically sized knot point was written out of bounds"),
 ("C08", "zero the off-diagonal terms of the negative orthant Jacobian", "the projection Jacobian left its off-diagonal entries unset"),
 ("C11", "reset the status at the start of an AL solve", "a constrained solve with no outer iteration reported the status of the previous solve"),
 ("C06", "do not lose undefined constraint values in the violation", "a constraint returning NaN counted as satisfied and success was reported, and an inequality of minus infinity hid other violations"),
 ("C10", "sort constraints with undefined violations", "sorting constraint reports with NaN violations used an inconsistent order"),
]
# Not repaired: they are in examples/, where commits to /repo are not allowed (it counts as test code here).
K = [
 ("C21", "circle-jacobian-indices", "CircleConstraint::Jacobian (examples/obstacle_constraints.hpp) writes columns 0 and 1 whatever x_index_ and y_index_ are"),
 ("C21", "triple-integrator-uref", "TripleIntegratorProblem::MakeProblem (examples/problems/triple_integrator.hpp) passes an uninitialised reference control to the LQR cost"),
 ("C28", "triple-integrator-uref", "TripleIntegratorProblem::MakeProblem (examples/problems/triple_integrator.hpp) passes an uninitialised reference control to the LQR cost"),
]
F.append(("C16", "check that a pool is not running before moving its queue", "moving a running pool took the queue away from its threads (null dereference) before the assertion, and assigning to a running pool terminated without one"))
F.append(("C20", "zero the Jacobian between the stages of the Runge-Kutta integrator", "entries a model does not write in a later stage kept the value of the previous stage"))
F.append(("C08", "zero the constraint Jacobian before evaluating it", "entries a constraint does not write kept the value of an earlier evaluation"))
F.append(("C23", "reject missing problems and unsuitable trajectories instead of crashing", "a null or too short trajectory, or a solver without a problem, dereferenced null or read out of bounds"))
F.append(("C23", "reject an AL solver without a problem instead of crashing", "a constrained solver without a problem dereferenced a null cost when its penalty or violation was accessed"))
F.append(("C26", "flush the profiler file before opening it again", "opening the profiler file again mixed the old summary into the new one"))
F.append(("C27", "do not accept undefined times as consistent", "a trajectory with NaN times was reported as consistent"))
F.append(("C27", "create the terminal control without reading a previous one", "a trajectory made of a single state read out of bounds, and an infinite last control made the terminal one NaN"))
F.append(("C31", "hand exceptions of parallel expansions to the caller", "with several threads an exception of a user function was swallowed and the solve went on with stale expansions"))
with open(V + "/known-findings.txt", "w") as f:
    f.write("# Defects found in the original tree. 'fixed:' entries suppress nothing; 'known: property=<id> key=<monitor key> <what>' would.\n")
    for p, key, what in K:
        f.write("known: property=%s key=%s %s\n" % (p, key, what))
    for p, subj, what in F:
        f.write("fixed: property=%s %s %s\n" % (p, H["fix: " + subj], what))
print(len(F), [s for s in H if s.startswith("fix: ") and s[5:] not in [x[1] for x in F]])
