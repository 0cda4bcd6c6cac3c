#!/usr/bin/env python3
"""automut.py [-j N] [-n COUNT] [--seed S] [--file PART]: random single-token mutants of the library, each run
against the checks that watch its file, in order, until one raises a violation. Survivors are printed."""
import os, random, re, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = {
 "altro/ilqr/ilqr.hpp": "C02 C04 C11 C14 C01 C13 C12 C24 C18 C19 C23",
 "altro/ilqr/knot_point_function_type.hpp": "C05 C03 C04 C18 C19",
 "altro/ilqr/cost_expansion.hpp": "C05 C18 C19 C28",
 "altro/ilqr/dynamics_expansion.hpp": "C05 C18 C19 C28",
 "altro/augmented_lagrangian/al_solver.hpp": "C09 C10 C11 C06 C13 C19 C23 C24",
 "altro/augmented_lagrangian/al_cost.hpp": "C08 C09 C10 C19 C06 C23",
 "altro/augmented_lagrangian/al_problem.hpp": "C08 C10 C07 C23 C19",
 "altro/constraints/constraint_values.hpp": "C08 C09 C10 C06 C18",
 "altro/constraints/constraint.hpp": "C08 C07 C10 C22 C23",
 "altro/common/threadpool.cpp": "C16 C15 C19",
 "altro/common/threadpool.hpp": "C16 C15 C19",
 "altro/common/threadsafe_queue.hpp": "C17 C15 C19 C16",
 "altro/common/knotpoint.hpp": "C27 C19 C18 C28",
 "altro/common/trajectory.hpp": "C27 C19 C18 C28",
 "altro/common/state_control_sized.hpp": "C18 C23 C19",
 "altro/common/functionbase.cpp": "C22 C23",
 "altro/common/functionbase.hpp": "C22 C20 C21",
 "altro/common/solver_stats.cpp": "C24 C19 C25 C13",
 "altro/common/solver_stats.hpp": "C24 C19 C25",
 "altro/common/solver_logger.cpp": "C25 C24 C19",
 "altro/common/solver_logger.hpp": "C25 C24 C19",
 "altro/common/log_entry.cpp": "C25 C24",
 "altro/common/log_entry.hpp": "C25 C24",
 "altro/common/timer.cpp": "C26 C19",
 "altro/common/timer.hpp": "C26 C19",
 "altro/common/profile_entry.cpp": "C26",
 "altro/common/profile_entry.hpp": "C26",
 "altro/problem/problem.hpp": "C23 C19 C10",
 "altro/problem/problem.cpp": "C23 C19 C10",
 "altro/problem/integration.hpp": "C20 C18",
 "altro/problem/discretized_model.hpp": "C20 C01",
 "altro/problem/dynamics.hpp": "C22 C20 C21",
 "altro/problem/dynamics.cpp": "C22 C20 C21",
 "altro/utils/derivative_checker.hpp": "C22",
 "altro/utils/formatting.hpp": "C18 C22",
 "altro/utils/utils.hpp": "C10 C18",
 "altro/utils/benchmarking.hpp": "C29",
 "examples/quadratic_cost.hpp": "C21", "examples/quadratic_cost.cpp": "C21",
 "examples/triple_integrator.hpp": "C21", "examples/triple_integrator.cpp": "C21",
 "examples/unicycle.hpp": "C21", "examples/unicycle.cpp": "C21",
 "examples/basic_constraints.hpp": "C21", "examples/obstacle_constraints.hpp": "C21",
 "examples/problems/triple_integrator.hpp": "C21", "examples/problems/triple_integrator.cpp": "C21",
 "examples/problems/unicycle.hpp": "C21", "examples/problems/unicycle.cpp": "C21",
}
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
       (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" && ", " || "), (r" \|\| ", " && "),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!\.)", "2"), (r"\b1\b(?!\.)", "0"), (r"\+\+", "--"),
       (r"std::max\b", "std::min"), (r"std::min\b", "std::max"), (r"\.transpose\(\)", ""), (r"k \+ 1", "k"), (r"\+= ", "= "),
       (r"\*= ", "/= "), (r"-= ", "+= "), (r"\bn_\b", "m_"), (r"\bm_\b", "n_"), (r"dxdu", "dudx"), (r"!(?=[a-zA-Z])", ""), (r"\bState\b", "Control"),
       (r"kSolved", "kUnsolved"), (r"std::move\((\w+)\)", r"\1"), (r"\bbreak;", ";")]
TRIG = {
 "altro/ilqr/ilqr.hpp": ["N_ > 10", "stats_.iterations_total > 12", "GetOptions().nthreads > 1", "rho_ > 1e-3", "stats_.iterations_outer > 2", "stats_.iterations_inner == 1"],
 "altro/ilqr/knot_point_function_type.hpp": ["this->StateDimension() > 5", "this->ControlDimension() > 3", "this->ControlDimension() > this->StateDimension()"],
 "altro/ilqr/cost_expansion.hpp": ["this->StateDimension() > 5", "this->ControlDimension() > 3"],
 "altro/ilqr/dynamics_expansion.hpp": ["this->StateDimension() > 5", "this->ControlDimension() > 3"],
 "altro/augmented_lagrangian/al_solver.hpp": ["NumSegments() > 10", "ilqr_solver_.GetStats().iterations_outer > 2", "ilqr_solver_.GetStats().iterations_total > 30"],
 "altro/augmented_lagrangian/al_cost.hpp": ["n_ > 5", "eq_.size() > 1", "ineq_.size() > 1", "eq_.size() + ineq_.size() > 2"],
 "altro/constraints/constraint_values.hpp": ["con_->OutputDimension() > 3", "penalty_(0) > 500", "n_ > 5", "c_(0) < -5"],
 "altro/common/threadpool.cpp": ["futures_.size() > 30", "threads_.size() > 4"],
 "altro/common/threadsafe_queue.hpp": ["*size_ > 20", "*size_ == 3"],
 "altro/common/knotpoint.hpp": ["x_.size() > 5", "u_.size() > 3", "t_ > 5"],
 "altro/common/trajectory.hpp": ["traj_.size() > 8"],
 "altro/common/solver_stats.cpp": ["len_ > 12", "iterations_outer > 1"],
 "altro/common/solver_logger.cpp": ["count_ > 7"],
 "altro/problem/problem.hpp": ["N_ > 7", "k > 4"],
 "altro/problem/problem.cpp": ["N_ > 7"],
 "altro/problem/integration.hpp": ["x.size() > 4", "t > 2", "h > 0.3"],
}
def trigger(path, line, new, rng):
    """The mutated line, but only under some condition."""
    conds = TRIG.get(path)
    if not conds:
        return None
    c = rng.choice(conds)
    t, u = line.split("//")[0].strip(), new.split("//")[0].strip()
    ind = line[:len(line) - len(line.lstrip())]
    m, w = re.match(r"(if|while|\} else if) \((.*)\) \{$", t), re.match(r"(if|while|\} else if) \((.*)\) \{$", u)
    if m and w:
        return "%s%s ((%s) ? (%s) : (%s)) {" % (ind, m.group(1), c, w.group(2), m.group(2))
    m, w = re.match(r"return (.*);$", t), re.match(r"return (.*);$", u)
    if m and w:
        return "%sreturn (%s) ? (%s) : (%s);" % (ind, c, w.group(1), m.group(1))
    m, w = re.match(r"((?:const )?(?:int|double|bool|float|size_t) \w+) = (.*);$", t), re.match(r"((?:const )?(?:int|double|bool|float|size_t) \w+) = (.*);$", u)
    if m and w:
        return "%s%s = (%s) ? (%s) : (%s);" % (ind, m.group(1), c, w.group(2), m.group(2))
    if t.endswith(";") and not re.match(r"(return|const |auto |int |double |float |bool |std::shared|break|using|\w+(<.*>)?[&*]* \w+( =|\{|;|\())", t) and t.count("(") == t.count(")"):
        return "%sif (%s) { %s } else { %s }" % (ind, c, u, t)
    return None
def mutants(path):
    src = open("/repo/" + path).read().split("\n")
    out, comment = [], False
    for i, l in enumerate(src):
        t = l.strip()
        if comment or t.startswith("/*"):
            comment = "*/" not in t
            continue
        if not t or t.startswith(("//", "#", "template", "using ", "ALTRO_ASSERT", "static_assert", "fmt::print", "ALTRO_UNUSED")) or "throw" in t:
            continue
        code = l.split("//")[0]
        for a, b in OPS:
            for m in re.finditer(a, code):
                if code[:m.start()].count('"') % 2:
                    continue
                out.append((i, code[:m.start()] + m.expand(b) + code[m.end():]))
        if t.endswith(";") and not re.match(r"(return|const |auto |int |double |float |bool |std::|VectorXd |MatrixXd |[A-Z]\w*(<.*>)? \w+)", t) and t.count("(") == t.count(")"):
            out.append((i, "  ;  // deleted"))
    return src, out
args = sys.argv[1:]
def opt(n, d):
    return args[args.index(n) + 1] if n in args else d
N, J, seed, part = int(opt("-n", "40")), int(opt("-j", "2")), int(opt("--seed", "1")), opt("--file", "")
rng = random.Random(seed)
pool = []
for f in FILES:
    if part in f and os.path.exists("/repo/" + f):
        src, ms = mutants(f)
        rng.shuffle(ms)
        if "--triggered" in args:
            ms = [(i, t) for i, t in ((i, trigger(f, src[i], new, rng)) for i, new in ms) if t]
        pool += [(f, src, m) for m in ms[:max(4, len(ms) * N // 1500 + 1)]]
rng.shuffle(pool)
if "--list" in args:
    for f, src, (i, new) in pool[:N]: print(f, i, src[i].strip(), "==>", new.strip())
    sys.exit()
def run(job):
    f, src, (i, new) = job
    w = tempfile.mkdtemp(prefix="am_", dir="/tmp")
    desc = "%s:%d  %s  ==>  %s" % (f, i + 1, src[i].strip(), new.strip())
    try:
        subprocess.run("git -C /repo archive HEAD | tar -x -C " + w, shell=True)
        t = list(src)
        t[i] = new
        open(w + "/" + f, "w").write("\n".join(t))
        res = []
        for c in FILES[f].split():
            r = subprocess.run(["timeout", "600", "python3", V + "/harness/run.py", c], capture_output=True, text=True,
                               env=dict(os.environ, ALTRO_REPO=w, VERIF_SEED="1", VERIF_TIER="quick"))
            if "does not build" in r.stdout + r.stderr or "build failed" in (r.stdout + r.stderr).lower() or "compilation failed" in r.stdout:
                return "NOBUILD  " + desc
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                k = re.search(r"\[([\w-]+)\]", r.stdout)
                return "caught %s %s  %s" % (c, (k.group(1) if k else ""), desc)
            res.append("%s=%d" % (c, r.returncode))
        return "SURVIVED %s  %s" % (" ".join(res), desc)
    finally:
        shutil.rmtree(w)
print(len(pool), "mutants", flush=True)
with ThreadPoolExecutor(J) as ex:
    for l in ex.map(run, pool[:N]):
        print(l, flush=True)
