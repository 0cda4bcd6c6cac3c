// C28: no branch, user function argument, result or printed text depends on memory that was never written.
// Runs under valgrind's memcheck: implicit uses (branches, addresses, system calls) end the run with a report,
// values are asked for their definedness bits explicitly.
#include <valgrind/memcheck.h>

#include "altro/problem/discretized_model.hpp"
#include "altro/utils/benchmarking.hpp"
#include "altro/utils/derivative_checker.hpp"
#include "capture.hpp"
#include "examples/basic_constraints.hpp"
#include "examples/obstacle_constraints.hpp"
#include "examples/problems/triple_integrator.hpp"
#include "examples/problems/unicycle.hpp"
#include "examples/quadratic_cost.hpp"
#include "examples/triple_integrator.hpp"
#include "examples/unicycle.hpp"
#include "rig.hpp"
using namespace gen;
using altro::LogLevel;
using altro::SolverOptions;
using altro::SolverStats;

inline bool raw_defined(const void* p, size_t n) {
  static thread_local unsigned char v[1 << 12];
  const char* c = static_cast<const char*>(p);
  while (n > 0) {
    size_t k = std::min(n, sizeof v);
    if (VALGRIND_GET_VBITS(c, v, k) != 1) return false;  // 0: not under valgrind, 3: not addressable
    for (size_t i = 0; i < k; ++i)
      if (v[i]) return false;
    c += k, n -= k;
  }
  return true;
}
template <class T>
std::enable_if_t<std::is_arithmetic<T>::value || std::is_enum<T>::value || std::is_pointer<T>::value, bool> defined(const T& v) {
  T copy = v;  // definedness follows the value through registers and copies
  return raw_defined(&copy, sizeof copy);
}
inline bool defined(const std::string& s) { return raw_defined(s.data(), s.size()); }
template <class D>
bool defined(const Eigen::MatrixBase<D>& m) {
  if (!defined(m.rows()) || !defined(m.cols())) return false;
  for (int j = 0; j < m.cols(); ++j)
    for (int i = 0; i < m.rows(); ++i) {
      double x = m.derived().coeff(i, j);
      if (!raw_defined(&x, sizeof x)) return false;
    }
  return true;
}
template <class T>
bool defined(const std::vector<T>& v) {
  for (const T& x : v)
    if (!defined(x)) return false;
  return true;
}

inline mon::Ctx*& context() { static mon::Ctx* c = nullptr; return c; }
// The monitor: v was written before.
template <class T>
void must(const T& v, const char* key, const char* what, const std::string& where = "") {
  mon::Ctx& ctx = *context();
  ctx.check(defined(v), key, [&] { return std::string(what) + " depends on uninitialised memory " + where; });
}
#define MUST(expr, key, where) must((expr), key, #expr, where)

// ------------------------------------------------------------------ user functions that look at what they are given
struct SpyModel : Discrete {
  using Discrete::Discrete;
  using Discrete::Evaluate;
  using Discrete::Jacobian;
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, float t, float h, Eigen::Ref<VectorXd> xn) override {
    MUST(x, "dynamics-argument", ""), MUST(u, "dynamics-argument", ""), MUST(t, "dynamics-argument", ""), MUST(h, "dynamics-argument", "");
    context()->count("user_calls");
    Discrete::Evaluate(x, u, t, h, xn);
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, float t, float h, Eigen::Ref<MatrixXd> jac) override {
    MUST(x, "dynamics-argument", ""), MUST(u, "dynamics-argument", ""), MUST(t, "dynamics-argument", ""), MUST(h, "dynamics-argument", "");
    MUST(jac, "dynamics-output", "on entry");
    context()->count("user_calls");
    Discrete::Jacobian(x, u, t, h, jac);
  }
};
struct SpyCost : Cost {
  using Cost::Cost;
  using Cost::Gradient;
  using Cost::Hessian;
  double Evaluate(const VectorXdRef& x, const VectorXdRef& u) override {
    MUST(x, "cost-argument", ""), MUST(u, "cost-argument", "");
    context()->count("user_calls");
    return Cost::Evaluate(x, u);
  }
  void Gradient(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> dx, Eigen::Ref<VectorXd> du) override {
    MUST(x, "cost-argument", ""), MUST(u, "cost-argument", "");
    MUST(dx, "cost-output", "on entry"), MUST(du, "cost-output", "on entry");
    context()->count("user_calls");
    Cost::Gradient(x, u, dx, du);
  }
  void Hessian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> xx, Eigen::Ref<MatrixXd> xu, Eigen::Ref<MatrixXd> uu) override {
    MUST(x, "cost-argument", ""), MUST(u, "cost-argument", "");
    MUST(xx, "cost-output", "on entry"), MUST(xu, "cost-output", "on entry"), MUST(uu, "cost-output", "on entry");
    context()->count("user_calls");
    Cost::Hessian(x, u, xx, xu, uu);
  }
};
template <class Type>
struct SpyCon : Con<Type> {
  using Con<Type>::Con;
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> c) override {
    MUST(x, "constraint-argument", ""), MUST(u, "constraint-argument", "");
    context()->count("user_calls");
    Con<Type>::Evaluate(x, u, c);
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> jac) override {
    MUST(x, "constraint-argument", ""), MUST(u, "constraint-argument", "");
    MUST(jac, "constraint-output", "on entry");
    context()->count("user_calls");
    Con<Type>::Jacobian(x, u, jac);
  }
};
inline std::shared_ptr<altro::problem::Problem> spied(Setup& s) {
  auto p = std::make_shared<altro::problem::Problem>(s.N);
  for (int k = 0; k < s.N; ++k) p->SetDynamics(std::make_shared<SpyModel>(s.models[k]->data), k);
  for (int k = 0; k <= s.N; ++k) {
    p->SetCostFunction(std::make_shared<SpyCost>(s.costs[k]->data), k);
    for (auto& d : s.cons[k]) {
      if (d.eq) p->SetConstraint(std::make_shared<SpyCon<altro::constraints::Equality>>(d), k);
      else p->SetConstraint(std::make_shared<SpyCon<altro::constraints::Inequality>>(d), k);
    }
  }
  p->SetInitialState(s.x0);
  return p;
}

// ------------------------------------------------------------------ everything a user can read
inline void read_options(const SolverOptions& o, const std::string& w) {
  for (int v : {o.max_iterations_total, o.max_iterations_outer, o.max_iterations_inner, o.bp_reg_fail_threshold, o.line_search_max_iterations, o.header_frequency, o.nthreads, o.tasks_per_thread})
    MUST(v, "options", w);
  for (double v : {o.cost_tolerance, o.gradient_tolerance, o.bp_reg_increase_factor, o.bp_reg_initial, o.bp_reg_max, o.bp_reg_min, o.state_max, o.control_max, o.line_search_lower_bound,
                   o.line_search_upper_bound, o.line_search_decrease_factor, o.constraint_tolerance, o.maximum_penalty, o.initial_penalty})
    MUST(v, "options", w);
  for (bool v : {o.bp_reg_enable, o.check_forwardpass_bounds, o.reset_duals, o.profiler_enable, o.profiler_output_to_file}) MUST(v, "options", w);
  MUST(o.verbose, "options", w), MUST(o.log_directory, "options", w), MUST(o.profile_filename, "options", w), MUST(o.NumThreads(), "options", w);
}
inline void read_stats(SolverStats& s, const std::string& w) {
  MUST(s.initial_cost, "stats", w);
  MUST(s.iterations_inner, "stats", w), MUST(s.iterations_outer, "stats", w), MUST(s.iterations_total, "stats", w);
  for (auto* v : {&s.cost, &s.alpha, &s.improvement_ratio, &s.gradient, &s.cost_decrease, &s.regularization, &s.violations, &s.max_penalty}) MUST(*v, "stats", w);
  MUST(s.GetVerbosity(), "stats", w);
  MUST(s.GetTimer()->IsActive(), "stats", w);
  MUST(s.GetLogger().GetLevel(), "stats", w), MUST(s.GetLogger().NumEntries(), "stats", w);
  MUST(s.ProfileOutputFile(), "stats", w);
  read_options(s.GetOptions(), w);
}
template <class Z>
void read_trajectory(const Z& z, const std::string& w) {
  MUST(z.NumSegments(), "trajectory", w);
  for (int k = 0; k <= z.NumSegments(); ++k) {
    MUST(z.State(k), "trajectory", w), MUST(z.Control(k), "trajectory", w);
    MUST(z.GetTime(k), "trajectory", w), MUST(z.GetStep(k), "trajectory", w);
    MUST(z.StateDimension(k), "trajectory", w), MUST(z.ControlDimension(k), "trajectory", w);
    auto& p = z.GetKnotPoint(k);
    MUST(p.GetStateControl(), "trajectory", w), MUST(p.IsTerminal(), "trajectory", w), MUST(p.ToString(), "trajectory", w);
    MUST(p.GetTime(), "trajectory", w), MUST(p.GetStep(), "trajectory", w);
  }
}
template <class E>
void read_cost_expansion(E& e, const char* key, const std::string& w) {
  MUST(e.dx(), key, w), MUST(e.du(), key, w), MUST(e.dxdx(), key, w), MUST(e.dxdu(), key, w), MUST(e.dudu(), key, w);
}
template <class F>
void read_functions(F& f, const std::string& w) {
  read_cost_expansion(f.GetCostExpansion(), "cost-expansion", w);
  auto& d = f.GetDynamicsExpansion();
  MUST(d.GetA(), "dynamics-expansion", w), MUST(d.GetB(), "dynamics-expansion", w), MUST(d.GetJacobian(), "dynamics-expansion", w);
  read_cost_expansion(f.GetActionValueExpansion(), "action-value", w);
  read_cost_expansion(f.GetActionValueExpansionRegularized(), "action-value-regularized", w);
  MUST(f.GetCostToGoHessian(), "cost-to-go", w), MUST(f.GetCostToGoGradient(), "cost-to-go", w);
  MUST(f.GetCostToGoDelta(), "cost-to-go-delta", w), MUST(f.GetCostToGoDelta(0.25), "cost-to-go-delta", w);
  MUST(f.GetFeedbackGain(), "gains", w), MUST(f.GetFeedforwardGain(), "gains", w);
  std::array<double, 2> d2 = {1, 2};
  f.AddCostToGo(&d2);
  MUST(d2[0], "cost-to-go-delta", w), MUST(d2[1], "cost-to-go-delta", w);
}
template <class S>
void read_ilqr(S& s, const std::string& w) {
  MUST(s.NumSegments(), "solver", w), MUST(s.GetStatus(), "solver", w), MUST(s.GetRegularization(), "solver", w);
  MUST(s.GetCosts(), "solver", w);
  MUST(s.NumThreads(), "solver", w);
  if (s.GetInitialState()) MUST(*s.GetInitialState(), "solver", w);
  read_stats(s.GetStats(), w);
  if (s.GetTrajectory()) read_trajectory(*s.GetTrajectory(), w);
}
template <class V>
void read_constraint(V& v, const std::string& w) {
  MUST(v.GetDuals(), "constraint-values", w), MUST(v.GetPenalty(), "constraint-values", w), MUST(v.GetConstraintValue(), "constraint-values", w);
  MUST(v.GetPenaltyScaling(), "constraint-values", w), MUST(v.GetViolation(), "constraint-values", w);
  MUST(v.MaxPenalty(), "constraint-values", w), MUST(v.MaxViolation(), "constraint-values", w), MUST(v.template MaxViolation<1>(), "constraint-values", w);
  MUST(v.StateDimension(), "constraint-values", w), MUST(v.ControlDimension(), "constraint-values", w), MUST(v.OutputDimension(), "constraint-values", w);
  auto i = v.GetConstraintInfo();
  MUST(i.index, "constraint-report", w), MUST(i.violation, "constraint-report", w), MUST(i.label, "constraint-report", w), MUST(i.ToString(7), "constraint-report", w);
}
template <class A>
void read_al(A& a, const std::string& w) {
  MUST(a.GetStatus(), "solver", w), MUST(a.NumSegments(), "solver", w), MUST(a.NumConstraints(), "solver", w);
  MUST(a.GetMaxPenalty(), "solver", w), MUST(a.GetMaxViolation(), "solver", w), MUST(a.template GetMaxViolation<2>(), "solver", w);
  for (int k = 0; k <= a.NumSegments(); ++k) {
    auto c = a.GetALCost(k);
    MUST(c->NumConstraints(), "al-cost", w), MUST(c->MaxPenalty(), "al-cost", w), MUST(c->MaxViolation(), "al-cost", w);
    MUST(c->StateDimension(), "al-cost", w), MUST(c->ControlDimension(), "al-cost", w);
    for (auto& v : c->GetEqualityConstraints()) read_constraint(*v, w);
    for (auto& v : c->GetInequalityConstraints()) read_constraint(*v, w);
  }
  for (bool sorted : {false, true})
    for (auto& i : a.GetConstraintInfo(sorted)) MUST(i.index, "constraint-report", w), MUST(i.violation, "constraint-report", w), MUST(i.label, "constraint-report", w), MUST(i.ToString(), "constraint-report", w);
  context()->count("violations_printed");
  mon::capture([&] { a.PrintViolations(); a.PrintViolations(true, 9); });
}

template <int n_, int m_>
static void read_all(Rig<n_, m_>& g, const std::string& w, bool functions = true) {
  if (g.al) read_al(*g.as, w);
  read_ilqr(g.q(), w);
  if (functions)
    for (int k = 0; k <= g.q().NumSegments(); ++k) read_functions(g.q().GetKnotPointFunction(k), mon::sf("k=%d ", k) + w);
  context()->count("solver_reads");
}

// ------------------------------------------------------------------ solvers
template <int n_, int m_>
static void solvers(Rng& r, mon::Ctx& ctx, int n = 0, int m = 0) {
  GenOpt o;
  o.big = 0, o.nmax = 3, o.mmax = 2, o.Nmax = r.pick({1, 3, 5});
  o.nonlin = r.coin();
  o.cost = r.pick({kQuad, kSmooth, kNonconvex});
  bool al = r.coin(0.6);
  o.maxcon = al ? 2 : 0;
  Setup s = random_setup(r, o, n, m);
  s.prob = spied(s);
  Rig<n_, m_> g;
  g.s = s;
  g.al = al;
  std::string log = mon::sf("<%d,%d> al=%d ", n_, m_, al);
  if (r.coin(0.3)) {  // a solver that knows only the horizon
    if (al) {
      altro::augmented_lagrangian::AugmentedLagrangianiLQR<n_, m_>* p = new altro::augmented_lagrangian::AugmentedLagrangianiLQR<n_, m_>(s.N);
      MUST(p->GetStatus(), "solver", "empty");
      read_ilqr(p->GetiLQRSolver(), "empty");
      delete p;
    } else {
      g.il = std::make_unique<iLQR<n_, m_>>(s.N);
      read_ilqr(*g.il, "empty");
      MUST(g.il->GetTaskAssignment(), "solver", "empty");
      g.il->InitializeFromProblem(*s.prob);
    }
    ctx.count("empty_solvers");
  }
  if (al) g.as = std::make_unique<AugmentedLagrangianiLQR<n_, m_>>(*s.prob);
  else if (!g.il) g.il = std::make_unique<iLQR<n_, m_>>(*s.prob);
  read_all(g, "fresh " + log);
  auto move = [&] {
    if (al) {
      auto fresh = std::make_unique<AugmentedLagrangianiLQR<n_, m_>>(std::move(*g.as));
      g.as = std::move(fresh);
    } else {
      auto fresh = std::make_unique<iLQR<n_, m_>>(std::move(*g.il));
      g.il = std::move(fresh);
    }
    log += "MOVE ";
  };
  if (r.coin(0.3)) move(), read_all(g, "moved " + log);
  g.Z = s.template guess<n_, m_>();
  if (al) g.as->SetTrajectory(g.Z);
  else g.il->SetTrajectory(g.Z);
  SolverOptions& opt = g.q().GetOptions();
  if (r.coin(0.6)) vary_options(r, &opt);
  opt.max_iterations_inner = std::min(opt.max_iterations_inner, 6);
  opt.max_iterations_outer = std::min(opt.max_iterations_outer, 3);
  if (r.coin(0.15)) opt.nthreads = 2;
  opt.verbose = r.pick({LogLevel::kSilent, LogLevel::kOuter, LogLevel::kInner, LogLevel::kDebug});
  opt.profiler_enable = r.coin(0.2);
  opt.log_directory = ".";
  int steps = r.integer(1, 5);
  bool ran = false;
  for (int i = 0; i < steps; ++i) {
    int op = i == 0 ? r.integer(0, 7) : r.integer(0, 12);
    std::string out = mon::capture([&] {
      switch (op) {
        case 0: case 1: case 2: case 8: case 9: log += "solve "; ran = true; al ? g.as->Solve() : g.il->Solve(); ctx.count("solves"); break;
        case 3: log += "cost "; MUST(g.q().Cost(), "solver", log); break;
        case 4: log += "rollout "; g.q().Rollout(); break;
        case 5: log += "setup-expand "; g.q().SolveSetup(); g.q().UpdateExpansions(); break;
        case 6: log += "setup "; g.q().SolveSetup(); MUST(g.q().GetTaskAssignment(), "solver", log); MUST(g.q().NumTasks(), "solver", log); break;
        case 7: log += "max-violation "; if (al) MUST(g.as->MaxViolation(), "solver", log), g.as->UpdateDuals(), g.as->UpdatePenalties(); break;
        case 10: {
          log += "passes ";
          g.q().SolveSetup();
          g.q().Cost();
          g.q().UpdateExpansions();
          g.q().BackwardPass();
          if (g.q().GetStatus() != altro::SolverStatus::kBackwardPassRegularizationFailed) g.q().ForwardPass();
          break;
        }
        case 11: log += "penalty "; if (al) g.as->SetPenalty(3), g.as->SetPenaltyScaling(4); break;
        case 12: log += "reset "; g.q().GetStats().Reset(); break;
      }
    });
    ctx.count("printed_bytes", out.size());
    if (r.coin(0.2)) move();
    read_all(g, "after: " + log);
  }
  ctx.count(al ? "al_solvers" : "ilqr_solvers");
  if (g.q().GetOptions().nthreads > 1 && ran) ctx.count("threaded");
  ctx.distinct(traj_hash(*g.Z));
  if (ctx.want_sample()) ctx.sample(log + s.describe());
}

// ------------------------------------------------------------------ containers
template <int n_, int m_>
static void containers(Rng& r, mon::Ctx& ctx, int n = 0, int m = 0) {
  if (!n) n = r.integer(1, 4);
  if (!m) m = r.integer(1, 3);
  int N = r.integer(0, 5);
  std::string w = mon::sf("<%d,%d> N=%d ", n_, m_, N);
  using Traj = altro::Trajectory<n_, m_>;
  auto z = std::make_unique<Traj>(n, m, N);
  read_trajectory(*z, "fresh " + w);
  if (r.coin()) z->SetUniformStep(static_cast<float>(r.uni(0.01, 1)));
  read_trajectory(*z, "uniform " + w);
  MUST(z->CheckTimeConsistency(), "trajectory", w);
  auto y = std::make_unique<Traj>(*z);
  read_trajectory(*y, "copied " + w);
  auto q = std::make_unique<Traj>(std::move(*y));
  y.reset();
  read_trajectory(*q, "moved " + w);
  q->SetZero();
  read_trajectory(*q, "zeroed " + w);
  using altro::VectorN;
  std::vector<VectorN<n_>> X;
  std::vector<VectorN<m_>> U;
  std::vector<float> t;
  for (int k = 0; k <= N; ++k) X.push_back(rvec(r, n)), t.push_back(0.1F * k);
  for (int k = 0; k < N; ++k) U.push_back(rvec(r, m));
  if (N > 0 || m_ > 0) {
    auto p = std::make_unique<Traj>(X, U, t);
    read_trajectory(*p, "from vectors " + w);
  }
  using KP = altro::KnotPoint<n_, m_>;
  for (int i = 0; i < 4; ++i) {
    std::unique_ptr<KP> k;
    if (i == 0) k = std::make_unique<KP>(n, m);
    else if (i == 1) k = std::make_unique<KP>(X[0], VectorN<m_>(rvec(r, m)));
    else if (i == 2) k = std::make_unique<KP>(KP::Random(n, m));
    else k = std::make_unique<KP>(altro::KnotPoint<Eigen::Dynamic, Eigen::Dynamic>(n, m));
    MUST(k->State(), "knotpoint", w), MUST(k->Control(), "knotpoint", w), MUST(k->GetTime(), "knotpoint", w), MUST(k->GetStep(), "knotpoint", w), MUST(k->IsTerminal(), "knotpoint", w);
    MUST(k->ToString(), "knotpoint", w), MUST(k->StateDimension(), "knotpoint", w), MUST(k->ControlDimension(), "knotpoint", w), MUST(k->GetStateControl(), "knotpoint", w);
    k->SetTerminal();
    MUST(k->GetStateControl(), "knotpoint", w);
  }
  auto ce = std::make_unique<altro::ilqr::CostExpansion<n_, m_>>(n, m);
  read_cost_expansion(*ce, "cost-expansion", "fresh " + w);
  MUST(ce->StateDimension(), "cost-expansion", w), MUST(ce->ControlDimension(), "cost-expansion", w);
  auto ce2 = std::make_unique<altro::ilqr::CostExpansion<n_, m_>>(*ce);
  read_cost_expansion(*ce2, "cost-expansion", "copied " + w);
  auto de = std::make_unique<altro::ilqr::DynamicsExpansion<n_, m_>>(n, m);
  MUST(de->GetA(), "dynamics-expansion", w), MUST(de->GetB(), "dynamics-expansion", w), MUST(de->GetJacobian(), "dynamics-expansion", w);
  auto cost = std::make_shared<SpyCost>(random_cost(r, n, m, kSmooth, false));
  auto model = std::make_shared<SpyModel>(random_model(r, n, m, true, true));
  std::unique_ptr<altro::ilqr::KnotPointFunctions<n_, m_>> f;
  if (r.coin()) f = std::make_unique<altro::ilqr::KnotPointFunctions<n_, m_>>(model, cost);
  else f = std::make_unique<altro::ilqr::KnotPointFunctions<n_, m_>>(n, m, cost);
  read_functions(*f, "fresh " + w);
  VectorXd x = rvec(r, n), u = rvec(r, m);
  f->CalcCostExpansion(x, u);
  f->CalcDynamicsExpansion(x, u, 0.5F, 0.1F);
  read_functions(*f, "expanded " + w);
  f->CalcTerminalCostToGo();
  read_functions(*f, "terminal " + w);
  f->CalcActionValueExpansion(MatrixXd(rspd(r, n)), MatrixXd(rvec(r, n)));
  f->RegularizeActionValue(1e-3);
  if (f->CalcGains() == Eigen::Success) f->CalcCostToGo();
  read_functions(*f, "passed " + w);
  // constraint values that were never evaluated, and ones that were
  ConData d;
  d.n = n, d.m = m, d.p = r.integer(1, 3), d.eq = r.coin();
  d.A = rmat(r, d.p, n), d.B = rmat(r, d.p, m), d.e = rvec(r, d.p);
  d.label = "c";
  auto val = [&](auto* type) {
    using Type = std::remove_pointer_t<decltype(type)>;
    altro::constraints::ConstraintPtr<Type> con = std::make_shared<SpyCon<Type>>(d);
    auto v = std::make_unique<altro::constraints::ConstraintValues<n_, m_, Type>>(n, m, con);
    read_constraint(*v, "fresh " + w);
    VectorXd dx = VectorXd::Zero(n), du = VectorXd::Zero(m);
    MatrixXd xx = MatrixXd::Zero(n, n), xu = MatrixXd::Zero(n, m), uu = MatrixXd::Zero(m, m);
    if (r.coin()) v->UpdateDuals();
    MUST(v->AugLag(x, u), "al-terms", w);
    v->AugLagGradient(x, u, dx, du);
    v->AugLagHessian(x, u, xx, xu, uu, false);
    MUST(dx, "al-terms", w), MUST(du, "al-terms", w), MUST(xx, "al-terms", w), MUST(xu, "al-terms", w), MUST(uu, "al-terms", w);
    v->UpdateDuals();
    v->UpdatePenalties();
    v->CalcExpansion(x, u);
    read_constraint(*v, "used " + w);
  };
  if (d.eq) val(static_cast<altro::constraints::Equality*>(nullptr));
  else val(static_cast<altro::constraints::Inequality*>(nullptr));
  ctx.count("containers");
}

// ------------------------------------------------------------------ discretised models
template <int n_, int m_>
class SpyField : public altro::problem::ContinuousDynamics {
 public:
  using ContinuousDynamics::Evaluate;
  using ContinuousDynamics::Hessian;
  using ContinuousDynamics::Jacobian;
  static constexpr int NStates = n_;
  static constexpr int NControls = m_;
  explicit SpyField(const ModelData& d) : data(d) {}
  int StateDimension() const override { return data.n; }
  int ControlDimension() const override { return data.m; }
  bool HasHessian() const override { return false; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, float t, Eigen::Ref<VectorXd> xdot) override {
    MUST(x, "field-argument", ""), MUST(u, "field-argument", ""), MUST(t, "field-argument", "");
    VectorXd o;
    data.f(x, u, t, 1.0, &o);
    xdot = o - x;
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, float t, Eigen::Ref<MatrixXd> jac) override {
    MUST(x, "field-argument", ""), MUST(u, "field-argument", ""), MUST(t, "field-argument", ""), MUST(jac, "field-output", "on entry");
    MatrixXd o;
    data.jac(x, u, t, 1.0, &o);
    for (int i = 0; i < o.rows(); ++i)
      for (int j = 0; j < o.cols(); ++j) {
        double v = o(i, j) - (i == j);
        if (v != 0) jac(i, j) = v;
      }
  }
  void Hessian(const VectorXdRef&, const VectorXdRef&, float, const VectorXdRef&, Eigen::Ref<MatrixXd>) override {}
  ModelData data;
};
template <int n_, int m_, class Integrator>
static void discretised(Rng& r, mon::Ctx& ctx, int n, int m) {
  using D = altro::problem::DiscretizedModel<SpyField<n_, m_>, Integrator>;
  ModelData md = random_model(r, n, m, r.coin(), true);
  auto d = std::make_unique<D>(SpyField<n_, m_>(md));
  for (int i = 0; i < 3; ++i) {
    VectorXd x = rvec(r, n), u = rvec(r, m), xn(n);
    MatrixXd J = MatrixXd::Zero(n, n + m);
    auto order = r.integer(0, 2);
    float t = static_cast<float>(r.uni(0, 5)), h = static_cast<float>(r.uni(0.01, 0.3));
    if (order == 0) d->Jacobian(x, u, t, h, J), MUST(J, "discrete-jacobian", "");
    d->Evaluate(x, u, t, h, xn);
    MUST(xn, "discrete-step", "");
    altro::KnotPoint<n_, m_> z(n, m);
    z.State() = x, z.Control() = u, z.SetTime(t), z.SetStep(h);
    VectorXd e = d->Evaluate(x, u, t, h);
    MUST(e, "discrete-step", "");
    if (order) d->Jacobian(x, u, t, h, J), MUST(J, "discrete-jacobian", "");
    MatrixXd K = MatrixXd::Zero(n, n + m);
    d->Jacobian(z.State(), z.Control(), t, h, K);
    MUST(K, "discrete-jacobian", "");
  }
  if (r.coin()) {
    auto copy = std::make_unique<D>(*d);
    d.reset();
    VectorXd x = rvec(r, n), u = rvec(r, m), xn(n);
    copy->Evaluate(x, u, 0.F, 0.1F, xn);
    MUST(xn, "discrete-step", "copied");
  }
  ctx.count("discretised");
}
template <int n_, int m_>
static void integrators(Rng& r, mon::Ctx& ctx, int n = 0, int m = 0) {
  if (!n) n = r.integer(1, 4);
  if (!m) m = r.integer(1, 3);
  if (r.coin()) discretised<n_, m_, altro::problem::RungeKutta4<n_, m_>>(r, ctx, n, m);
  else discretised<n_, m_, altro::problem::ExplicitEuler>(r, ctx, n, m);
}

#ifdef STATIC_UNIT
void static_case(Rng& r, mon::Ctx& ctx, int kind) {
  if (kind == 0) return solvers<2, 1>(r, ctx, 2, 1);
  if (kind == 1) return r.coin() ? containers<3, 2>(r, ctx, 3, 2) : containers<2, 1>(r, ctx, 2, 1);
  if (kind == 2) return integrators<3, 2>(r, ctx, 3, 2);
}
#else
void static_case(Rng& r, mon::Ctx& ctx, int kind);

static void statistics(Rng& r, mon::Ctx& ctx) {
  auto s = std::make_unique<SolverStats>();
  read_stats(*s, "fresh");
  auto o = std::make_unique<SolverOptions>();
  read_options(*o, "fresh");
  s->SetVerbosity(r.pick({LogLevel::kSilent, LogLevel::kOuter, LogLevel::kInner, LogLevel::kDebug}));
  if (r.coin()) s->SetCapacity(r.integer(0, 20));
  if (r.coin()) s->SetTolerances(1e-3, 1e-4, 1e-5);
  std::string out = mon::capture([&] {
    int n = r.integer(0, 8);
    for (int i = 0; i < n; ++i) {
      for (const char* title : {"cost", "viol", "alpha", "ineq", "grad", "reg", "z", "pen", "dJ"})
        if (r.coin(0.6)) s->Log(title, r.gauss());
      for (const char* title : {"iters", "iter_al"})
        if (r.coin(0.6)) s->Log(title, r.integer(0, 100));
      if (r.coin(0.7)) s->NewIteration();
      if (r.coin(0.6)) s->PrintLast();
      if (r.coin(0.1)) s->Reset();
      read_stats(*s, "used");
    }
    s->GetLogger().PrintHeader();
  });
  ctx.count("printed_bytes", out.size());
  auto c = std::make_unique<SolverStats>(*s);
  read_stats(*c, "copied");
  auto m = std::make_unique<SolverStats>(std::move(*s));
  s.reset();
  read_stats(*m, "moved");
  // logger entries
  auto l = std::make_unique<altro::SolverLogger>();
  MUST(l->GetLevel(), "logger", "fresh"), MUST(l->NumEntries(), "logger", "fresh");
  l->AddEntry(0, "a", "{:>8.3g}").SetWidth(9).SetLevel(LogLevel::kOuter);
  l->AddEntry(-1, "b", "{:>4d}", altro::LogEntry::kInt).SetLevel(LogLevel::kInner);
  l->SetLevel(LogLevel::kDebug);
  std::string txt = mon::capture([&] {
    l->PrintHeader();
    l->PrintData();
    l->Log("a", 3.5);
    l->Print();
    l->Log("b", 7);
    l->Print();
    l->Clear();
    l->Print();
  });
  MUST(txt, "logger", "printed");
  for (auto e : {"a", "b"}) {
    auto& en = l->GetEntry(e);
    MUST(en.GetTitle(), "logger", e), MUST(en.GetLevel(), "logger", e), MUST(en.GetWidth(), "logger", e), MUST(en.IsActive(LogLevel::kOuter), "logger", e);
  }
  ctx.count("statistics");
}

static void timers(Rng& r, mon::Ctx& ctx) {
  altro::TimerPtr t = altro::Timer::MakeShared();
  MUST(t->IsActive(), "timer", "fresh");
  if (r.coin(0.8)) t->Activate();
  std::string out = mon::capture([&] {
    int n = r.integer(0, 4);
    for (int i = 0; i < n; ++i) {
      altro::Stopwatch a = t->Start("outer");
      altro::Stopwatch b = t->Start(r.coin() ? "inner" : "other");
      if (r.coin()) altro::Stopwatch c = t->Start("leaf");
    }
    t->PrintSummary();
    std::map<std::string, std::chrono::microseconds> times = {{"a", std::chrono::microseconds(10)}, {"a/b", std::chrono::microseconds(5)}, {"a/b/c", std::chrono::microseconds(2)}};
    t->PrintSummary(&times);
  });
  ctx.count("printed_bytes", out.size());
  altro::utils::BenchmarkResults<std::chrono::microseconds> res = altro::utils::Benchmark<std::chrono::microseconds>([] {}, r.integer(1, 20));
  MUST(res.mean.count(), "benchmark", ""), MUST(res.median.count(), "benchmark", ""), MUST(res.std.count(), "benchmark", ""), MUST(res.max.count(), "benchmark", ""), MUST(res.min.count(), "benchmark", "");
  MUST(res.samples, "benchmark", "");
  mon::capture([&] { res.Print(); });
  ctx.count("timers");
}

static void functions(Rng& r, mon::Ctx& ctx) {
  int n = r.integer(1, 4), m = r.integer(1, 3);
  VectorXd x = rvec(r, n), u = rvec(r, m);
  std::string out = mon::capture([&] {
    bool v = r.coin();
    SpyModel f(random_model(r, n, m, true, true));
    MUST(f.CheckJacobian(1e-4, v), "derivative-check", "");
    MUST(f.CheckJacobian(x, u, 1e-4, v), "derivative-check", "");
    SpyCost c(random_cost(r, n, m, kSmooth, false));
    MUST(c.CheckGradient(1e-4, v), "derivative-check", "");
    MUST(c.CheckGradient(x, u, 1e-4, v), "derivative-check", "");
    MUST(c.CheckHessian(1e-3, v), "derivative-check", "");
    MUST(c.CheckHessian(x, u, VectorXd::Ones(1), 1e-3, v), "derivative-check", "");
    ConData d;
    d.n = n, d.m = m, d.p = r.integer(1, 3), d.g = 0.3;
    d.A = rmat(r, d.p, n), d.B = rmat(r, d.p, m), d.e = rvec(r, d.p);
    SpyCon<altro::constraints::Inequality> k(d);
    MUST(k.CheckJacobian(1e-4, v), "derivative-check", "");
    MUST(k.CheckJacobian(x, u, 1e-4, v), "derivative-check", "");
  });
  ctx.count("printed_bytes", out.size());
  ctx.count("functions");
}

static void bundled(Rng& r, mon::Ctx& ctx) {
  namespace ex = altro::examples;
  int kind = r.integer(0, 2);
  if (kind == 0) {
    auto p = std::make_unique<altro::problems::UnicycleProblem>();
    if (r.coin()) p->SetScenario(altro::problems::UnicycleProblem::kThreeObstacles);
    p->N = r.integer(3, 8);
    MUST(p->v_bnd, "unicycle", ""), MUST(p->w_bnd, "unicycle", ""), MUST(p->GetTimeStep(), "unicycle", ""), MUST(p->cx, "unicycle", ""), MUST(p->cy, "unicycle", ""), MUST(p->cr, "unicycle", "");
    MUST(p->lb, "unicycle", ""), MUST(p->ub, "unicycle", ""), MUST(p->Q, "unicycle", ""), MUST(p->R, "unicycle", ""), MUST(p->Qf, "unicycle", ""), MUST(p->xf, "unicycle", ""), MUST(p->x0, "unicycle", "");
    MUST(p->u0, "unicycle", ""), MUST(p->uref, "unicycle", "");
    if (r.coin()) {
      Rig<3, 2> g;
      g.al = true;
      g.as = std::make_unique<AugmentedLagrangianiLQR<3, 2>>(p->MakeALSolver());
      g.as->GetOptions().max_iterations_outer = 2, g.as->GetOptions().max_iterations_inner = 4;
      g.as->GetOptions().verbose = LogLevel::kDebug;
      read_all(g, "unicycle");
      mon::capture([&] { g.as->Solve(); });
      read_all(g, "unicycle solved");
    } else {
      Rig<3, 2> g;
      g.il = std::make_unique<iLQR<3, 2>>(p->MakeSolver(r.coin()));
      g.il->GetOptions().max_iterations_inner = 4;
      read_all(g, "unicycle");
      mon::capture([&] { g.il->Solve(); });
      read_all(g, "unicycle solved");
    }
    if (p->qcost) MUST(p->qcost->GetConstant(), "unicycle", ""), MUST(p->qcost->Getq(), "unicycle", ""), MUST(p->qcost->Getr(), "unicycle", "");
  } else if (kind == 1) {
    auto p = std::make_unique<altro::problems::TripleIntegratorProblem<2>>();
    p->N = r.integer(2, 6);
    MUST(p->N, "triple", ""), MUST(p->h, "triple", ""), MUST(p->Q, "triple", ""), MUST(p->R, "triple", ""), MUST(p->Qf, "triple", ""), MUST(p->xf, "triple", ""), MUST(p->x0, "triple", ""), MUST(p->ubnd, "triple", "");
    altro::problem::Problem prob = p->MakeProblem(r.coin());
    for (int k = 0; k <= p->N; ++k) {
      auto c = std::dynamic_pointer_cast<ex::QuadraticCost>(prob.GetCostFunction(k));
      if (!c) continue;
      MUST(c->GetQ(), "triple", ""), MUST(c->GetR(), "triple", ""), MUST(c->GetH(), "triple", ""), MUST(c->Getq(), "triple", "");
      MUST(c->Getr(), "triple-integrator-uref", "reference control"), MUST(c->GetConstant(), "triple-integrator-uref", "constant");
      VectorXd zero = VectorXd::Zero(2);
      bool term = k == p->N;
      prob.SetCostFunction(std::make_shared<ex::QuadraticCost>(ex::QuadraticCost::LQRCost(term ? p->Qf : p->Q, term ? MatrixXd(p->R * 0) : p->R, p->xf, zero, term)), k);
    }
    Rig<6, 2> g;
    g.al = true;
    g.as = std::make_unique<AugmentedLagrangianiLQR<6, 2>>(prob);
    auto Z = std::make_shared<altro::Trajectory<6, 2>>(p->InitialTrajectory());
    read_trajectory(*Z, "triple");
    g.as->SetTrajectory(Z);
    g.as->GetOptions().max_iterations_outer = 2, g.as->GetOptions().max_iterations_inner = 4;
    read_all(g, "triple");
    g.as->Solve();
    read_all(g, "triple solved");
  } else {
    int n = r.integer(3, 5), m = r.integer(2, 3);
    VectorXd x = rvec(r, n), u = rvec(r, m);
    auto vec = [&](int k, double lo, double hi) { std::vector<double> v; for (int i = 0; i < k; ++i) v.push_back(r.uni(lo, hi)); return v; };
    auto look = [&](auto& c, const char* key) {
      int p = c.OutputDimension();
      VectorXd v = VectorXd::Zero(p);
      MatrixXd J = MatrixXd::Zero(p, n + m);
      c.Evaluate(x, u, v);
      c.Jacobian(x, u, J);
      must(p, key, "size"), must(v, key, "value"), must(J, key, "Jacobian"), must(c.GetLabel(), key, "label");
    };
    ex::GoalConstraint goal(rvec(r, n));
    look(goal, "goal");
    ex::ControlBound b1(m);
    b1.SetUpperBound(vec(m, 0, 2));
    look(b1, "control-bound");
    b1.SetLowerBound(vec(m, -2, 0));
    look(b1, "control-bound");
    ex::ControlBound b2(vec(m, -2, 0), vec(m, 0, 2));
    look(b2, "control-bound");
    ex::CircleConstraint circ;
    for (int i = 0; i < 3; ++i) circ.AddObstacle(r.uni(-1, 1), r.uni(-1, 1), r.uni(0.1, 1));
    look(circ, "circle");
    ex::QuadraticCost qc = ex::QuadraticCost::LQRCost(rspd(r, n), rspd(r, m), x, u);
    MUST(qc.Evaluate(x, u), "quadratic-cost", "");
  }
  ctx.count("bundled");
}

static void one_case(Rng& r, mon::Ctx& ctx) {
  context() = &ctx;
  switch (r.integer(0, 11)) {
    case 0: case 1: case 2: solvers<Eigen::Dynamic, Eigen::Dynamic>(r, ctx); break;
    case 3: case 4: static_case(r, ctx, 0); break;
    case 5: containers<Eigen::Dynamic, Eigen::Dynamic>(r, ctx); break;
    case 6: static_case(r, ctx, 1); break;
    case 7: r.coin() ? integrators<Eigen::Dynamic, Eigen::Dynamic>(r, ctx) : static_case(r, ctx, 2); break;
    case 8: statistics(r, ctx); break;
    case 9: timers(r, ctx); break;
    case 10: functions(r, ctx); break;
    case 11: bundled(r, ctx); break;
  }
}
MON_MAIN(one_case)
#endif
