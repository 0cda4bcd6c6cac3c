// C06: reported success means true feasibility; every reported violation is the true one at that moment.
#include "solve.hpp"
using namespace gen;
using altro::augmented_lagrangian::AugmentedLagrangianiLQR;
using namespace altro::constraints;

// Constraints that return non-finite values (or change) in a region of the state space.
struct Poison {
  double value = 0, at = 1e300;
  int row = 0;
};
inline Poison& poison() {  // one per program, both units use it
  static Poison p;
  return p;
}
#define poison_value poison().value
#define poison_at poison().at
#define poison_row poison().row
template <class Type>
class PCon : public Con<Type> {
 public:
  using Con<Type>::Con;
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> c) override {
    Con<Type>::Evaluate(x, u, c);
    if (x(0) > poison_at || u(0) > poison_at) c(poison_row % c.size()) = poison_value;
  }
};
inline VectorXd true_value(const ConData& d, const VectorXd& x, const VectorXd& u) {
  VectorXd c = d.val(x, u);
  if (x(0) > poison_at || u(0) > poison_at) c(poison_row % c.size()) = poison_value;
  if (!d.eq)
    for (int i = 0; i < d.p; ++i)
      if (c(i) <= 0) c(i) = 0;
  return c;
}

template <int n_, int m_>
static void one(Rng& r, mon::Ctx& ctx, int n = 0, int m = 0) {
  using AL = AugmentedLagrangianiLQR<n_, m_>;
  GenOpt o;
  o.nonlin = r.coin();
  o.cost = r.pick({kQuad, kSmooth, kNonconvex});
  o.Nmax = 12;
  o.maxcon = r.integer(1, 3);
  o.affine_only = r.coin();
  o.feasible = r.coin(0.75);
  o.tight = r.pick({0.0, 0.3, 2.0});
  Setup s = random_setup(r, o, n, m);
  if (r.coin(0.3)) {  // badly scaled constraints and guesses far from the constraints
    for (auto& v : s.cons)
      for (auto& d : v)
        if (r.coin()) {
          double f = std::pow(10, r.uni(-1.5, 2.5));
          d.A *= f, d.B *= f, d.e *= f, d.g *= f;
        }
    if (r.coin())
      for (auto& u : s.U) u *= 20;
    ctx.count("badly_scaled");
  }
  poison_at = 1e300;
  bool poisoned = r.coin(0.2);
  if (poisoned) {
    poison_at = r.uni(-0.5, 1.5);
    poison_value = r.pick<double>({NAN, INFINITY, 1e155, -INFINITY});
    poison_row = r.integer(0, 3);
    ctx.count("poisoned_problems");
  }
  s.prob = std::make_shared<altro::problem::Problem>(s.N);
  for (int k = 0; k < s.N; ++k) s.prob->SetDynamics(s.models[k], k);
  for (int k = 0; k <= s.N; ++k) s.prob->SetCostFunction(s.costs[k], k);
  for (int k = 0; k <= s.N; ++k)
    for (auto& d : s.cons[k]) {
      if (d.eq) s.prob->SetConstraint(std::make_shared<PCon<Equality>>(d), k);
      else s.prob->SetConstraint(std::make_shared<PCon<Inequality>>(d), k);
    }
  s.prob->SetInitialState(s.x0);
  auto truth = [&](const altro::Trajectory<n_, m_>& Z) {
    double v = 0;
    for (int k = 0; k <= s.N; ++k)
      for (auto& d : s.cons[k]) {
        VectorXd w = true_value(d, Z.State(k), Z.Control(k));
        for (int i = 0; i < w.size(); ++i) {
          if (std::isnan(w(i))) return static_cast<double>(NAN);
          v = std::max(v, std::abs(w(i)));
        }
      }
    return v;
  };
  auto agrees = [&](double rep, double tru) {
    if (std::isnan(tru)) return !(rep < 1e300);  // undefined: anything that cannot pass for feasible
    return gen::close(rep, tru, 1e-9, 1e-12);
  };
  altro::SolverOptions opt;
  vary_options(r, &opt);
  opt.max_iterations_inner = std::min(opt.max_iterations_inner, 60);
  opt.constraint_tolerance = r.pick({1e-4, 1e-6, 1e-2, 0.3});
  if (r.coin(0.15)) opt.state_max = r.uni(0.5, 3);
  if (r.coin(0.15)) opt.control_max = r.uni(0.2, 2);
  if (r.coin(0.3)) opt.nthreads = r.integer(2, 4);
  if (r.coin(0.1)) opt.line_search_max_iterations = 1;

  // Two solvers with the same history: one observed at every iteration, one with its own callback left alone.
  AL watched(*s.prob), plain(*s.prob);
  auto Zw = s.guess<n_, m_>(), Zp = s.guess<n_, m_>();
  watched.SetTrajectory(Zw);
  plain.SetTrajectory(Zp);
  int rounds = r.integer(1, 3);
  for (int round = 0; round < rounds; ++round) {
    if (round) {
      int what = r.integer(0, 3);
      if (what == 0) opt.constraint_tolerance *= r.pick({0.1, 10.0});
      if (what == 1) opt.reset_duals = !opt.reset_duals;
      if (what == 2) opt.initial_penalty = r.pick({0.0, 1.0, 100.0});
      if (what == 3) {
        for (int k = 0; k < s.N; ++k) Zw->Control(k) = Zp->Control(k) = rvec(r, s.m, 1.0);
      }
    }
    watched.GetOptions() = plain.GetOptions() = opt;
    auto& st = watched.GetStats();
    std::vector<double> seen;
    watched.GetiLQRSolver().SetConstraintCallback([&]() {
      double rep = watched.GetMaxViolation(), t = truth(*Zw);
      seen.push_back(rep);
      ctx.count("iterations_watched");
      if (std::isnan(t)) ctx.count("iterations_undefined");
      ctx.check(agrees(rep, t), "iteration-violation", [&] {
        return mon::sf("iteration %d: reported violation %.9g, the constraints of the current trajectory are violated by %.9g; %s", st.iterations_total,
                       rep, t, s.describe().c_str());
      });
      return rep;
    });
    auto examine = [&](AL& al, const altro::Trajectory<n_, m_>& Z, const char* who) {
      auto status = al.GetStatus();
      double t = truth(Z), logged = al.GetStats().violations.back(), rep = al.GetMaxViolation();
      if (status == SolverStatus::kSolved) {
        ctx.check(t < opt.constraint_tolerance * (1 + 1e-9), "solved-infeasible", [&] {
          return mon::sf("%s: success reported with tolerance %.3g, but the returned trajectory violates a constraint by %.9g; %s", who,
                         opt.constraint_tolerance, t, s.describe().c_str());
        });
        ctx.check(Z.State(0).allFinite() && std::isfinite(s.cost(Z)), "solved-nonfinite", "success reported for a non-finite trajectory");
      }
      if (opt.max_iterations_outer > 0) {
        ctx.check(agrees(logged, t), "final-log", [&] { return mon::sf("%s: logged violation %.9g, true %.9g (%s)", who, logged, t, status_name(status)); });
        ctx.check(agrees(rep, t), "final-report", [&] { return mon::sf("%s: reported violation %.9g, true %.9g (%s)", who, rep, t, status_name(status)); });
        double again = al.MaxViolation();
        ctx.check(agrees(again, t), "final-recomputed", [&] { return mon::sf("%s: recomputed violation %.9g, true %.9g", who, again, t); });
      }
      return status;
    };
    watched.Solve();
    plain.Solve();
    auto sw = examine(watched, *Zw, "observed solver");
    auto sp = examine(plain, *Zp, "solver");
    ctx.count(std::string("status_") + status_name(sp));
    if (poisoned && sp == SolverStatus::kSolved) ctx.count("poisoned_solved");
    ctx.check(sw == sp && Snapshot::of(*Zw).same(Snapshot::of(*Zp)), "observer-effect", "two identical solvers disagree");
    // one logged violation per iteration, the true one of its trajectory, except that the last iteration of the
    // solve may have been logged again by the outer loop
    auto& h = plain.GetStats().violations;
    ctx.check(h.size() == seen.size() + 1, "history-length", [&] { return mon::sf("%zu logged violations for %zu iterations", h.size(), seen.size()); });
    for (size_t i = 0; i < seen.size() && i < h.size(); ++i)
      ctx.check(h[i] == seen[i] || (std::isnan(h[i]) && std::isnan(seen[i])), "history", [&] {
        return mon::sf("logged violation %.9g of iteration %zu, it was %.9g; %s", h[i], i, seen[i], s.describe().c_str());
      });
    ctx.distinct(traj_hash(*Zp));
    if (ctx.want_sample())
      ctx.sample(mon::sf("%s: %s after %d outer/%d total iterations, true violation %.3g (tolerance %.1g)", s.describe().c_str(), status_name(sp),
                         plain.GetStats().iterations_outer, plain.GetStats().iterations_total, truth(*Zp), opt.constraint_tolerance));
  }
}
#ifdef STATIC_UNIT
void static_case(Rng& r, mon::Ctx& ctx) { one<3, 2>(r, ctx, 3, 2); }
#else
void static_case(Rng& r, mon::Ctx& ctx);
static void run(Rng& r, mon::Ctx& ctx) {
  if (r.coin(0.15)) return static_case(r, ctx);
  one<-1, -1>(r, ctx);
}
MON_MAIN(run)
#endif
