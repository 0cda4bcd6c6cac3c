// C07: a successful solve of a convex constrained problem returns a minimiser, and multipliers that certify it.
// Certificate: for L(U) = J(U) - sum lambda'c(U) over controls (states eliminated through the affine dynamics), weak
// duality gives J* >= L(U) - g'inv(H)g/2 for any multipliers of the right sign. The gap must vanish.
#include "solve.hpp"
using namespace gen;
using altro::augmented_lagrangian::AugmentedLagrangianiLQR;

// X as an affine function of stacked controls: x_k = S_k U + w_k
struct Affine {
  std::vector<MatrixXd> S;
  std::vector<VectorXd> w;
};
inline Affine eliminate(const Setup& s) {
  Affine a;
  int nu = s.N * s.m;
  a.S.push_back(MatrixXd::Zero(s.n, nu));
  a.w.push_back(s.x0);
  for (int k = 0; k < s.N; ++k) {
    MatrixXd J;
    VectorXd z = VectorXd::Zero(s.n), u0 = VectorXd::Zero(s.m), c;
    s.models[k]->data.jac(z, u0, s.times[k], s.steps[k], &J);
    s.models[k]->data.f(z, u0, s.times[k], s.steps[k], &c);
    MatrixXd A = J.leftCols(s.n), B = J.rightCols(s.m);
    MatrixXd S = A * a.S[k];
    S.middleCols(k * s.m, s.m) += B;
    a.S.push_back(S);
    a.w.push_back(A * a.w[k] + c);
  }
  return a;
}

template <int n_, int m_>
static void kkt(Rng& r, mon::Ctx& ctx, int n = 0, int m = 0) {
  GenOpt o;
  o.cost = kQuad;
  o.Nmax = r.pick({4, 8, 15});
  o.maxcon = r.integer(1, 3);
  o.tight = r.pick({0.15, 0.5, 2.0});
  o.eq_prob = r.pick({0.0, 0.2, 0.5});
  Setup s = random_setup(r, o, n, m);
  if (r.coin(0.4)) {  // only some knot points are constrained
    for (int k = 0; k <= s.N; ++k)
      if (r.coin()) s.cons[k].clear();
  }
  for (auto& v : s.cons)  // strictly feasible: inequalities keep a margin at the reference trajectory
    for (auto& d : v)
      if (!d.eq) d.e.array() += 0.05;
  if (r.coin(0.3)) {  // box constraints on the controls as one constraint
    for (int k = 0; k < s.N; ++k) {
      bool has_eq = false;
      for (auto& d : s.cons[k]) has_eq = has_eq || d.eq;
      if (has_eq) continue;
      ConData d;
      d.n = s.n, d.m = s.m, d.p = 2 * s.m;
      d.A = MatrixXd::Zero(d.p, s.n);
      d.B = MatrixXd::Zero(d.p, s.m);
      d.B.topRows(s.m).setIdentity();
      d.B.bottomRows(s.m) = -MatrixXd::Identity(s.m, s.m);
      d.e = VectorXd::Constant(d.p, 2.0);  // the reference controls are below 0.7
      d.label = "box";
      s.cons[k].push_back(d);
    }
  }
  if (r.coin(0.3)) {  // badly scaled rows: the multipliers are correspondingly larger or smaller
    for (auto& v : s.cons)
      for (auto& d : v)
        if (r.coin()) {
          double f = std::pow(10, r.uni(-3, 1));
          d.A *= f, d.B *= f, d.e *= f;
        }
    ctx.count("badly_scaled");
  }
  s.build();
  bool lazy = r.coin(0.2);  // the default tolerances
  AugmentedLagrangianiLQR<n_, m_> al(*s.prob);
  auto& opt = al.GetOptions();
  if (!lazy) {
    opt.cost_tolerance = 1e-10;
    opt.gradient_tolerance = 1e-8;
    opt.constraint_tolerance = 1e-7;
  }
  opt.initial_penalty = r.pick({0.1, 1.0, 10.0, 100.0});
  opt.max_iterations_total = 2000;
  if (r.coin(0.3)) al.SetPenaltyScaling(r.pick({2.0, 4.0, 20.0}));
  opt.nthreads = r.coin(0.15) ? 2 : 1;
  auto Z = s.guess<n_, m_>();
  al.SetTrajectory(Z);
  Affine a = eliminate(s);
  int rounds = r.coin(0.3) ? 2 : 1;
  for (int round = 0; round < rounds; ++round) {
    bool cold = true;
    if (round) {  // start again from somewhere else, with or without the multipliers
      cold = opt.reset_duals = r.coin();
      for (int k = 0; k < s.N; ++k) Z->Control(k) = rvec(r, s.m, 2);
      if (r.coin()) {
        s.x0 += rvec(r, s.n, 0.02);
        s.prob->SetInitialState(s.x0);
        a = eliminate(s);
      }
    }
    al.Solve();
    auto status = al.GetStatus();
    ctx.count(std::string("status_") + status_name(status));
    if (status != SolverStatus::kSolved) continue;
    std::vector<std::vector<VectorXd>> lam, pen;
    read_duals(al, s.N, &lam, &pen);
    int nu = s.N * s.m;
    VectorXd U(nu), g = VectorXd::Zero(nu);
    for (int k = 0; k < s.N; ++k) U.segment(k * s.m, s.m) = Z->Control(k);
    MatrixXd H = MatrixXd::Zero(nu, nu);
    double J = 0, comp = 0, lscale = 0, worst_comp = 0;
    int active = 0, ineq = 0;
    double max_dual = 0;
    for (int k = 0; k <= s.N; ++k) {
      VectorXd x = a.S[k] * U + a.w[k];
      ctx.check(mclose(x, VectorXd(Z->State(k)), 1e-8, 1e-9), "dynamics", "the returned trajectory does not satisfy the affine dynamics");
      MatrixXd E = MatrixXd::Zero(s.m, nu);
      VectorXd u = VectorXd::Zero(s.m);
      if (k < s.N) {
        E.middleCols(k * s.m, s.m).setIdentity();
        u = Z->Control(k);
      }
      auto& cd = s.costs[k]->data;
      VectorXd dx, du;
      MatrixXd xx, xu, uu;
      J += cd.val(x, u);
      cd.grad(x, u, &dx, &du);
      cd.hess(x, u, &xx, &xu, &uu);
      g += a.S[k].transpose() * dx + E.transpose() * du;
      MatrixXd cr = a.S[k].transpose() * xu * E;
      H += a.S[k].transpose() * xx * a.S[k] + E.transpose() * uu * E + cr + cr.transpose();
      for (size_t i = 0; i < s.cons[k].size(); ++i) {
        auto& d = s.cons[k][i];
        VectorXd c = d.val(x, u);
        MatrixXd Jc = d.jac(x, u);
        g -= (Jc.leftCols(s.n) * a.S[k] + Jc.rightCols(s.m) * E).transpose() * lam[k][i];
        for (int j = 0; j < d.p; ++j) {
          double l = lam[k][i](j);
          lscale += std::abs(l);
          max_dual = std::max(max_dual, std::abs(l));
          if (!d.eq) {
            ++ineq;
            ctx.check(l <= 0, "dual-sign", [&] { return mon::sf("multiplier %.6g of an inequality at %d has the wrong sign", l, k); });
            if (l != 0) ++active;
            worst_comp = std::max(worst_comp, std::abs(l * c(j)) / (1 + std::abs(l)));
          }
          comp += l * c(j);
          ctx.check(d.eq ? std::abs(c(j)) < opt.constraint_tolerance * 1.000001 : c(j) < opt.constraint_tolerance * 1.000001, "infeasible", [&] {
            return mon::sf("constraint value %.6g of a solved problem, tolerance %.1g", c(j), opt.constraint_tolerance);
          });
        }
      }
    }
    double descent = 0.5 * g.dot(H.ldlt().solve(g));
    double gap = comp + descent;  // J - lower bound on the optimum
    double scale = 1 + s.cost_scale(*Z) + lscale * 0.1;
    ctx.maximum("max_descent_e9", lazy ? 0 : static_cast<long>(descent / scale * 1e9));
    if (lazy) {
      // At the default tolerances the multipliers are rough; the objective must still be near the certified optimum.
      AugmentedLagrangianiLQR<n_, m_> tight(*s.prob);
      auto& to = tight.GetOptions();
      to.cost_tolerance = 1e-10;
      to.gradient_tolerance = 1e-8;
      to.constraint_tolerance = 1e-7;
      auto Y = s.guess<n_, m_>();
      tight.SetTrajectory(Y);
      tight.Solve();
      if (tight.GetStatus() == SolverStatus::kSolved && cold) {
        double d = std::abs(J - s.cost(*Y)) / (1 + s.cost_scale(*Y));
        ctx.maximum("max_default_objective_error_e9", static_cast<long>(d * 1e9));
        std::vector<std::vector<VectorXd>> tl, tp;
        read_duals(tight, s.N, &tl, &tp);
        double price = 0;  // what the allowed violation is worth
        for (auto& v : tl)
          for (auto& q : v) price += opt.constraint_tolerance * q.cwiseAbs().sum();
        ctx.check(d <= 5e-2 + 2 * price, "default-objective", [&] { return mon::sf("objective %.9g at the default tolerances, the optimum is %.9g; %s", J, s.cost(*Y), s.describe().c_str()); });
        ctx.count("default_tolerances");
      }
      continue;
    }
    ctx.check(descent <= 1e-6 * scale, "stationarity", [&] {
      return mon::sf("the Lagrangian can still be lowered by %.6g (objective %.6g, largest gradient %.6g); %s", descent, J, g.cwiseAbs().maxCoeff(), s.describe().c_str());
    });
    if (cold) {
      ctx.maximum("max_gap_e9", static_cast<long>(std::abs(gap) / scale * 1e9));
      ctx.maximum("max_complementarity_e9", static_cast<long>(worst_comp * 1e9));
      ctx.check(worst_comp <= 1e-4, "complementarity", [&] {
        return mon::sf("an inactive inequality has a multiplier (|lambda c|/(1+|lambda|) = %.6g); %s", worst_comp, s.describe().c_str());
      });
      ctx.check(std::abs(gap) <= 1e-4 * scale, "gap", [&] { return mon::sf("objective %.9g, but the multipliers only certify %.9g; %s", J, J - gap, s.describe().c_str()); });
    } else {
      ctx.count("kept_multipliers");
    }
    double Jcmp = 0;
    for (int k = 0; k <= s.N; ++k) Jcmp += s.costs[k]->data.val(Z->State(k), Z->Control(k));
    ctx.check(gen::close(J, Jcmp, 1e-8, 1e-8), "objective", "objective of the returned trajectory");
    ctx.count("certified");
    ctx.maximum("max_multiplier", static_cast<long>(max_dual));
    if (max_dual > 100) ctx.count("multipliers_over_100");
    if (active) ctx.count("with_active_inequalities");
    if (active && active < ineq) ctx.count("with_mixed_activity");
    ctx.distinct(traj_hash(*Z));
    if (ctx.want_sample())
      ctx.sample(mon::sf("%s: objective %.6g, gap %.2g, %d of %d inequality rows active", s.describe().c_str(), J, gap, active, ineq));
  }
}
#ifdef STATIC_UNIT
void static_case(Rng& r, mon::Ctx& ctx) { kkt<3, 2>(r, ctx, 3, 2); }
#else
void static_case(Rng& r, mon::Ctx& ctx);
static void run(Rng& r, mon::Ctx& ctx) {
  if (r.coin(0.15)) return static_case(r, ctx);
  kkt<-1, -1>(r, ctx);
}
MON_MAIN(run)
#endif
