// C02: accepted steps decrease the cost as promised, and the log tells the truth.
#include "solve.hpp"
using namespace gen;
using altro::augmented_lagrangian::AugmentedLagrangianiLQR;
using altro::ilqr::iLQR;

static void run(Rng& r, mon::Ctx& ctx) {
  GenOpt o;
  o.nonlin = r.coin(0.7);
  o.cost = r.pick({kQuad, kSmooth, kNonconvex, kNonconvex});
  bool al = r.coin(0.4);
  o.maxcon = al ? 2 : 0;
  o.affine_only = r.coin();
  o.Nmax = 14;
  Setup s = random_setup(r, o);
  if (r.coin(0.4))  // strongly nonlinear or unstable: makes line searches shorten and fail
    for (auto& m : s.models) {
      m->data.A *= r.uni(1, 4);
      m->data.g *= r.uni(1, 6);
    }
  if (r.coin(0.3))
    for (auto& c : s.costs) c->data.a *= 5, c->data.k *= 4;
  std::unique_ptr<iLQR<-1, -1>> il;
  std::unique_ptr<AugmentedLagrangianiLQR<-1, -1>> as;
  if (al) as = std::make_unique<AugmentedLagrangianiLQR<-1, -1>>(*s.prob);
  else il = std::make_unique<iLQR<-1, -1>>(*s.prob);
  auto& q = al ? as->GetiLQRSolver() : *il;
  auto& opt = q.GetOptions();
  vary_options(r, &opt);
  if (r.coin(0.3)) opt.line_search_lower_bound = r.pick({1e-4, 0.3, 0.7, 1e-12});
  if (r.coin(0.3)) opt.line_search_upper_bound = r.pick({1.0, 1.2, 2.0, 100.0});
  if (r.coin(0.15)) opt.state_max = r.uni(2, 8);
  opt.max_iterations_inner = std::min(opt.max_iterations_inner, 30);
  auto Z = s.guess<-1, -1>();
  if (al) as->SetTrajectory(Z);
  else il->SetTrajectory(Z);
  auto& st = q.GetStats();

  // objective in force: the user's cost plus the current augmented Lagrangian terms
  auto objective = [&](const Snapshot& Y, double* scale) {
    double J = s.cost(Y);
    *scale = s.cost_scale(Y);
    if (al) {
      std::vector<std::vector<VectorXd>> lam, pen;
      read_duals(*as, s.N, &lam, &pen);
      for (int k = 0; k <= s.N; ++k)
        for (size_t i = 0; i < s.cons[k].size(); ++i) {
          double t = al_term(s.cons[k][i], lam[k][i], pen[k][i](0), Y.State(k), Y.Control(k));
          VectorXd c = s.cons[k][i].val(Y.State(k), Y.Control(k));
          J += t;
          *scale += std::abs(t) + lam[k][i].squaredNorm() / pen[k][i](0) + c.squaredNorm() * pen[k][i](0);
        }
    }
    return J;
  };
  Snapshot prev;
  auto rollout = [&] {  // what the solve starts from
    Snapshot p = Snapshot::of(*Z);
    p.X[0] = s.x0;
    for (int k = 0; k < s.N; ++k) s.models[k]->data.f(p.X[k], p.U[k], s.times[k], s.steps[k], &p.X[k + 1]);
    return p;
  };
  double last_cost = 0;
  struct Change {
    bool first, same;
    double want, scale;
  };
  std::vector<Change> changes;  // what the history must record for each iteration
  Watch<-1, -1> w;
  auto observe = [&] {
    Snapshot cur = Snapshot::of(*Z);
    bool first = w.first;
    if (first) {
      // the solve rolled the guess out before this iteration
      Snapshot p = prev;
      p.X[0] = s.x0;
      for (int k = 0; k < s.N; ++k) s.models[k]->data.f(p.X[k], p.U[k], s.times[k], s.steps[k], &p.X[k + 1]);
      prev = p;
    }
    double sp, sc;
    double Jp = objective(prev, &sp), J = objective(cur, &sc);
    double logged = st.cost.back();
    double before = first ? st.initial_cost : st.cost[st.cost.size() - 2];
    if (first) {
      ctx.check(gen::close(st.initial_cost, Jp, 1e-9, 1e-9 * sp), "initial-cost", [&] {
        return mon::sf("initial cost %.12g, the rollout of the guess costs %.12g; %s", st.initial_cost, Jp, s.describe().c_str());
      });
    } else {
      ctx.check(before == last_cost, "history-changed", "an earlier cost entry was changed");
    }
    last_cost = logged;
    ctx.check(gen::close(logged, J, 1e-9, 1e-9 * sc), "logged-cost", [&] {
      return mon::sf("recorded cost %.12g but the trajectory costs %.12g (before %.12g); %s", logged, J, Jp, s.describe().c_str());
    });
    bool same = true;
    for (int k = 0; k <= s.N; ++k)
      same = same && mclose(prev.X[k], cur.X[k], first ? 1e-9 : 0, first ? 1e-12 : 0) && bits(prev.U[k], cur.U[k]);
    changes.push_back({first, same, before - logged, sp});
    if (same) {
      ctx.count("iterations_unchanged");
    } else {
      ctx.count("iterations_accepted");
      if (!cur.finite()) ctx.check(!prev.finite(), "accepted-nonfinite", "a non-finite trajectory was accepted");
      double alpha = st.alpha.back(), z = st.improvement_ratio.back();
      double a = 1;
      int i = 0;
      for (; i < opt.line_search_max_iterations && std::abs(a - alpha) > 1e-12 * a; ++i) a /= opt.line_search_decrease_factor;
      ctx.check(i < opt.line_search_max_iterations, "alpha", [&] {
        return mon::sf("step length %.12g is not among the %d line search steps with factor %g", alpha,
                       opt.line_search_max_iterations, opt.line_search_decrease_factor);
      });
      if (i > 0) ctx.count("shortened_steps");
      double d1 = 0, d2 = 0;
      VectorXd x = s.x0;
      double amp = 0;
      bool rolled = true;
      for (int k = 0; k < s.N; ++k) {
        auto& kp = q.GetKnotPointFunction(k);
        auto& Q = kp.GetActionValueExpansion();
        VectorXd d = kp.GetFeedforwardGain();
        d1 += d.dot(VectorXd(Q.du()));
        d2 += 0.5 * d.dot(MatrixXd(Q.dudu()) * d);
        // from the accepted state, so that rounding is not amplified over the horizon
        VectorXd u = prev.U[k] + MatrixXd(kp.GetFeedbackGain()) * (cur.X[k] - prev.X[k]) + alpha * d;
        double us = prev.U[k].norm() + MatrixXd(kp.GetFeedbackGain()).norm() * (cur.X[k].norm() + prev.X[k].norm()) + d.norm();
        rolled = rolled && (u - cur.U[k]).norm() <= 1e-10 * us + 1e-12;
        (void)amp;
        VectorXd xn;
        s.models[k]->data.f(cur.X[k], cur.U[k], s.times[k], s.steps[k], &xn);
        rolled = rolled && mclose(xn, cur.X[k + 1], 1e-9, 1e-12);
      }
      ctx.check(rolled && bits(cur.X[0], s.x0), "not-the-policy", [&] {
        return mon::sf("the accepted trajectory is not the closed-loop rollout of the policy with step %.6g; %s", alpha, s.describe().c_str());
      });
      double expected = -(alpha * d1 + alpha * alpha * d2);
      double noise = 1e-10 * (sp + sc);
      if (std::isfinite(Jp) && std::isfinite(expected)) {
        ctx.check(J < Jp + noise, "cost-increase", [&] {
          return mon::sf("accepted step: cost %.12g -> %.12g; %s", Jp, J, s.describe().c_str());
        });
        ctx.check(expected > -noise, "expected-sign", [&] { return mon::sf("step accepted with expected decrease %.6g", expected); });
        double zz = (Jp - J) / expected, tol = noise / std::abs(expected) + 1e-9 * std::abs(zz);
        if (tol < 0.5) {
          ctx.count("ratios_checked");
          ctx.check(std::abs(zz - z) <= tol, "ratio", [&] {
            return mon::sf("recorded improvement ratio %.9g, actual %.9g (cost %.9g -> %.9g expected %.9g)", z, zz, Jp, J, expected);
          });
          ctx.check(zz >= opt.line_search_lower_bound - tol && zz <= opt.line_search_upper_bound + tol, "ratio-bounds", [&] {
            return mon::sf("step accepted with actual/expected decrease %.9g outside [%g,%g]", zz, opt.line_search_lower_bound,
                           opt.line_search_upper_bound);
          });
        }
      }
    }
    ctx.distinct(traj_hash(cur));
    prev = cur;
  };
  (void)rollout;
  w.on_iteration = observe;
  if (al) w.attach(*as);
  else w.attach(*il);
  int rounds = r.integer(1, 2);
  for (int i = 0; i < rounds; ++i) {
    if (i == 1) {
      for (int k = 0; k < s.N; ++k) Z->Control(k) = rvec(r, s.m, 0.8);
      q.GetStats().Reset();
    }
    prev = Snapshot::of(*Z);
    changes.clear();
    if (al) as->Solve();
    else il->Solve();
    for (size_t j = 0; j < changes.size() && j < st.cost_decrease.size(); ++j) {
      const Change& c = changes[j];
      double dJ = st.cost_decrease[j];
      ctx.check(dJ == c.want || (std::isnan(dJ) && std::isnan(c.want)) || (c.first && gen::close(dJ, c.want, 1e-12, 1e-12 * c.scale)), "dJ", [&] {
        return mon::sf("iteration %zu: recorded cost change %.12g, but the cost fell by %.12g", j, dJ, c.want);
      });
      ctx.check(dJ == 0 || c.first || !c.same, "dJ-unchanged", [&] {
        return mon::sf("the trajectory did not change but the recorded cost changed by %.12g", dJ);
      });
    }
    // nothing moved after the last iteration
    Snapshot end = Snapshot::of(*Z);
    bool same = true;
    if (st.iterations_inner > 0)
      for (int k = 0; k <= s.N; ++k) same = same && bits(prev.X[k], end.X[k]) && bits(prev.U[k], end.U[k]);
    ctx.check(same, "changed-after", "the trajectory changed after the last iteration");
    // the recorded series as a whole
    int len = st.iterations_total;
    ctx.check(static_cast<int>(st.cost.size()) >= len, "short-history", "fewer recorded costs than iterations");
    if (!al)
      for (int j = 1; j < len && j < static_cast<int>(st.cost.size()); ++j)
        ctx.check(!(st.cost[j] > st.cost[j - 1]), "recorded-increase", [&] {
          return mon::sf("recorded cost rises from %.12g to %.12g at iteration %d", st.cost[j - 1], st.cost[j], j);
        });
  }
  ctx.count(std::string("status_") + status_name(al ? as->GetStatus() : il->GetStatus()));
  if (ctx.want_sample())
    ctx.sample(mon::sf("%s %s: J0=%.6g J=%.6g in %d iterations", al ? "AL" : "iLQR", s.describe().c_str(), st.initial_cost,
                       st.cost.empty() ? 0.0 : st.cost.back(), st.iterations_total));
}
MON_MAIN(run)
