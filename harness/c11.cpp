// C11: every solve terminates within its budgets and its status is the condition that really ended it.
#include "hostile.hpp"
#include "solve.hpp"
using namespace gen;
using altro::augmented_lagrangian::AugmentedLagrangianiLQR;
using altro::ilqr::iLQR;

static void run(Rng& r, mon::Ctx& ctx) {
  GenOpt o;
  o.nonlin = r.coin();
  o.cost = r.pick({kQuad, kSmooth, kNonconvex});
  o.Nmax = 10;
  bool al = r.coin(0.6);
  o.maxcon = al ? 2 : 0;
  o.affine_only = r.coin();
  o.feasible = r.coin(0.6);
  Setup s = random_setup(r, o);
  int style = r.integer(0, 4);
  for (int k = 0; k <= s.N; ++k) {
    auto h = std::make_shared<HCost>(s.costs[k]->data);
    if (style == 1) h->data.R -= r.uni(0, 6) * MatrixXd::Identity(s.m, s.m);      // unbounded below
    if (style == 2 && k < s.N) h->data.H += rmat(r, s.n, s.m, 5);
    s.costs[k] = h;
    if (k < s.N) {
      auto m = std::make_shared<HModel>(s.models[k]->data);
      if (style == 3) m->data.A *= r.uni(3, 40);                                  // diverges
      s.models[k] = m;
    }
  }
  hostile = Hostile();
  if (style == 4) {
    hostile.what = r.pick({kNan, kInf, kHuge});
    hostile.where = r.integer(0, 4);
    hostile.after = r.integer(0, 60 * s.N);
    hostile.in_region = r.coin();
    ctx.count("poisoned");
  }
  s.build();
  std::unique_ptr<iLQR<-1, -1>> il;
  std::unique_ptr<AugmentedLagrangianiLQR<-1, -1>> as;
  if (al) as = std::make_unique<AugmentedLagrangianiLQR<-1, -1>>(*s.prob);
  else il = std::make_unique<iLQR<-1, -1>>(*s.prob);
  auto& q = al ? as->GetiLQRSolver() : *il;
  auto& opt = q.GetOptions();
  vary_options(r, &opt);
  if (r.coin(0.5)) opt.max_iterations_inner = r.integer(1, 40);
  if (r.coin(0.3)) opt.max_iterations_total = r.integer(1, 60);
  if (r.coin(0.3)) opt.max_iterations_outer = r.integer(1, 12);
  if (r.coin(0.1)) opt.cost_tolerance = 0;  // can never be met by a change of zero
  if (r.coin(0.2)) opt.constraint_tolerance = r.pick({1e-12, 1e-2, 10.0});
  if (r.coin(0.1)) opt.max_iterations_inner = 0;
  if (r.coin(0.3)) opt.bp_reg_max = r.pick({1e-3, 0.1}), opt.bp_reg_fail_threshold = r.pick({1, 3});
  auto Z = s.guess<-1, -1>();
  if (al) as->SetTrajectory(Z);
  else il->SetTrajectory(Z);
  auto& st = q.GetStats();
  int rounds = r.integer(1, 2);
  for (int round = 0; round < rounds; ++round) {
    if (round) {
      for (int k = 0; k < s.N; ++k) Z->Control(k) = rvec(r, s.m, 0.8);
      if (!al) st.Reset();
      if (r.coin(0.1)) opt.max_iterations_outer = 0;
    }
    struct It {
      int outer, inner, total;
      double dJ, grad, gown;
    };
    std::vector<It> its;
    int outer = 0, shift = 0;
    std::vector<double> pens;  // maximum penalty in force in each inner solve
    Watch<-1, -1> w;
    w.on_iteration = [&] {
      if (w.first) {
        ++outer;
        if (al) pens.push_back(as->GetMaxPenalty());
      }
      double g = 0;
      bool fin = true;
      for (int k = 0; k < s.N; ++k) {
        VectorXd d = q.GetKnotPointFunction(k).GetFeedforwardGain();
        fin = fin && d.allFinite() && VectorXd(Z->Control(k)).allFinite();
        double mx = 0;
        for (int i = 0; i < s.m; ++i) mx = std::max(mx, std::abs(d(i)) / (std::abs(Z->Control(k)(i)) + 1));
        g += mx;
      }
      int rel = its.empty() ? 1 - st.iterations_total : shift;  // the counters may be raised before or after the callback
      shift = rel;
      its.push_back({outer, st.iterations_inner + rel, st.iterations_total + rel, 0, 0, fin ? g / s.N : NAN});
    };
    if (al) w.attach(*as);
    else w.attach(*il);
    std::vector<long> ev0, jac0;
    for (auto& m : s.models) ev0.push_back(m->log.neval), jac0.push_back(m->log.njac);
    if (al) as->Solve();
    else il->Solve();
    auto status = al ? as->GetStatus() : il->GetStatus();
    ctx.count(std::string("status_") + status_name(status));
    int n = its.size();
    if (al && opt.max_iterations_outer == 0) {
      ctx.check(n == 0 && st.iterations_outer == 0 && st.iterations_total == 0 && status == SolverStatus::kUnsolved, "no-outer", [&] {
        return mon::sf("status %s after %d iterations with a budget of no outer iteration", status_name(status), n);
      });
      ctx.count("no_outer_budget");
      continue;
    }
    for (int i = 0; i < n; ++i) {
      // the gradient of iteration i is in the history once it is complete
      its[i].dJ = i < static_cast<int>(st.cost_decrease.size()) ? st.cost_decrease[i] : NAN;
      its[i].grad = i < static_cast<int>(st.gradient.size()) ? st.gradient[i] : NAN;
      ctx.check(its[i].total == i + 1, "total-counter", [&] { return mon::sf("total iteration counter %d after %d iterations", its[i].total, i + 1); });
      int inner = i == 0 || its[i].outer != its[i - 1].outer ? 1 : its[i - 1].inner + 1;
      ctx.check(its[i].inner == inner, "inner-counter", [&] { return mon::sf("inner iteration counter %d instead of %d", its[i].inner, inner); });
      if (std::isfinite(its[i].gown))
        ctx.check(gen::close(its[i].grad, its[i].gown, 1e-9, 1e-12), "gradient-log", [&] {
          return mon::sf("recorded gradient %.9g, the normalised feedforward gains average to %.9g", its[i].grad, its[i].gown);
        });
    }
    ctx.count("iterations", n);
    ctx.check(st.iterations_total == n, "final-total", [&] { return mon::sf("%d iterations recorded, %d made", st.iterations_total, n); });
    int last_inner = n ? its[n - 1].inner : 0;
    auto inner_status = q.GetStatus();
    bool bp = inner_status == SolverStatus::kBackwardPassRegularizationFailed;
    if (n && !bp) ctx.check(st.iterations_inner == last_inner, "final-inner", "inner iteration counter is not the number of inner iterations");
    for (auto& i : its) {
      ctx.check(i.inner <= opt.max_iterations_inner, "inner-budget", [&] { return mon::sf("%d inner iterations, the limit is %d", i.inner, opt.max_iterations_inner); });
      ctx.check(i.total <= opt.max_iterations_total, "total-budget", [&] { return mon::sf("%d total iterations, the limit is %d", i.total, opt.max_iterations_total); });
    }
    // the last backward pass may have failed before the iteration was counted
    for (int k = 0; k < s.N; ++k) {
      long j = s.models[k]->log.njac - jac0[k], e = s.models[k]->log.neval - ev0[k];
      ctx.check(j == n + (bp ? 1 : 0), "expansion-count", [&] { return mon::sf("%ld Jacobian evaluations at %d in %d iterations (%s)", j, k, n, status_name(status)); });
      int solves = al ? st.iterations_outer : 1;
      ctx.check(e <= solves + static_cast<long>(n) * opt.line_search_max_iterations, "evaluation-count", [&] { return mon::sf("%ld dynamics evaluations at %d in %d iterations", e, k, n); });
    }
    auto met = [&](const It& i) { return i.dJ < opt.cost_tolerance && i.grad < opt.gradient_tolerance; };
    // each inner solve stops at the first iteration that meets the tolerances or exhausts a budget
    for (int i = 0; i + 1 < n; ++i) {
      bool same = its[i].outer == its[i + 1].outer;
      bool stop = met(its[i]) || its[i].inner >= opt.max_iterations_inner || its[i].total >= opt.max_iterations_total;
      if (same) ctx.check(!stop, "continued", [&] { return mon::sf("iteration %d met a stopping condition but the solve went on", i + 1); });
      else ctx.check(met(its[i]), "outer-continued", [&] { return mon::sf("the inner solve ended at iteration %d without converging, but another one was started", i + 1); });
    }
    if (n && !bp) {
      const It& l = its[n - 1];
      SolverStatus expect;
      bool known = true;
      if (met(l)) expect = SolverStatus::kSolved;
      else if (l.inner >= opt.max_iterations_inner) expect = SolverStatus::kMaxInnerIterations;
      else if (l.total >= opt.max_iterations_total) expect = SolverStatus::kMaxIterations;
      else known = false;
      if (known)
        ctx.check(inner_status == expect, "inner-status", [&] {
          return mon::sf("inner status %s, but the solve ended because of %s (dJ=%.3g grad=%.3g inner=%d/%d total=%d/%d)", status_name(inner_status),
                         status_name(expect), l.dJ, l.grad, l.inner, opt.max_iterations_inner, l.total, opt.max_iterations_total);
        });
      else
        ctx.check(inner_status == SolverStatus::kStateLimit || inner_status == SolverStatus::kControlLimit, "inner-status-limit", [&] {
          return mon::sf("the solve ended with %s although no stopping condition is met (dJ=%.3g grad=%.3g inner=%d total=%d)",
                         status_name(inner_status), l.dJ, l.grad, l.inner, l.total);
        });
    }
    if (n == 0 && !bp)
      ctx.check(opt.max_iterations_inner == 0 && inner_status == SolverStatus::kUnsolved, "no-iteration", "no iteration was made");
    if (al) {
      int no = st.iterations_outer;
      ctx.check(no == outer || (no == outer + 1 && (bp || opt.max_iterations_inner == 0)), "outer-counter", [&] { return mon::sf("outer counter %d after %d inner solves", no, outer); });
      ctx.check(no <= opt.max_iterations_outer, "outer-budget", [&] { return mon::sf("%d outer iterations, the limit is %d", no, opt.max_iterations_outer); });
      double viol = st.violations.back(), pen = st.max_penalty.back();
      auto e = SolverStatus::kUnsolved;
      if (inner_status != SolverStatus::kSolved) e = inner_status;
      else if (viol < opt.constraint_tolerance) e = SolverStatus::kSolved;
      else if (pen > opt.maximum_penalty) e = SolverStatus::kMaxPenalty;
      else if (no >= opt.max_iterations_outer) e = SolverStatus::kMaxOuterIterations;
      else if (st.iterations_total >= opt.max_iterations_total) e = SolverStatus::kMaxIterations;
      ctx.check(status == e && e != SolverStatus::kUnsolved || (n == 0 && status == e), "outer-status", [&] {
        return mon::sf("status %s, but the solve ended because of %s (viol=%.3g penalty=%.3g outer=%d/%d total=%d/%d inner %s)", status_name(status),
                       status_name(e), viol, pen, no, opt.max_iterations_outer, st.iterations_total, opt.max_iterations_total, status_name(inner_status));
      });
      if (!pens.empty() && s.ncon() > 0) {
        ctx.check(pen == pens.back(), "penalty-log", [&] { return mon::sf("recorded penalty %.6g, the last inner solve used %.6g", pen, pens.back()); });
        // it must have stopped as soon as the penalty was exceeded
        for (size_t i = 0; i + 1 < pens.size(); ++i)
          ctx.check(!(pens[i] > opt.maximum_penalty), "penalty-budget", [&] { return mon::sf("the solve went on with penalty %.6g > %.6g", pens[i], opt.maximum_penalty); });
      }
      if (status == SolverStatus::kSolved && hostile.what == kNone) {
        ctx.check(s.violation(*Z) < opt.constraint_tolerance * (1 + 1e-9), "solved-infeasible", [&] { return mon::sf("solved with violation %.6g", s.violation(*Z)); });
      }
    } else {
      ctx.check(status == inner_status, "status", "status changed");
    }
    ctx.distinct(mon::hash_bytes(&status, sizeof status, traj_hash(*Z)) + n);
  }
  if (ctx.want_sample())
    ctx.sample(mon::sf("%s %s style=%d: %s after %d iterations, %d outer", al ? "AL" : "iLQR", s.describe().c_str(), style,
                       status_name(al ? as->GetStatus() : il->GetStatus()), st.iterations_total, st.iterations_outer));
}
MON_MAIN(run)
