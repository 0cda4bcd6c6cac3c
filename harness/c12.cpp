// C12: state and control limits hold on every accepted step; the status names the limit that blocked progress.
#include "solve.hpp"
using namespace gen;
using altro::augmented_lagrangian::AugmentedLagrangianiLQR;
using altro::ilqr::iLQR;

static void run(Rng& r, mon::Ctx& ctx) {
  GenOpt o;
  o.nonlin = r.coin();
  o.cost = r.pick({kQuad, kSmooth, kNonconvex});
  o.Nmax = 14;
  bool al = r.coin(0.25);
  o.maxcon = al ? 2 : 0;
  Setup s = random_setup(r, o);
  if (r.coin(0.4))
    for (auto& m : s.models) m->data.A *= r.uni(1, 5);
  std::unique_ptr<iLQR<-1, -1>> il;
  std::unique_ptr<AugmentedLagrangianiLQR<-1, -1>> as;
  if (al) as = std::make_unique<AugmentedLagrangianiLQR<-1, -1>>(*s.prob);
  else il = std::make_unique<iLQR<-1, -1>>(*s.prob);
  auto& q = al ? as->GetiLQRSolver() : *il;
  auto& opt = q.GetOptions();
  vary_options(r, &opt);
  opt.max_iterations_inner = std::min(opt.max_iterations_inner, 25);
  bool check = r.coin(0.8);
  opt.check_forwardpass_bounds = check;
  if (r.coin(0.7)) opt.state_max = r.pick({0.3, 1.0, 2.0, 4.0, 8.0}) * r.uni(0.5, 1.5);
  if (r.coin(0.7)) opt.control_max = r.pick({0.1, 0.5, 1.0, 3.0}) * r.uni(0.5, 1.5);
  auto Z = s.guess<-1, -1>();
  if (al) as->SetTrajectory(Z);
  else il->SetTrajectory(Z);
  Snapshot prev = Snapshot::of(*Z), before_last;
  auto norm_over = [&](const Snapshot& Y, double margin, bool* xo, bool* uo) {
    *xo = *uo = false;
    for (int k = 0; k < s.N; ++k) {
      if (Y.X[k + 1].norm() > opt.state_max * (1 + margin)) *xo = true;
      if (Y.U[k].norm() > opt.control_max * (1 + margin)) *uo = true;
    }
  };
  // replays all candidate steps of the last iteration; 1: every candidate clearly violates a limit
  auto replay = [&](const Snapshot& from, int* last) {
    int all = opt.line_search_max_iterations > 0;
    int kind = 0;  // of the last candidate: 1 state, 2 control, 3 too close or both at once, 0 none
    double alpha = 1;
    for (int i = 0; i < opt.line_search_max_iterations; ++i, alpha /= opt.line_search_decrease_factor) {
      VectorXd x = s.x0;
      bool hit = false;
      kind = 0;
      for (int k = 0; k < s.N && !hit; ++k) {
        auto& kp = q.GetKnotPointFunction(k);
        VectorXd u = before_last.U[k] + MatrixXd(kp.GetFeedbackGain()) * (x - before_last.X[k]) + alpha * VectorXd(kp.GetFeedforwardGain());
        VectorXd xn;
        s.models[k]->data.f(x, u, s.times[k], s.steps[k], &xn);
        double xr = xn.norm() / opt.state_max, ur = u.norm() / opt.control_max;
        bool near = std::abs(xr - 1) < 1e-6 || std::abs(ur - 1) < 1e-6;
        if (near || (xr > 1 && ur > 1)) kind = 3;
        else if (xr > 1) kind = 1;
        else if (ur > 1) kind = 2;
        if (near) {
          all = 0;
          hit = true;
        } else if (xr > 1 || ur > 1) hit = true;
        x = xn;
      }
      if (!hit) all = 0;
    }
    *last = kind;
    return all;
  };
  auto& st = q.GetStats();
  bool moved_last = false;
  Watch<-1, -1> w;
  bool blocked = false;
  w.on_iteration = [&] {
    ctx.check(w.first || !blocked, "continued-blocked", [&] { return "the solve went on after an iteration in which every candidate violates a limit; " + s.describe(); });
    Snapshot cur = Snapshot::of(*Z);
    bool moved = false;
    for (int k = 0; k < s.N; ++k) moved = moved || !bits(cur.U[k], prev.U[k]);
    bool x, u;
    norm_over(cur, 1e-12, &x, &u);
    if (moved && check) {
      ctx.count("accepted_with_limits");
      ctx.check(!x, "state-limit", [&] { return mon::sf("an accepted trajectory has a state norm above %g; %s", opt.state_max, s.describe().c_str()); });
      ctx.check(!u, "control-limit", [&] { return mon::sf("an accepted trajectory has a control norm above %g; %s", opt.control_max, s.describe().c_str()); });
    }
    if (moved && !check && (x || u)) ctx.count("accepted_beyond_disabled_limits");
    ctx.distinct(traj_hash(cur));
    before_last = prev;
    moved_last = moved;
    if (w.first) {  // the guess was rolled out first
      before_last.X[0] = s.x0;
      for (int k = 0; k < s.N; ++k)
        s.models[k]->data.f(before_last.X[k], before_last.U[k], s.times[k], s.steps[k], &before_last.X[k + 1]);
    }
    prev = cur;
    int kind;
    blocked = check && replay(before_last, &kind) == 1;
    if (blocked) ctx.count("blocked_iterations");
  };
  if (al) w.attach(*as);
  else w.attach(*il);
  if (al) as->Solve();
  else il->Solve();
  auto status = q.GetStatus();
  ctx.count(std::string("status_") + status_name(status));
  bool lim = status == SolverStatus::kStateLimit || status == SolverStatus::kControlLimit;
  if (al) ctx.check(as->GetStatus() == status || !lim, "al-status", "the limit status of the inner solve was not reported");
  if (lim) ctx.check(check, "limit-status-disabled", "limit status although the limits are not checked");
  if (st.iterations_inner > 0 && status != SolverStatus::kBackwardPassRegularizationFailed) {
    int kind, all = replay(before_last, &kind);
    bool tol_done = st.cost_decrease.back() < opt.cost_tolerance && st.gradient.back() < opt.gradient_tolerance;
    bool budget = st.iterations_inner >= opt.max_iterations_inner || st.iterations_total >= opt.max_iterations_total;
    if (check && all == 1) {
      ctx.count("fully_blocked");
      ctx.check(!moved_last, "moved-blocked", "every candidate violates a limit but the trajectory changed");
      if (!tol_done && !budget)
        ctx.check(lim && (kind == 3 || (kind == 1) == (status == SolverStatus::kStateLimit)), "limit-status", [&] {
          return mon::sf("every candidate violates a limit (last: %s) but the status is %s", kind == 1 ? "state" : "control", status_name(status));
        });
    }
    if (lim) {
      ctx.check(!moved_last, "limit-but-moved", "limit status although the last step was accepted");
      ctx.check(kind == 3 || (status == SolverStatus::kStateLimit ? kind == 1 : kind == 2), "false-limit-status", [&] {
        return mon::sf("status %s but the last candidate %s; %s", status_name(status),
                       kind == 0 ? "violates no limit" : kind == 1 ? "violates the state limit" : "violates the control limit", s.describe().c_str());
      });
    }
  }
  // with the check off the limits play no role at all
  if (!check && !al) {
    auto Z2 = s.guess<-1, -1>();
    iLQR<-1, -1> t(*s.prob);
    t.GetOptions() = opt;
    t.GetOptions().state_max = t.GetOptions().control_max = 1e300;
    t.SetTrajectory(Z2);
    t.Solve();
    ctx.check(Snapshot::of(*Z).same(Snapshot::of(*Z2)) && t.GetStatus() == il->GetStatus(), "disabled-limit-matters", "a disabled limit changed the solve");
    ctx.count("disabled_twins");
  }
  if (ctx.want_sample())
    ctx.sample(mon::sf("%s check=%d state_max=%.3g control_max=%.3g: %s after %d iterations", s.describe().c_str(), check, opt.state_max,
                       opt.control_max, status_name(status), st.iterations_total));
}
MON_MAIN(run)
