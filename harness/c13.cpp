// C13: repeating a solve reproduces it bit for bit; nothing a solver did before leaves a trace.
#include "hostile.hpp"
#include "rig.hpp"
using namespace gen;
using altro::augmented_lagrangian::AugmentedLagrangianiLQR;
using altro::ilqr::iLQR;

template <int n_, int m_>
static void repeat(Rng& r, mon::Ctx& ctx, int n = 0, int m = 0) {
  GenOpt o;
  o.nonlin = r.coin();
  o.cost = r.pick({kQuad, kSmooth, kNonconvex});
  o.Nmax = 12;
  bool al = r.coin(0.6);
  o.maxcon = al ? 2 : 0;
  o.affine_only = r.coin();
  o.feasible = r.coin(0.8);
  Setup s = random_setup(r, o, n, m);
  hostile = Hostile();
  for (int k = 0; k <= s.N; ++k) {
    s.costs[k] = std::make_shared<HCost>(s.costs[k]->data);
    if (r.coin(0.1)) s.costs[k]->data.R -= MatrixXd::Identity(s.m, s.m);
    if (k < s.N) s.models[k] = std::make_shared<HModel>(s.models[k]->data);
  }
  altro::SolverOptions opt;
  vary_options(r, &opt);
  opt.max_iterations_inner = std::min(opt.max_iterations_inner, 40);
  opt.reset_duals = true;
  if (r.coin(0.15)) opt.state_max = r.uni(0.5, 4);
  if (r.coin(0.15)) opt.control_max = r.uni(0.2, 2);
  if (r.coin(0.3)) opt.nthreads = r.integer(2, 4);
  auto phi = r.pick({10.0, 3.0});

  Rig<n_, m_> fresh, used;
  fresh.make(s, al);
  fresh.q().GetOptions() = opt;
  if (al) fresh.as->SetPenaltyScaling(phi);
  Outcome want = fresh.solve();
  ctx.count(std::string("status_") + status_name(want.status));
  if (al) ctx.count("constrained");
  if (want.Z.finite() && want.total > 0) ctx.distinct(traj_hash(want.Z));

  // the same solver again, from the same guess
  s.fill(*fresh.Z);
  Outcome again = fresh.solve();
  std::string diff = differ(want, again);
  ctx.check(diff.empty(), "repeat", [&] { return "solving again gives another result: " + diff + "; " + s.describe(); });

  // a solver with a past
  used.make(s, al);
  int dirt = r.integer(1, 4);
  for (int i = 0; i < dirt; ++i) {
    auto& q = used.q();
    altro::SolverOptions other;
    vary_options(r, &other);
    other.max_iterations_inner = std::min(other.max_iterations_inner, 25);
    if (r.coin(0.3)) other.nthreads = r.integer(1, 5), other.tasks_per_thread = r.integer(1, 3);
    if (r.coin(0.3)) other.state_max = r.uni(0.1, 2), ctx.count("dirty_limits");
    if (r.coin(0.3)) other.bp_reg_max = 1e-3, other.bp_reg_fail_threshold = 2;
    if (r.coin(0.3)) other.reset_duals = false;
    if (r.coin(0.3)) other.initial_penalty = 0;
    q.GetOptions() = other;
    VectorXd x0 = s.x0 + rvec(r, s.n, 2);
    used.s.prob->SetInitialState(x0);
    s.fill(*used.Z);
    for (int k = 0; k < s.N; ++k) used.Z->Control(k) = rvec(r, s.m, 3);
    if (r.coin(0.3)) {
      hostile.what = r.pick({kNan, kInf, kHuge});
      hostile.where = r.integer(0, 4);
      hostile.after = r.integer(0, 30 * s.N);
      other.nthreads = 1;
      q.GetOptions() = other;
      ctx.count("dirty_poison");
    }
    if (r.coin(0.15)) q.SetTaskAssignment({0, s.N + 1}), ctx.count("dirty_partition");
    int how = r.integer(0, 3);
    if (how == 3 && !al) {  // pieces of a solve
      q.SolveSetup();
      q.Rollout();
      q.UpdateExpansions();
      q.BackwardPass();
      ctx.count("dirty_pieces");
    } else {
      Outcome d = used.solve();
      ctx.count(std::string("dirty_") + status_name(d.status));
    }
    if (al && r.coin(0.3)) {
      used.as->SetPenalty(r.uni(1, 100));
      used.as->MaxViolation(*used.Z);
      used.as->UpdateDuals();
    }
    if (r.coin(0.2)) {  // another trajectory object
      used.Z = s.template guess<n_, m_>();
      if (al) used.as->SetTrajectory(used.Z);
      else used.il->SetTrajectory(used.Z);
    }
    hostile = Hostile();
  }
  if (r.coin(0.3)) opt.nthreads = r.integer(1, 4);  // C14: makes no difference
  used.q().GetOptions() = opt;
  if (al) used.as->SetPenaltyScaling(phi);
  used.s.prob->SetInitialState(s.x0);
  s.fill(*used.Z);
  Outcome got = used.solve();
  diff = differ(want, got);
  ctx.check(diff.empty(), "history", [&] { return "a solver with a past gives another result than a fresh one: " + diff + "; " + s.describe(); });
  ctx.count("compared");

  // Keeping the multipliers: two solvers with the same past still agree.
  if (al && r.coin(0.4)) {
    for (auto* g : {&fresh, &used}) {
      g->q().GetOptions().reset_duals = false;
      g->q().GetOptions().initial_penalty = 0;
      s.fill(*g->Z);
    }
    Outcome a = fresh.solve(), b = used.solve();
    diff = differ(a, b);
    ctx.check(diff.empty(), "kept-duals", [&] { return "two solvers with the same multipliers disagree: " + diff + "; " + s.describe(); });
    ctx.count("kept_duals");
  }
  if (ctx.want_sample()) ctx.sample(mon::sf("%s %s: %s after %d iterations, repeated after %d other solves", al ? "AL" : "iLQR", s.describe().c_str(), status_name(want.status), want.total, dirt));
}
#ifdef STATIC_UNIT
void static_case(Rng& r, mon::Ctx& ctx) { repeat<3, 2>(r, ctx, 3, 2); }
#else
void static_case(Rng& r, mon::Ctx& ctx);
static void run(Rng& r, mon::Ctx& ctx) {
  if (r.coin(0.15)) return static_case(r, ctx);
  repeat<-1, -1>(r, ctx);
}
MON_MAIN(run)
#endif
