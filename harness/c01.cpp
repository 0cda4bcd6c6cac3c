// C01: the trajectory a solver returns is a rollout of the user's dynamics from the initial state.
#include "solve.hpp"
using namespace gen;

template <int n_, int m_>
static std::shared_ptr<altro::Trajectory<n_, m_>> make(altro::ilqr::iLQR<n_, m_>& s, float dt) {
  return s.MakeTrajectory(dt);
}
static std::shared_ptr<altro::Trajectory<-1, -1>> make(altro::ilqr::iLQR<-1, -1>&, float) { return nullptr; }

template <int n_, int m_>
static void feasible_case(Rng& r, mon::Ctx& ctx) {
  GenOpt o;
  o.nonlin = r.coin();
  o.timevar = r.coin(0.8);
  o.cost = r.pick({kQuad, kSmooth, kNonconvex});
  bool al = r.coin(0.55);
  o.maxcon = al ? r.integer(0, 2) : 0;
  o.affine_only = r.coin();
  o.feasible = r.coin(0.8);
  o.Nmax = 15;
  o.shared = r.coin(0.3);
  Setup s = random_setup(r, o, n_ > 0 ? n_ : 0, m_ > 0 ? m_ : 0);
  for (auto& m : s.models) m->keep_th = true;
  std::shared_ptr<altro::Trajectory<n_, m_>> Z;
  std::unique_ptr<altro::ilqr::iLQR<n_, m_>> il;
  std::unique_ptr<altro::augmented_lagrangian::AugmentedLagrangianiLQR<n_, m_>> as;
  if (al) as = std::make_unique<altro::augmented_lagrangian::AugmentedLagrangianiLQR<n_, m_>>(*s.prob);
  else il = std::make_unique<altro::ilqr::iLQR<n_, m_>>(*s.prob);
  auto& ilqr = al ? as->GetiLQRSolver() : *il;
  vary_options(r, &ilqr.GetOptions());
  ilqr.GetOptions().nthreads = s.models.size() > 1 && s.models[0] != s.models.back() ? r.pick({1, 1, 3}) : 1;
  if (r.coin(0.2)) {
    ilqr.GetOptions().state_max = r.uni(3, 20);
    ilqr.GetOptions().control_max = r.uni(3, 20);
  }
  Z = s.guess<n_, m_>();
  if (n_ > 0 && r.coin(0.2)) {
    float dt = static_cast<float>(r.uni(0.05, 0.2));
    Z = make(ilqr, dt);
    for (int k = 0; k <= s.N; ++k) {
      s.times[k] = Z->GetTime(k);
      s.steps[k] = Z->GetStep(k);
      ctx.check(gen::close(s.times[k], k * static_cast<double>(dt), 1e-5, 1e-6) &&
                    gen::close(s.steps[k], k < s.N ? dt : 0.0, 1e-6, 0),
                "uniform-times", "MakeTrajectory did not produce the requested uniform time step");
    }
    for (int k = 0; k < s.N; ++k) Z->Control(k) = s.U[k];
  } else {
    if (al) as->SetTrajectory(Z);
    else il->SetTrajectory(Z);
  }
  // the callback samples the trajectory in the middle of the solve, at every iteration
  Watch<n_, m_> w;
  long iters = 0;
  w.on_iteration = [&] {
    ++iters;
    check_feasible(ctx, s, *Z, "after an iteration");
  };
  bool watch = r.coin(0.7);
  if (watch) {
    if (al) w.attach(*as);
    else w.attach(*il);
  }
  int rounds = r.integer(1, 3);
  std::set<std::pair<float, float>> allowed;
  for (int round = 0; round < rounds; ++round) {
    if (round > 0) {  // a history: something the next solve has to honour has changed
      switch (r.integer(0, 5)) {
        case 4: {  // only one knot point's time or step
          const int k = r.integer(0, s.N);
          const int what = r.integer(0, 2);
          if (what != 1) s.times[k] += r.pick({0.01f, 0.1f, -0.03f});
          if (what != 0 && k < s.N) s.steps[k] *= r.pick({0.5f, 0.9f, 1.2f});
          Z->SetTime(k, s.times[k]);
          Z->SetStep(k, s.steps[k]);
          ctx.count("changed_one_time");
          break;
        }
        case 5: {  // only one number of the initial state or of the guess
          if (r.coin()) {
            s.x0(r.integer(0, s.n - 1)) += r.pick({1e-3, 0.2, -1.0});
            s.prob->SetInitialState(s.x0);
          } else {
            Z->Control(r.integer(0, s.N - 1))(r.integer(0, s.m - 1)) += r.pick({1e-3, 0.2, -1.0});
          }
          ctx.count("changed_one_number");
          break;
        }
        case 0:
          s.x0 = rvec(r, s.n, 1.5);
          s.prob->SetInitialState(s.x0);
          // the AL solver captures the state through the problem's pointer as well
          ctx.count("changed_x0");
          break;
        case 1:
          random_times(r, s);
          for (int k = 0; k <= s.N; ++k) {
            Z->SetTime(k, s.times[k]);
            Z->SetStep(k, s.steps[k]);
          }
          ctx.count("changed_times");
          break;
        case 2:
          random_times(r, s);
          Z = s.guess<n_, m_>();
          if (al) as->SetTrajectory(Z);
          else il->SetTrajectory(Z);
          ctx.count("new_trajectory");
          break;
        case 3:
          for (int k = 0; k < s.N; ++k) Z->Control(k) = rvec(r, s.m, 0.5);
          for (int k = 0; k <= s.N; ++k) Z->State(k) = rvec(r, s.n, 5);  // garbage states are ignored
          ctx.count("changed_guess");
          break;
      }
    }
    for (auto& m : s.models) m->log.th.clear();
    if (al) as->Solve();
    else il->Solve();
    auto st = al ? as->GetStatus() : il->GetStatus();
    ctx.count(std::string("status_") + status_name(st));
    ctx.check(ilqr.GetTrajectory() == Z, "not-linked", "the solver no longer uses the trajectory that was passed in");
    check_feasible(ctx, s, *Z, "after the solve");
    // the dynamics were only ever asked about the user's own times and steps
    for (int k = 0; k < s.N; ++k)
      for (auto& p : s.models[k]->log.th) {
        bool ok = s.models.size() == 1 || s.models[0] != s.models.back() ? (p.first == s.times[k] && p.second == s.steps[k]) : false;
        if (!ok && s.models.size() > 1 && s.models[0] == s.models.back())
          for (int j = 0; j < s.N; ++j) ok = ok || (p.first == s.times[j] && p.second == s.steps[j]);
        ctx.check(ok, "wrong-time", [&] {
          return mon::sf("the dynamics of knot point %d were evaluated at t=%g h=%g, its time is %g with step %g", k,
                         static_cast<double>(p.first), static_cast<double>(p.second), static_cast<double>(s.times[k]),
                         static_cast<double>(s.steps[k]));
        });
      }
    ctx.distinct(traj_hash(*Z));
  }
  ctx.count("iterations_watched", iters);
  if (ctx.want_sample())
    ctx.sample(mon::sf("%s %s rounds=%d final %s: x_N=%s", al ? "AL" : "iLQR", s.describe().c_str(), rounds,
                       status_name(al ? as->GetStatus() : il->GetStatus()), str(Z->State(s.N)).c_str()));
}

#ifdef STATIC_UNIT
void static_case(Rng& r, mon::Ctx& ctx) { feasible_case<3, 2>(r, ctx); }
#else
void static_case(Rng& r, mon::Ctx& ctx);
static void run(Rng& r, mon::Ctx& ctx) {
  if (r.coin(0.35)) static_case(r, ctx);
  else feasible_case<-1, -1>(r, ctx);
}
MON_MAIN(run)
#endif
