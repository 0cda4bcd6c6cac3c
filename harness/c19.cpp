// C19: moved and copied objects behave like the original and do not refer to it any more.
#include "capture.hpp"
#include "soltext.hpp"
using namespace gen;
using altro::LogLevel;
using altro::SolverStats;

template <int n_, int m_>
static void solvers(Rng& r, mon::Ctx& ctx, int n = 0, int m = 0) {
  GenOpt o;
  o.nonlin = r.coin();
  o.cost = r.pick({kQuad, kSmooth, kNonconvex});
  o.Nmax = r.pick({3, 10});
  bool al = r.coin(0.6);
  o.maxcon = al ? 2 : 0;
  Setup s = random_setup(r, o, n, m);
  Rig<n_, m_> a, b;
  // possibly moved before the trajectory is set
  a.make(s, al);
  b.make(s, al);
  std::string log;
  long calls_a = 0, calls_b = 0;
  auto move = [&] {
    if (al) {
      auto fresh = std::make_unique<AugmentedLagrangianiLQR<n_, m_>>(std::move(*b.as));
      b.as = std::move(fresh);  // destroys the source
    } else {
      auto fresh = std::make_unique<iLQR<n_, m_>>(std::move(*b.il));
      b.il = std::move(fresh);
    }
    log += "MOVE ";
    ctx.count("solver_moves");
  };
  std::vector<int> custom;
  bool expanded = false, gains = false, ready = false;
  int steps = r.integer(2, 8);
  for (int i = 0; i < steps; ++i) {
    if (r.coin(0.5)) move();
    int op = r.integer(0, 11);
    std::string out_a, out_b;
    auto both = [&](const std::function<void(Rig<n_, m_>&)>& f) {
      out_a = mon::capture([&] { f(a); });
      out_b = mon::capture([&] { f(b); });
    };
    bool solved = false;
    if (op <= 3) {
      both([&](Rig<n_, m_>& g) { al ? g.as->Solve() : g.il->Solve(); });
      log += "solve ";
      expanded = gains = ready = solved = true;
    } else if (op == 4) {
      altro::SolverOptions opt;
      vary_options(r, &opt);
      opt.max_iterations_inner = std::min(opt.max_iterations_inner, 8);
      opt.max_iterations_outer = std::min(opt.max_iterations_outer, 4);
      opt.nthreads = r.pick({1, 1, 2, 3});
      opt.tasks_per_thread = r.integer(1, 2);
      opt.verbose = r.pick({LogLevel::kSilent, LogLevel::kOuter, LogLevel::kInner, LogLevel::kDebug});
      opt.header_frequency = r.integer(0, 4);
      opt.reset_duals = r.coin();
      if (r.coin(0.3)) opt.initial_penalty = 0.5;
      both([&](Rig<n_, m_>& g) { g.q().GetOptions() = opt; });
      log += "options ";
    } else if (op == 5) {
      custom = {0};
      for (int k = 1; k <= s.N; ++k)
        if (r.coin(0.4)) custom.push_back(k);
      custom.push_back(s.N + 1);
      both([&](Rig<n_, m_>& g) { g.q().SetTaskAssignment(custom); });
      log += "partition ";
    } else if (op == 6) {
      both([&](Rig<n_, m_>& g) { g.q().SolveSetup(); g.q().Rollout(); g.q().Cost(); });
      log += "setup ";
      ready = true;
    } else if (op == 7 && ready) {
      both([&](Rig<n_, m_>& g) { g.q().UpdateExpansions(); });
      log += "expand ";
      expanded = true;
    } else if (op == 8 && expanded) {
      both([&](Rig<n_, m_>& g) { g.q().BackwardPass(); });
      log += "backward ";
      gains = true;
    } else if (op == 9 && gains) {
      both([&](Rig<n_, m_>& g) { g.q().ForwardPass(); });
      log += "forward ";
    } else if (op == 10 && al) {
      double p = r.pick({2.0, 50.0}), f = r.pick({3.0, 20.0});
      both([&](Rig<n_, m_>& g) { g.as->SetPenalty(p); g.as->SetPenaltyScaling(f); g.as->PrintViolations(); });
      log += "penalty ";
    } else if (op == 11) {
      if (al) {
        if (ready) both([&](Rig<n_, m_>& g) { g.as->MaxViolation(); g.as->UpdateDuals(); g.as->UpdatePenalties(); });
        log += "duals ";
      } else {
        a.q().SetConstraintCallback([&calls_a] { return static_cast<double>(++calls_a); });
        b.q().SetConstraintCallback([&calls_b] { return static_cast<double>(++calls_b); });
        log += "callback ";
      }
    }
    if (r.coin(0.5)) move();
    auto where = [&] { return mon::sf(" al=%d after: ", al) + log + s.describe(); };
    std::string ta = state_text(a, true), tb = state_text(b, true);
    ctx.check(ta == tb, "solver", [&] { return "the moved solver differs from the original: " + first_difference(ta, tb) + where(); });
    ctx.check(out_a == out_b, "output", [&] { return "the moved solver printed something else: " + first_difference(out_a, out_b) + where(); });
    ctx.check(calls_a == calls_b, "callback", [&] { return mon::sf("callback called %ld and %ld times", calls_a, calls_b) + where(); });
    if (!custom.empty()) ctx.check(b.q().GetTaskAssignment() == custom, "partition", [&] { return "the custom partition is lost" + where(); });
    if (solved) ctx.check(a.q().GetTaskAssignment() == b.q().GetTaskAssignment() && a.q().NumTasks() == b.q().NumTasks(), "partition-used", where);
    ctx.count("solver_operations");
    if (ready) ctx.distinct(mon::hash_bytes(ta.data(), ta.size()));
  }
  if (ctx.want_sample()) ctx.sample(log + s.describe());
}

// A random script applied to statistics.
static void stats_script(uint64_t seed, SolverStats& s, std::string* out) {
  Rng r(seed);
  int n = r.integer(1, 25);
  for (int i = 0; i < n; ++i) {
    static const char* titles[] = {"cost", "viol", "dJ", "grad", "alpha", "reg", "z", "pen", "iters", "iter_al"};
    switch (r.integer(0, 8)) {
      case 0: s.NewIteration(); break;
      case 1: if (r.coin(0.15)) s.Reset(); break;
      case 2: s.SetVerbosity(r.pick({LogLevel::kSilent, LogLevel::kInner, LogLevel::kDebug})); break;
      case 3: if (r.coin(0.3)) s.SetTolerances(1e-3, 1e-2, 1e-1); break;
      case 4: *out += mon::capture([&] { s.PrintLast(); }); break;
      case 5: s.iterations_inner += r.integer(0, 2); s.iterations_total++; s.initial_cost = r.uni(); break;
      case 6: s.SetCapacity(r.integer(1, 200)); break;
      default: {
        const char* t = titles[r.integer(0, 9)];
        if (t[0] == 'i') s.Log(t, r.integer(0, 99));
        else s.Log(t, r.uni(-100, 100));
      }
    }
  }
  s.GetOptions().max_iterations_total = r.integer(1, 50);
  s.GetOptions().header_frequency = r.integer(0, 3);
}
static std::string table(SolverStats& s) {
  return mon::capture([&] {
    auto level = s.GetVerbosity();
    s.SetVerbosity(LogLevel::kDebug);
    s.GetLogger().PrintHeader();
    s.GetLogger().PrintData();
    s.SetVerbosity(level);
  });
}
static void stats(Rng& r, mon::Ctx& ctx) {
  uint64_t p = r.next(), q = r.next(), other = r.next();
  int how = r.integer(0, 3);
  bool destroy = r.coin();
  auto src = std::make_unique<SolverStats>();
  std::string o1, o2, o3;
  stats_script(p, *src, &o1);
  std::string before = hist_text(*src) + options_text(src->GetOptions()), before_table = table(*src);
  std::unique_ptr<SolverStats> dst;
  if (how == 0) dst = std::make_unique<SolverStats>(*src);
  if (how == 1) dst = std::make_unique<SolverStats>(std::move(*src));
  if (how >= 2) {
    dst = std::make_unique<SolverStats>();
    stats_script(other, *dst, &o3);
    if (how == 2) *dst = *src;
    else *dst = std::move(*src);
  }
  std::string got = hist_text(*dst) + options_text(dst->GetOptions());
  const char* name[] = {"copied", "moved", "copy-assigned", "move-assigned"};
  ctx.check(got == before && table(*dst) == before_table, "stats-equal", [&] { return mon::sf("%s statistics differ: ", name[how]) + first_difference(before, got); });
  bool copied = how == 0 || how == 2;
  if (destroy) src.reset();
  o2.clear();
  stats_script(q, *dst, &o2);
  SolverStats twin;
  std::string ignore, want;
  stats_script(p, twin, &ignore);
  stats_script(q, twin, &want);
  std::string a = hist_text(*dst), b = hist_text(twin);
  ctx.check(a == b, "stats-history", [&] { return mon::sf("%s statistics record something else: ", name[how]) + first_difference(b, a); });
  ctx.check(o2 == want && table(*dst) == table(twin), "stats-output", [&] { return mon::sf("%s statistics print something else: ", name[how]) + first_difference(want, o2); });
  if (copied && !destroy)
    ctx.check(hist_text(*src) + options_text(src->GetOptions()) == before && table(*src) == before_table, "stats-source", [&] { return mon::sf("using %s statistics changed their source", name[how]); });
  if (copied && !destroy) {  // and the other way around
    std::string now = hist_text(*dst), now_table = table(*dst), ig;
    stats_script(other, *src, &ig);
    ctx.check(hist_text(*dst) == now && table(*dst) == now_table, "stats-copy-follows", [&] { return mon::sf("using the source changed %s statistics", name[how]); });
  }
  ctx.count("stats_pairs");
}

static void logger_script(uint64_t seed, altro::SolverLogger& l, std::string* out) {
  Rng r(seed);
  int n = r.integer(2, 20);
  for (int i = 0; i < n; ++i) {
    int k = r.integer(0, 9);
    if (k == 0) {
      std::string t = mon::sf("t%d", l.NumEntries());
      l.AddEntry(r.coin() ? -1 : 0, t, std::string("{:.4g}")).SetWidth(r.integer(5, 12)).SetLevel(r.pick({LogLevel::kOuter, LogLevel::kInner}));
    } else if (k == 1) l.SetLevel(r.pick({LogLevel::kSilent, LogLevel::kOuter, LogLevel::kInner}));
    else if (k == 2) l.SetFrequency(r.integer(0, 4));
    else if (k == 3) l.SetHeaderColor(r.pick({fmt::color::cyan, fmt::color::red}));
    else if (k == 4 && r.coin(0.3)) l.Clear();
    else if (k <= 7 && l.NumEntries() > 0) l.Log(mon::sf("t%d", r.integer(0, l.NumEntries() - 1)), r.uni(-9, 9));
    else *out += mon::capture([&] { l.Print(); });
  }
}
static void loggers(Rng& r, mon::Ctx& ctx) {
  uint64_t p = r.next(), q = r.next(), other = r.next();
  int how = r.integer(0, 3);
  bool destroy = r.coin();
  auto src = std::make_unique<altro::SolverLogger>(LogLevel::kInner);
  std::string o, got, want, ig;
  logger_script(p, *src, &o);
  std::unique_ptr<altro::SolverLogger> dst;
  if (how == 0) dst = std::make_unique<altro::SolverLogger>(*src);
  if (how == 1) dst = std::make_unique<altro::SolverLogger>(std::move(*src));
  if (how >= 2) {
    dst = std::make_unique<altro::SolverLogger>();
    logger_script(other, *dst, &ig);
    if (how == 2) *dst = *src;
    else *dst = std::move(*src);
  }
  if (destroy) src.reset();
  logger_script(q, *dst, &got);
  altro::SolverLogger twin(LogLevel::kInner);
  logger_script(p, twin, &ig);
  logger_script(q, twin, &want);
  ctx.check(got == want, "logger", [&] { return mon::sf("a logger (%d) printed something else: ", how) + first_difference(want, got); });
  if (!destroy && (how == 0 || how == 2)) {
    altro::SolverLogger t2(LogLevel::kInner);
    std::string x, y;
    logger_script(p, t2, &ig);
    logger_script(other, t2, &x);
    logger_script(other, *src, &y);
    ctx.check(x == y, "logger-source", [&] { return "using a copy changed its source: " + first_difference(x, y); });
  }
  ctx.count("logger_pairs");
}

static std::string problem_text(altro::problem::Problem& p) {
  std::string t = mon::sf("N=%d defined=%d ncon=%d x0=", p.NumSegments(), p.IsFullyDefined(), p.NumConstraints()) + str(p.GetInitialState());
  for (int k = 0; k <= p.NumSegments(); ++k) {
    t += mon::sf(" [%d: %p %d", k, static_cast<void*>(p.GetCostFunction(k).get()), p.NumConstraints(k));
    for (auto& c : p.GetEqualityConstraints()[k]) t += mon::sf(" e%p", static_cast<void*>(c.get()));
    for (auto& c : p.GetInequalityConstraints()[k]) t += mon::sf(" i%p", static_cast<void*>(c.get()));
    if (k < p.NumSegments()) t += mon::sf(" d%p", static_cast<void*>(p.GetDynamics(k).get()));
    else t += mon::sf(" n%d m%d", p.GetDynamics(k)->StateDimension(), p.GetDynamics(k)->ControlDimension());
    t += "]";
  }
  return t;
}
static void problems(Rng& r, mon::Ctx& ctx) {
  using altro::problem::Problem;
  GenOpt o;
  o.Nmax = 8;
  o.maxcon = 3;
  Setup s = random_setup(r, o), s2 = random_setup(r, o);
  auto src = std::make_unique<Problem>(*s.prob);  // also checks a copy of a copy
  const std::string want = problem_text(*s.prob);
  ctx.check(problem_text(*src) == want, "problem", [&] { return "a copied problem differs: " + first_difference(want, problem_text(*src)); });
  int how = r.integer(0, 3);
  const char* name[] = {"copied", "moved", "copy-assigned", "move-assigned"};
  std::unique_ptr<Problem> dst;
  if (how == 0) dst = std::make_unique<Problem>(*src);
  if (how == 1) dst = std::make_unique<Problem>(std::move(*src));
  if (how >= 2) {
    dst = std::make_unique<Problem>(*s2.prob);
    if (how == 2) *dst = *src;
    else *dst = std::move(*src);
  }
  ctx.check(problem_text(*dst) == want, "problem", [&] { return mon::sf("a %s problem differs: ", name[how]) + first_difference(want, problem_text(*dst)); });
  if (how == 0 || how == 2) {
    VectorXd other = rvec(r, s.n, 5);
    dst->SetInitialState(other);
    dst->SetCostFunction(s2.costs[0], 0);
    if (s.cons[0].size()) dst->SetConstraint(std::make_shared<Con<altro::constraints::Inequality>>(s.cons[0][0]), r.integer(0, s.N));
    ctx.check(problem_text(*src) == want, "problem-source", [&] { return mon::sf("changing a %s problem changed its source: ", name[how]) + first_difference(want, problem_text(*src)); });
    ctx.check(bits(dst->GetInitialState(), other) && dst->GetCostFunction(0) == s2.costs[0], "problem-copy-set", "");
    src->SetInitialState(rvec(r, s.n, 5));
    ctx.check(bits(dst->GetInitialState(), other), "problem-copy-follows", "changing the source changed its copy");
  } else {
    src.reset();
    ctx.check(problem_text(*dst) == want, "problem-moved", [&] { return "the moved problem changed when its source was destroyed"; });
    // and solves the same
    Rig<-1, -1> g;
    g.s = s;
    iLQR<-1, -1> q1(*s.prob), q2(*dst);
    auto Z1 = s.guess<-1, -1>(), Z2 = s.guess<-1, -1>();
    q1.SetTrajectory(Z1);
    q2.SetTrajectory(Z2);
    q1.GetOptions().max_iterations_inner = q2.GetOptions().max_iterations_inner = 5;
    q1.Solve();
    q2.Solve();
    ctx.check(Snapshot::of(*Z1).same(Snapshot::of(*Z2)), "problem-solve", "solving the moved problem gives something else");
  }
  ctx.count("problem_pairs");
}

template <int n_, int m_>
static void containers(Rng& r, mon::Ctx& ctx, int n, int m) {
  using Traj = altro::Trajectory<n_, m_>;
  using Knot = altro::KnotPoint<n_, m_>;
  int N = r.integer(1, 6), N2 = r.integer(1, 6);
  auto fill = [&](Traj& Z, int len) {
    for (int k = 0; k <= len; ++k) {
      Z.State(k) = rvec(r, n);
      Z.Control(k) = rvec(r, m);
      Z.SetTime(k, static_cast<float>(r.uni()));
      Z.SetStep(k, static_cast<float>(r.uni()));
    }
  };
  auto src = std::make_unique<Traj>(n, m, N);
  fill(*src, N);
  Snapshot want = Snapshot::of(*src);
  int how = r.integer(0, 3);
  std::unique_ptr<Traj> dst;
  if (how == 0) dst = std::make_unique<Traj>(*src);
  if (how == 1) dst = std::make_unique<Traj>(std::move(*src));
  if (how >= 2) {
    dst = std::make_unique<Traj>(n, m, N2);
    fill(*dst, N2);
    if (how == 2) *dst = *src;
    else *dst = std::move(*src);
  }
  ctx.check(dst->NumSegments() == N && Snapshot::of(*dst).same(want), "trajectory", "a copied or moved trajectory differs");
  for (int k = 0; k <= N; ++k) ctx.check(dst->StateDimension(k) == n && dst->ControlDimension(k) == m, "trajectory-dims", "");
  if (how == 0 || how == 2) {
    fill(*dst, N);
    dst->SetZero();
    ctx.check(Snapshot::of(*src).same(want), "trajectory-source", "changing a copied trajectory changed its source");
  }
  // knot points
  Knot a(n, m), b(n, m);
  a.State() = rvec(r, n), a.Control() = rvec(r, m), a.SetTime(0.25f), a.SetStep(0.125f);
  b.State() = rvec(r, n), b.Control() = rvec(r, m), b.SetTime(4), b.SetStep(5);
  VectorXd ax = a.State(), au = a.Control();
  auto same = [&](const Knot& z) { return bits(VectorXd(z.State()), ax) && bits(VectorXd(z.Control()), au) && z.GetTime() == 0.25f && z.GetStep() == 0.125f && z.StateDimension() == n && z.ControlDimension() == m; };
  Knot c(a);
  b = a;
  altro::KnotPoint<-1, -1> d(a);
  Knot e(d);
  ctx.check(same(c) && same(b) && same(e), "knotpoint-copy", "a copied knot point differs");
  c.State().setZero(), c.Control().setConstant(3), c.SetTime(9), c.SetStep(8);
  ctx.check(same(a) && same(b), "knotpoint-source", "changing a copy changed its source");
  Knot f(std::move(b)), g(n, m);
  g = std::move(e);
  ctx.check(same(f) && same(g), "knotpoint-move", "a moved knot point differs");
  if (n_ <= 0 && m_ <= 0) {  // assigned over one of other dimensions
    int n2 = r.integer(1, 6), m2 = r.integer(1, 4);
    Knot h(n2, m2), i(n2, m2);
    h = a;
    Knot from(a);
    i = std::move(from);
    ctx.check(same(h) && same(i) && same(a), "knotpoint-dimensions", "a knot point assigned over one of other dimensions differs from the source");
    ctx.check(h.GetStateControl().size() == n + m && i.GetStateControl().size() == n + m, "knotpoint-dimensions", "");
  }
  // expansions
  altro::ilqr::CostExpansion<n_, m_> x(n, m), y(n, m);
  x.dxdx() = rmat(r, n, n), x.dxdu() = rmat(r, n, m), x.dudu() = rmat(r, m, m), x.dx() = rvec(r, n), x.du() = rvec(r, m);
  MatrixXd xx = x.dxdx(), xu = x.dxdu(), uu = x.dudu();
  VectorXd gx = x.dx(), gu = x.du();
  auto eq = [&](const altro::ilqr::CostExpansion<n_, m_>& z) {
    return bits(MatrixXd(z.dxdx()), xx) && bits(MatrixXd(z.dxdu()), xu) && bits(MatrixXd(z.dudu()), uu) && bits(VectorXd(z.dx()), gx) && bits(VectorXd(z.du()), gu) && z.StateDimension() == n && z.ControlDimension() == m;
  };
  altro::ilqr::CostExpansion<n_, m_> z(x);
  y = x;
  ctx.check(eq(z) && eq(y), "expansion-copy", "a copied cost expansion differs");
  z.SetZero();
  ctx.check(eq(x) && eq(y), "expansion-source", "changing a copy changed its source");
  altro::ilqr::CostExpansion<n_, m_> v(std::move(y)), w(n, m);
  w = std::move(x);
  ctx.check(eq(v) && eq(w), "expansion-move", "a moved cost expansion differs");
  ctx.count("containers");
}
#ifdef STATIC_UNIT
void static_case(Rng& r, mon::Ctx& ctx) {
  if (r.coin(0.6)) solvers<3, 2>(r, ctx, 3, 2);
  else containers<3, 2>(r, ctx, 3, 2);
}
#else
void static_case(Rng& r, mon::Ctx& ctx);
static void run(Rng& r, mon::Ctx& ctx) {
  int k = r.integer(0, 99);
  if (k < 15) return static_case(r, ctx);
  if (k < 50) return solvers<-1, -1>(r, ctx);
  if (k < 70) return stats(r, ctx);
  if (k < 80) return loggers(r, ctx);
  if (k < 90) return problems(r, ctx);
  containers<-1, -1>(r, ctx, r.integer(1, 6), r.integer(1, 4));
}
MON_MAIN(run)
#endif
