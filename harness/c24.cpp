// C24: solve statistics are a faithful per-iteration history.
#include <array>
#include "solve.hpp"
#include "table.hpp"
using namespace gen;
using altro::SolverStats;
using altro::augmented_lagrangian::AugmentedLagrangianiLQR;
using altro::ilqr::iLQR;

static const char* kTitles[8] = {"cost", "alpha", "z", "grad", "dJ", "reg", "viol", "pen"};
static std::array<const std::vector<double>*, 8> series(const SolverStats& s) {
  return {{&s.cost, &s.alpha, &s.improvement_ratio, &s.gradient, &s.cost_decrease, &s.regularization, &s.violations, &s.max_penalty}};
}
static bool equal(double a, double b) { return memcmp(&a, &b, sizeof a) == 0 || (std::isnan(a) && std::isnan(b)); }
static bool equal(const std::vector<double>& a, const std::vector<double>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (!equal(a[i], b[i])) return false;
  return true;
}
static std::string text(const std::vector<double>& v) {
  std::string s;
  for (size_t i = 0; i < v.size() && i < 12; ++i) s += mon::sf("%.6g ", v[i]);
  return mon::sf("(%zu) ", v.size()) + s;
}

// ---- a statistics object by itself -------------------------------------------------------------
struct Ref {
  std::vector<double> h[8];
  int len = 0;
  void advance() {
    ++len;
    for (auto& v : h) v.push_back(len > 1 ? v.back() : 0.0);
  }
  void log(int which, double v) {
    if (len == 0) advance();
    if (which >= 0) h[which].back() = v;
  }
};
static double value(Rng& r) {
  int k = r.integer(0, 9);
  if (k == 0) return 0.0;
  if (k == 1) return r.pick({double(INFINITY), -double(INFINITY), double(NAN), 1e300, -1e-300, -0.0});
  return r.gauss() * std::pow(10.0, r.integer(-8, 8));
}
static void unit(Rng& r, mon::Ctx& ctx) {
  SolverStats s, twin;  // the twin differs in verbosity, capacity and printing only
  Ref ref;
  int level = r.integer(0, 5);
  s.GetOptions().verbose = altro::LogLevel(level);
  twin.GetOptions().verbose = altro::LogLevel(r.integer(0, 5));
  auto table = table::stats_columns();
  table::Text want;
  std::string printed;
  int inner = 0, outer = 0, total = 0, freq = 10;
  double ic = 0;
  int n = r.integer(1, 150);
  std::string script;
  for (int i = 0; i < n; ++i) {
    int what = r.integer(0, 99);
    if (what < 45) {
      int j = r.integer(0, 7);
      double v = value(r);
      script += kTitles[j][0];
      s.Log(kTitles[j], v);
      twin.Log(kTitles[j], v);
      ref.log(j, v);
      table.log(kTitles[j], v);
    } else if (what < 55) {
      const char* t = r.pick({"iters", "iter_al"});
      int v = r.integer(-3, 2000);
      script += 'i';
      s.Log(t, v);
      twin.Log(t, v);
      ref.log(-1, v);
      table.log(t, v);
    } else if (what < 75) {
      script += 'N';
      s.NewIteration();
      twin.NewIteration();
      ref.advance();
      ctx.count("iterations");
    } else if (what < 78) {
      int m = r.integer(0, 400), k = r.integer(0, 400);
      script += 'C';
      s.SetCapacity(m);
      twin.SetCapacity(k);
    } else if (what < 82) {
      level = r.integer(0, 5);
      script += 'V';
      s.SetVerbosity(altro::LogLevel(level));
      table.level = level;
      ctx.check(s.GetVerbosity() == altro::LogLevel(level), "verbosity", "the verbosity is not the one that was set");
    } else if (what < 90) {
      script += 'P';
      printed += mon::capture([&] { s.PrintLast(); });
      table.print(&want);
      ctx.count("rows");
    } else if (what < 94) {
      script += 'c';
      inner += r.integer(0, 3), outer += r.integer(0, 2), total += r.integer(0, 3), ic = r.gauss();
      for (auto* p : {&s, &twin}) p->iterations_inner = inner, p->iterations_outer = outer, p->iterations_total = total, p->initial_cost = ic;
    } else if (what < 97) {
      script += 'o';
      level = r.integer(0, 5);
      freq = r.integer(0, 5);
      s.GetOptions().verbose = altro::LogLevel(level);
      s.GetOptions().header_frequency = freq;
      s.GetOptions().max_iterations_total = r.integer(0, 300);
    } else {
      script += 'R';
      s.Reset();
      twin.Reset();
      ref = Ref();
      inner = outer = total = 0;
      ic = 0;
      table.clear();
      table.level = static_cast<int>(s.GetOptions().verbose);
      table.freq = table.level < 3 ? s.GetOptions().header_frequency : std::numeric_limits<int>::max();
      ctx.count("resets");
    }
    auto a = series(s), b = series(twin);
    for (int j = 0; j < 8; ++j) {
      if (!ctx.check(equal(*a[j], ref.h[j]), "history", [&] {
            return mon::sf("after %s the history of %s is ", script.c_str(), kTitles[j]) + text(*a[j]) + " instead of " + text(ref.h[j]);
          })) return;
      if (!ctx.check(equal(*b[j], *a[j]), "settings", [&] { return mon::sf("after %s verbosity or capacity changed the history of %s", script.c_str(), kTitles[j]); })) return;
    }
    ctx.check(s.iterations_inner == inner && s.iterations_outer == outer && s.iterations_total == total && equal(s.initial_cost, ic), "counters", [&] {
      return mon::sf("after %s the counters are %d %d %d %g", script.c_str(), s.iterations_inner, s.iterations_outer, s.iterations_total, s.initial_cost);
    });
  }
  auto d = table::difference(want, table::parse(printed), false);
  ctx.check(d.empty(), "row", [&] { return "after " + script + " " + d; });
  ctx.count("unit_cases");
  ctx.distinct(mon::hash_bytes(script.data(), script.size()));
}

// ---- solves ------------------------------------------------------------------------------------
struct Outcome {
  std::vector<double> h[8];
  int inner, outer, total, status;
  double ic;
  uint64_t traj;
  std::string printed;
};
template <int n_, int m_>
static void solve(Rng& r, mon::Ctx& ctx) {
  uint64_t seed = r.next();
  bool al = r.coin(0.6);
  int rounds = r.integer(1, 3);
  int first_level = r.integer(0, 5);
  int nlevels = r.integer(1, 3);
  Outcome base;
  std::string what;
  for (int rep = 0; rep < nlevels; ++rep) {
    Rng q(seed);
    int level = (first_level + rep * 2 + (rep ? r.integer(0, 1) : 0)) % 6;
    GenOpt o;
    o.nonlin = q.coin();
    o.cost = q.pick({kQuad, kSmooth, kNonconvex});
    o.Nmax = 8;
    o.maxcon = al ? 2 : 0;
    o.affine_only = q.coin();
    o.feasible = q.coin(0.7);
    Setup s = random_setup(q, o, n_ > 0 ? n_ : 0, m_ > 0 ? m_ : 0);
    s.build();
    std::unique_ptr<iLQR<n_, m_>> il;
    std::unique_ptr<AugmentedLagrangianiLQR<n_, m_>> as;
    if (al) as = std::make_unique<AugmentedLagrangianiLQR<n_, m_>>(*s.prob);
    else il = std::make_unique<iLQR<n_, m_>>(*s.prob);
    auto& solver = al ? as->GetiLQRSolver() : *il;
    auto& opt = solver.GetOptions();
    vary_options(q, &opt);
    if (q.coin(0.3)) opt.max_iterations_inner = q.integer(1, 8);
    if (q.coin(0.2)) opt.bp_reg_max = q.pick({1e-3, 0.1}), opt.bp_reg_fail_threshold = q.pick({1, 3});
    opt.header_frequency = q.integer(0, 4);
    opt.verbose = altro::LogLevel(level);
    auto Z = s.template guess<n_, m_>();
    if (al) as->SetTrajectory(Z);
    else il->SetTrajectory(Z);
    auto& st = solver.GetStats();
    what = (al ? "AL " : "iLQR ") + s.describe();
    table::Model table = table::columns_of(st.GetLogger());
    if (!al) table.freq = 10;
    int total_before = 0, outer_runs = 0;
    std::vector<double> viol;                    // the value handed to the solver at each iteration
    std::vector<std::vector<double>> frozen(8);  // completed entries, as first seen
    std::vector<std::pair<int, int>> iter;       // per iteration: outer run, first of it
    std::vector<double> penalty;                 // in force at each iteration
    double pen0 = 0;
    int last = -1;
    double serial = q.uni(1, 2);
    auto seen = [&](bool end) {
      // the entry of the current iteration is the last one, everything before is complete
      auto h = series(st);
      size_t len = h[0]->size();
      for (int j = 0; j < 8; ++j) {
        ctx.check(h[j]->size() == len, "length", [&] { return mon::sf("%zu entries of %s but %zu of %s; ", h[j]->size(), kTitles[j], len, kTitles[0]) + what; });
        for (size_t i = 0; i < frozen[j].size() && i < h[j]->size(); ++i)
          if (!equal((*h[j])[i], frozen[j][i])) {
            ctx.check(false, "rewritten", [&] { return mon::sf("entry %zu of %s changed from %.9g to %.9g after its iteration; ", i, kTitles[j], frozen[j][i], (*h[j])[i]) + what; });
            return;
          }
        for (size_t i = frozen[j].size(); i + 1 < h[j]->size(); ++i) frozen[j].push_back((*h[j])[i]);
      }
      ctx.check(end ? iter.empty() || len == iter.size() + 1 : len == iter.size(), "one-per-iteration", [&] {
        return mon::sf("%zu entries after %zu iterations%s; ", len, iter.size(), end ? " at the end" : "") + what;
      });
    };
    auto callback = [&]() -> double {
      bool first = last < 0 || st.iterations_inner <= last;
      last = st.iterations_inner;
      if (first) ++outer_runs;
      iter.push_back({outer_runs - 1, first});
      if (al) penalty.push_back(as->GetMaxPenalty());
      seen(false);
      // with constraints the solver needs the true violation to go on as usual
      viol.push_back(al ? as->GetMaxViolation() : serial + static_cast<double>(viol.size()));
      return viol.back();
    };
    std::string printed;
    table::Text want;
    size_t done = 0;
    for (int round = 0; round < rounds; ++round) {
      if (round) {
        for (int k = 0; k < s.N; ++k) Z->Control(k) = rvec(q, s.m, 0.8);
        if (q.coin(0.3)) opt.header_frequency = q.integer(0, 4);
        opt.verbose = altro::LogLevel(level);
      }
      solver.SetConstraintCallback(callback);
      bool reset = al || (round && q.coin());
      if (reset) {
        iter.clear(), viol.clear(), penalty.clear();
        for (auto& v : frozen) v.clear();
        total_before = 0;
        done = 0;
        if (!al) st.Reset();
        table.clear();
        table.level = level;
        table.freq = level < 3 ? opt.header_frequency : std::numeric_limits<int>::max();
      }
      outer_runs = 0;
      last = -1;
      total_before = st.iterations_total * (al ? 0 : 1);
      table.level = level;
      double viol0 = 0;
      if (al) {
        // the values logged before the first iteration
        if (opt.initial_penalty <= 0) pen0 = as->GetMaxPenalty();
        else pen0 = s.ncon() ? opt.initial_penalty : as->GetMaxPenalty();
        (void)viol0;
      }
      printed += mon::capture([&] {
        if (al) as->Solve();
        else il->Solve();
      });
      auto status = al ? as->GetStatus() : il->GetStatus();
      ctx.count(std::string("status_") + status_name(status));
      seen(true);
      int made = static_cast<int>(iter.size());
      ctx.count("iterations_watched", made - done);
      // counters
      ctx.check(st.iterations_total == made, "total", [&] { return mon::sf("%d iterations in the counter, %d made; ", st.iterations_total, made) + what; });
      bool bp = solver.GetStatus() == altro::SolverStatus::kBackwardPassRegularizationFailed;
      if (al) {
        int runs = outer_runs;
        ctx.check(st.iterations_outer == runs || (bp && st.iterations_outer == runs + 1), "outer", [&] {
          return mon::sf("%d outer iterations in the counter, %d made; ", st.iterations_outer, runs) + what;
        });
      } else {
        ctx.check(st.iterations_outer == 0, "outer", "outer iterations counted without an outer loop");
      }
      auto h = series(st);
      // what each iteration handed over
      for (int i = 0; i < made; ++i) {
        ctx.check(equal(st.violations[i], viol[i]), "violations", [&] {
          return mon::sf("violation %d recorded as %.9g, the callback returned %.9g; ", i, st.violations[i], viol[i]) + what;
        });
        if (al) {
          // the penalty column is refreshed at the end of each outer iteration
          int j = i;
          while (j > 0 && iter[j].first == iter[i].first) --j;
          double expect = iter[i].first == 0 ? pen0 : penalty[j];
          ctx.check(equal(st.max_penalty[i], expect), "penalties", [&] {
            return mon::sf("penalty %d recorded as %.9g, the last value logged is %.9g; ", i, st.max_penalty[i], expect) + what;
          });
        }
      }
      if (al && st.iterations_outer > 0) {
        ctx.check(equal(st.violations.back(), as->GetMaxViolation()), "final-violation", "the last recorded violation is not that of the returned trajectory");
        ctx.check(equal(st.max_penalty.back(), as->GetMaxPenalty()), "final-penalty", "the last recorded penalty is not the one the solver holds");
      }
      // the printed table
      auto row = [&](size_t i) {
        table.log("iters", static_cast<int>(i) + 1);
        table.log("cost", st.cost[i]);
        table.log("viol", st.violations[i]);
        table.log("dJ", st.cost_decrease[i]);
        table.log("grad", st.gradient[i]);
        table.log("reg", st.regularization[i]);
        if (st.alpha[i] != 0) {  // logged at least once
          table.log("alpha", st.alpha[i]);
          table.log("z", st.improvement_ratio[i]);
        }
        if (al) table.log("pen", st.max_penalty[i]);
      };
      if (al) {
        table.log("iter_al", 0);
        size_t i = 0;
        int runs = st.iterations_outer;
        for (int run = 0; run < runs; ++run) {
          for (; i < iter.size() && iter[i].first == run; ++i) {
            row(i);
            if (level >= 3) table.print(&want);
          }
          table.log("iter_al", run + 1);
          if (level < 3) table.print(&want);
          else if (run + 1 < runs) table.print_header(&want);
        }
      } else {
        for (size_t i = done; i < iter.size(); ++i) {
          row(i);
          if (level >= 3) table.print(&want);
        }
      }
      done = iter.size();
    }
    auto d = table::difference(want, table::parse(printed), false);
    ctx.check(d.empty(), "table", [&] { return mon::sf("verbosity %d: ", level) + d + "; " + what; });
    ctx.count(mon::sf("solves_level_%d", level), rounds);
    Outcome out;
    auto h = series(st);
    for (int j = 0; j < 8; ++j) out.h[j] = *h[j];
    out.inner = st.iterations_inner, out.outer = st.iterations_outer, out.total = st.iterations_total, out.ic = st.initial_cost;
    out.status = static_cast<int>(al ? as->GetStatus() : il->GetStatus());
    out.traj = 7;
    for (int k = 0; k <= s.N; ++k) {
      VectorXd x = Z->State(k), u = Z->Control(k);
      out.traj = mon::hash_bytes(x.data(), x.size() * 8, out.traj);
      out.traj = mon::hash_bytes(u.data(), u.size() * 8, out.traj);
    }
    ctx.distinct(out.traj);
    if (rep == 0) base = out;
    else {
      bool same = out.inner == base.inner && out.outer == base.outer && out.total == base.total && equal(out.ic, base.ic) && out.status == base.status && out.traj == base.traj;
      for (int j = 0; j < 8; ++j) same = same && equal(out.h[j], base.h[j]);
      ctx.check(same, "verbosity-matters", [&] { return mon::sf("the result or the history differ between verbosity %d and %d; ", first_level, level) + what; });
      ctx.count("twins");
    }
    if (ctx.want_sample()) ctx.sample(what + mon::sf(", verbosity %d: %d iterations, table of %zu characters", level, out.total, want.s.size()));
  }
}
#ifdef STATIC_UNIT
void static_solve(Rng& r, mon::Ctx& ctx) { solve<3, 2>(r, ctx); }
#else
void static_solve(Rng& r, mon::Ctx& ctx);
static void run(Rng& r, mon::Ctx& ctx) {
  for (int i = 0; i < 3; ++i) unit(r, ctx);
  if (r.coin(0.2)) static_solve(r, ctx);
  else solve<Eigen::Dynamic, Eigen::Dynamic>(r, ctx);
}
MON_MAIN(run)
#endif
