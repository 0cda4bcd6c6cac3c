// C09: multipliers and penalties follow the augmented Lagrangian schedule over whole solves, and the reset options.
#include "solve.hpp"
using namespace gen;
using altro::augmented_lagrangian::AugmentedLagrangianiLQR;
using namespace altro::constraints;
using Duals = std::vector<std::vector<VectorXd>>;

template <int n_, int m_>
static void schedule(Rng& r, mon::Ctx& ctx, int n = 0, int m = 0) {
  using AL = AugmentedLagrangianiLQR<n_, m_>;
  GenOpt o;
  o.nonlin = r.coin(0.3);
  o.cost = r.pick({kQuad, kQuad, kSmooth, kNonconvex});
  o.Nmax = 10;
  o.maxcon = r.integer(1, 3);
  o.affine_only = r.coin();
  o.feasible = r.coin(0.8);
  o.eq_prob = 0.35;
  Setup s = random_setup(r, o, n, m);
  bool limits = r.coin(0.1);
  auto al = std::make_unique<AL>(*s.prob);
  altro::SolverOptions opt;
  vary_options(r, &opt);
  opt.max_iterations_inner = std::min(opt.max_iterations_inner, 40);
  opt.constraint_tolerance = r.pick({1e-4, 1e-6, 1e-2});
  if (limits) opt.control_max = r.uni(0.3, 2);
  opt.nthreads = r.coin(0.2) ? 2 : 1;
  auto Z = s.guess<n_, m_>();
  al->SetTrajectory(Z);
  auto& st = al->GetStats();

  // growth factors: default 10, for all, or per constraint
  std::vector<std::vector<double>> phi(s.N + 1);
  for (int k = 0; k <= s.N; ++k) phi[k].assign(s.cons[k].size(), 10.0);
  auto neq = [&](int k) {
    int c = 0;
    for (auto& d : s.cons[k]) c += d.eq;
    return c;
  };
  auto set_scaling = [&] {
    int how = r.integer(0, 3);
    if (how == 1) {
      double f = r.pick({1.0, 1.5, 2.0, 5.0, 20.0});
      al->SetPenaltyScaling(f);
      for (auto& v : phi)
        for (double& x : v) x = f;
    } else if (how == 2) {
      for (int k = 0; k <= s.N; ++k) {
        double f = r.uni(1, 8), g = r.uni(1, 8);
        al->GetALCost(k)->template SetPenaltyScaling<Equality>(f);
        al->GetALCost(k)->template SetPenaltyScaling<Inequality>(g);
        for (size_t i = 0; i < s.cons[k].size(); ++i) phi[k][i] = s.cons[k][i].eq ? f : g;
      }
    } else if (how == 3) {
      for (int k = 0; k <= s.N; ++k)
        for (size_t i = 0; i < s.cons[k].size(); ++i)
          if (r.coin()) {
            phi[k][i] = r.uni(1, 12);
            if (s.cons[k][i].eq) al->GetALCost(k)->template SetPenaltyScaling<Equality>(phi[k][i], i);
            else al->GetALCost(k)->template SetPenaltyScaling<Inequality>(phi[k][i], i - neq(k));
          }
    }
  };
  Duals lam, pen, l, p;
  read_duals(*al, s.N, &lam, &pen);
  for (int k = 0; k <= s.N; ++k)
    for (size_t i = 0; i < s.cons[k].size(); ++i) {
      ctx.check(lam[k][i].size() == s.cons[k][i].p && lam[k][i].isZero(0), "fresh-duals", "multipliers of a fresh solver are not zero");
      ctx.check(pen[k][i].size() == s.cons[k][i].p && pen[k][i].isConstant(1.0, 0), "fresh-penalties", "penalties of a fresh solver are not one");
    }
  auto same = [&](const Duals& a, const Duals& b, double tol) {
    for (int k = 0; k <= s.N; ++k)
      for (size_t i = 0; i < s.cons[k].size(); ++i)
        for (int j = 0; j < s.cons[k][i].p; ++j)
          if (!gen::close(a[k][i](j), b[k][i](j), tol, tol)) return false;
    return true;
  };
  auto show = [&](const Duals& a, const Duals& b) {
    for (int k = 0; k <= s.N; ++k)
      for (size_t i = 0; i < s.cons[k].size(); ++i)
        if (!mclose(a[k][i], b[k][i], 1e-9, 1e-12))
          return mon::sf("knot point %d constraint %zu (%s): %s, expected %s", k, i, s.cons[k][i].eq ? "equality" : "inequality", str(a[k][i]).c_str(), str(b[k][i]).c_str());
    return std::string("?");
  };
  int rounds = r.integer(1, 4);
  for (int round = 0; round < rounds; ++round) {
    set_scaling();
    if (round) {
      if (r.coin(0.6)) opt.reset_duals = r.coin();
      if (r.coin(0.6)) opt.initial_penalty = r.pick({0.0, 1.0, 7.0, 500.0});
      if (r.coin()) {
        for (int k = 0; k < s.N; ++k) Z->Control(k) = rvec(r, s.m, 0.8);
        s.fill(*Z);
      }
    } else if (r.coin(0.2)) {
      opt.reset_duals = false;
    }
    if (r.coin(0.25)) {  // the user's own warm start
      double rho = r.uni(0.5, 50);
      al->SetPenalty(rho);
      for (int k = 0; k <= s.N; ++k) {
        auto c = al->GetALCost(k);
        for (auto& v : c->GetEqualityConstraints()) v->GetDuals() = rvec(r, v->OutputDimension(), 2);
        for (auto& v : c->GetInequalityConstraints()) v->GetDuals() = -rvec(r, v->OutputDimension(), 2).cwiseAbs();
      }
      ctx.count("warm_starts");
    }
    al->GetOptions() = opt;
    Duals lam0, pen0;
    read_duals(*al, s.N, &lam0, &pen0);
    Duals elam = lam0, epen = pen0;  // expected at the first iteration
    for (int k = 0; k <= s.N; ++k)
      for (size_t i = 0; i < s.cons[k].size(); ++i) {
        if (opt.reset_duals) elam[k][i].setZero();
        if (opt.initial_penalty > 0) epen[k][i].setConstant(opt.initial_penalty);
      }
    if (!opt.reset_duals) ctx.count("duals_kept");
    if (opt.initial_penalty == 0) ctx.count("penalties_kept");
    int outer = 0;  // inner solves seen through their first iteration
    Snapshot at_end;
    auto advance = [&](const Snapshot& Y, bool grow) {
      for (int k = 0; k <= s.N; ++k)
        for (size_t i = 0; i < s.cons[k].size(); ++i) {
          auto& d = s.cons[k][i];
          VectorXd c = d.val(Y.X[k], Y.U[k]);
          for (int j = 0; j < d.p; ++j) {
            double z = elam[k][i](j) - epen[k][i](j) * c(j);
            elam[k][i](j) = d.eq ? z : z < 0 ? z : 0.0;
          }
          if (grow) epen[k][i] *= phi[k][i];
        }
    };
    auto compare = [&](const char* when) {
      read_duals(*al, s.N, &l, &p);
      double big = 1;
      for (auto& v : epen)
        for (auto& q : v) big = std::max(big, q.size() ? q(0) : 0.0);
      // multipliers are differences of products with the penalty
      ctx.check(same(l, elam, 1e-9 + 1e-14 * big), "duals", [&] { return std::string(when) + " of outer iteration " + std::to_string(outer) + ", multiplier at " + show(l, elam); });
      ctx.check(same(p, epen, 1e-12), "penalties", [&] { return std::string(when) + " of outer iteration " + std::to_string(outer) + ", penalty at " + show(p, epen); });
      for (int k = 0; k <= s.N; ++k)
        for (size_t i = 0; i < s.cons[k].size(); ++i)
          if (!s.cons[k][i].eq && (outer > 1 || opt.reset_duals))
            ctx.check((l[k][i].array() <= 0).all(), "dual-sign", [&] { return mon::sf("inequality multiplier %s has the wrong sign", str(l[k][i]).c_str()); });
      elam = l;  // keep rounding from accumulating
      epen = p;
      double mx = 0;
      for (auto& v : p)
        for (auto& q : v) mx = std::max(mx, q.maxCoeff());
      ctx.check(al->GetMaxPenalty() == mx, "max-penalty", "the reported maximum penalty is not the maximum");
    };
    Watch<n_, m_> w;
    w.on_iteration = [&] {
      if (w.first) {
        if (outer > 0) advance(at_end, true);
        ++outer;
        compare("at the start");
        ctx.count("outer_iterations");
      } else {
        read_duals(*al, s.N, &l, &p);
        ctx.check(same(l, elam, 0) && same(p, epen, 0), "inner-change", "multipliers or penalties changed during an inner solve");
      }
      at_end = Snapshot::of(*Z);
    };
    w.attach(*al);
    al->Solve();
    auto status = al->GetStatus();
    ctx.count(std::string("status_") + status_name(status));
    // The last inner solve may have failed before its first iteration; then its schedule step was not seen above.
    if (st.iterations_outer > outer && outer > 0) advance(at_end, true);
    outer = st.iterations_outer;
    Snapshot fin = Snapshot::of(*Z);
    if (outer > 0 && fin.finite()) {
      advance(fin, false);
      compare("after the end");
      ctx.count("ends_checked");
    }
    // UpdateDuals and UpdatePenalties called by the user do the same step
    if (r.coin(0.3) && fin.finite()) {
      al->MaxViolation();
      advance(fin, false);
      al->UpdateDuals();
      compare("after a manual dual update");
      for (int k = 0; k <= s.N; ++k)
        for (size_t i = 0; i < s.cons[k].size(); ++i) epen[k][i] *= phi[k][i];
      al->UpdatePenalties();
      compare("after a manual penalty update");
      if (r.coin(0.3)) {
        al->ResetDualVariables();
        for (auto& v : elam)
          for (auto& q : v) q.setZero();
        compare("after a manual reset");
      }
      ctx.count("manual_updates");
    }
    for (int k = 0; k <= s.N; ++k)
      for (size_t i = 0; i < s.cons[k].size(); ++i) ctx.distinct(mon::hash_bytes(elam[k][i].data(), 8 * elam[k][i].size()));
    if (ctx.want_sample())
      ctx.sample(mon::sf("%s: %s after %d outer iterations, reset_duals=%d initial_penalty=%g", s.describe().c_str(), status_name(status), outer,
                         opt.reset_duals, opt.initial_penalty));
  }
}
#ifdef STATIC_UNIT
void static_case(Rng& r, mon::Ctx& ctx) { schedule<3, 2>(r, ctx, 3, 2); }
#else
void static_case(Rng& r, mon::Ctx& ctx);
static void run(Rng& r, mon::Ctx& ctx) {
  if (r.coin(0.15)) return static_case(r, ctx);
  schedule<-1, -1>(r, ctx);
}
MON_MAIN(run)
#endif
