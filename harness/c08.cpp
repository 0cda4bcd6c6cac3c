// C08: value, gradient and Hessian of the augmented Lagrangian cost, and the cone projections below them.
#include "solve.hpp"
using namespace gen;
using altro::augmented_lagrangian::AugmentedLagrangianiLQR;
using altro::augmented_lagrangian::ALCost;
using namespace altro::constraints;

// user's cost + own augmented Lagrangian terms
struct Own {
  double J = 0, scale = 0;
  VectorXd dx, du;
  MatrixXd xx, xu, uu;
  bool at_kink = false;
};
static Own reference(const CostData& cd, const std::vector<ConData>& cons, const std::vector<VectorXd>& lam, const std::vector<double>& rho, const VectorXd& x,
              const VectorXd& u) {
  Own o;
  o.J = cd.val(x, u);
  o.scale = std::abs(o.J);
  cd.grad(x, u, &o.dx, &o.du);
  cd.hess(x, u, &o.xx, &o.xu, &o.uu);
  int n = cd.n, m = cd.m;
  for (size_t i = 0; i < cons.size(); ++i) {
    const ConData& d = cons[i];
    VectorXd c = d.val(x, u);
    MatrixXd Jc = d.jac(x, u);
    for (int j = 0; j < d.p; ++j) {
      double z = lam[i](j) - rho[i] * c(j);
      bool active = d.eq || z < 0;
      if (!d.eq && std::abs(z) < 1e-9 * (1 + std::abs(lam[i](j)))) o.at_kink = true;
      double pr = active ? z : 0.0;
      double add = (pr * pr - lam[i](j) * lam[i](j)) / (2 * rho[i]);
      o.J += add;
      o.scale += (pr * pr + lam[i](j) * lam[i](j)) / (2 * rho[i]);
      if (active) {
        VectorXd a = Jc.row(j).transpose();
        o.dx -= z * a.head(n);
        o.du -= z * a.tail(m);
        o.xx += rho[i] * a.head(n) * a.head(n).transpose();
        o.xu += rho[i] * a.head(n) * a.tail(m).transpose();
        o.uu += rho[i] * a.tail(m) * a.tail(m).transpose();
      }
    }
  }
  return o;
}

template <int n_, int m_>
static void merit(Rng& r, mon::Ctx& ctx, int n = 0, int m = 0) {
  GenOpt go;
  go.nonlin = r.coin();
  go.cost = r.pick({kQuad, kSmooth, kNonconvex});
  go.Nmax = 4;
  go.maxcon = r.integer(1, 4);
  go.affine_only = r.coin();
  go.eq_prob = r.pick({0.0, 0.5, 1.0});
  Setup s = random_setup(r, go, n, m);
  if (r.coin(0.2) && s.N > 0) {  // rows that are identical, and rows without any gradient
    for (auto& v : s.cons)
      for (auto& d : v) {
        if (d.p > 1) d.A.row(1) = d.A.row(0), d.B.row(1) = d.B.row(0);
        if (r.coin(0.2)) d.A.setZero(), d.g = 0;
      }
    s.build();
  }
  if (r.coin(0.3)) {  // constraints that write some of their derivatives only in a part of the state space
    for (auto& v : s.cons)
      for (auto& d : v) d.A.col(0).setZero(), d.gate = r.uni(-1, 1), d.g = 0, ctx.count("gated");
    s.build();
  }
  AugmentedLagrangianiLQR<n_, m_> al(*s.prob);
  al.GetOptions().nthreads = r.coin(0.2) ? 3 : 1;
  auto Z = s.guess<n_, m_>();
  al.SetTrajectory(Z);
  std::vector<std::vector<VectorXd>> lam(s.N + 1);
  std::vector<std::vector<double>> rho(s.N + 1);
  for (int k = 0; k <= s.N; ++k) {
    for (auto& d : s.cons[k]) lam[k].push_back(VectorXd::Zero(d.p)), rho[k].push_back(1.0);
  }
  auto eqcount = [&](int k) {
    int c = 0;
    for (auto& d : s.cons[k]) c += d.eq;
    return c;
  };
  int rounds = r.integer(2, 5);
  for (int round = 0; round < rounds; ++round) {
    // penalties through the three public ways
    int how = r.integer(0, 3);
    if (how == 0) {
      double p = std::pow(10, r.uni(-3, 6));
      al.SetPenalty(p);
      for (auto& v : rho)
        for (double& q : v) q = p;
    } else if (how == 1) {
      for (int k = 0; k <= s.N; ++k) {
        double p = std::pow(10, r.uni(-3, 6)), q = std::pow(10, r.uni(-3, 6));
        al.GetALCost(k)->template SetPenalty<Equality>(p);
        al.GetALCost(k)->template SetPenalty<Inequality>(q);
        for (size_t i = 0; i < s.cons[k].size(); ++i) rho[k][i] = s.cons[k][i].eq ? p : q;
      }
    } else if (how == 2) {
      for (int k = 0; k <= s.N; ++k)
        for (size_t i = 0; i < s.cons[k].size(); ++i)
          if (r.coin(0.7)) {
            double p = std::pow(10, r.uni(-3, 6));
            rho[k][i] = p;
            if (s.cons[k][i].eq) al.GetALCost(k)->template SetPenalty<Equality>(p, i);
            else al.GetALCost(k)->template SetPenalty<Inequality>(p, i - eqcount(k));
          }
    }
    double dscale = r.pick({0.0, 0.1, 1.0, 100.0});
    for (int k = 0; k <= s.N; ++k) {
      auto c = al.GetALCost(k);
      for (size_t i = 0; i < s.cons[k].size(); ++i) {
        auto& d = s.cons[k][i];
        lam[k][i] = partly(r, lam[k][i], dscale * rvec(r, d.p));
        if (!d.eq && r.coin(0.8)) lam[k][i] = -lam[k][i].cwiseAbs();
        if (d.eq) c->GetEqualityConstraints()[i]->GetDuals() = lam[k][i];
        else c->GetInequalityConstraints()[i - eqcount(k)]->GetDuals() = lam[k][i];
      }
    }
    double total = 0, tscale = 0;
    altro::Trajectory<n_, m_> Y(*Z);
    for (int k = 0; k <= s.N; ++k) {
      VectorXd x = rvec(r, s.n, 2.0), u = rvec(r, s.m, 2.0);
      if (round > 0) x = partly(r, Z->State(k), x), u = partly(r, Z->Control(k), u);
      if (round > 0 && r.coin(0.1)) s.costs[k]->data.c += 1, ctx.count("changed_functions");
      Y.State(k) = x;
      Y.Control(k) = u;
      auto c = al.GetALCost(k);
      Own w = reference(s.costs[k]->data, s.cons[k], lam[k], rho[k], x, u);
      total += w.J;
      tscale += w.scale;
      auto where = [&] { return mon::sf("k=%d round %d (%zu constraints); %s", k, round, s.cons[k].size(), s.describe().c_str()); };
      // the three are independent of each other's order and of earlier points
      VectorXd gx, gu;
      MatrixXd hxx, hxu, huu;
      bool check_hess = !w.at_kink;
      int order = r.integer(0, 5);
      for (int step = 0; step < 3; ++step) {
        int what = (order / 2 + (order % 2 ? 2 * step : step)) % 3;
        if (what == 0) {
          double J = c->Evaluate(x, u);
          ctx.check(std::abs(J - w.J) <= 1e-10 * w.scale + 1e-12, "value", [&] { return mon::sf("value %.12g, expected %.12g; ", J, w.J) + where(); });
          ctx.count("values");
        } else if (what == 1) {
          gx = VectorXd::Zero(s.n);
          gu = VectorXd::Zero(s.m);
          c->Gradient(x, u, gx, gu);
          ctx.check(mclose(gx, w.dx, 1e-9, 1e-11) && mclose(gu, w.du, 1e-9, 1e-11), "gradient", [&] {
            return "gradient " + str(gx) + str(gu) + ", expected " + str(w.dx) + str(w.du) + "; " + where();
          });
          ctx.count("gradients");
        } else {
          hxx = MatrixXd::Zero(s.n, s.n);
          hxu = MatrixXd::Zero(s.n, s.m);
          huu = MatrixXd::Zero(s.m, s.m);
          c->Hessian(x, u, hxx, hxu, huu);
          if (check_hess)
            ctx.check(mclose(hxx, w.xx, 1e-9, 1e-11) && mclose(hxu, w.xu, 1e-9, 1e-11) && mclose(huu, w.uu, 1e-9, 1e-11), "hessian", [&] {
              return "Hessian " + str(hxx) + str(hxu) + str(huu) + ", expected " + str(w.xx) + str(w.xu) + str(w.uu) + "; " + where();
            });
          ctx.count("hessians");
        }
      }
      // the gradient is the derivative of the value (independent of the formula above)
      VectorXd z(s.n + s.m), dz(s.n + s.m);
      z << x, u;
      dz = rvec(r, s.n + s.m);
      double h = 1e-6;
      VectorXd zp = z + h * dz, zm = z - h * dz;
      double fd = (c->Evaluate(zp.head(s.n), zp.tail(s.m)) - c->Evaluate(zm.head(s.n), zm.tail(s.m))) / (2 * h);
      double an = gx.dot(dz.head(s.n)) + gu.dot(dz.tail(s.m));
      double rmax = 0;
      for (double p : rho[k]) rmax = std::max(rmax, p);
      ctx.check(std::abs(fd - an) <= 1e-5 * (1 + std::abs(an)) + 1e-9 * w.scale / h * 1e-2 + 200 * rmax * h, "derivative", [&] {
        return mon::sf("directional derivative %.9g, differences of the value give %.9g; ", an, fd) + where();
      });
      // multipliers and penalties are only read
      size_t ie = 0, ii = 0;
      for (size_t i = 0; i < s.cons[k].size(); ++i) {
        VectorXd l, p;
        if (s.cons[k][i].eq) l = c->GetEqualityConstraints()[ie]->GetDuals(), p = c->GetEqualityConstraints()[ie]->GetPenalty(), ++ie;
        else l = c->GetInequalityConstraints()[ii]->GetDuals(), p = c->GetInequalityConstraints()[ii]->GetPenalty(), ++ii;
        ctx.check(bits(l, lam[k][i]) && p.isConstant(rho[k][i], 0), "changed", [&] { return "evaluating the cost changed multipliers or penalties; " + where(); });
        for (int j = 0; j < s.cons[k][i].p; ++j) {
          double zz = lam[k][i](j) - rho[k][i] * s.cons[k][i].val(x, u)(j);
          ctx.count(s.cons[k][i].eq ? "rows_equality" : zz < 0 ? "rows_active" : "rows_inactive");
        }
      }
      ctx.distinct(mon::hash_bytes(x.data(), 8 * s.n, mon::hash_bytes(u.data(), 8 * s.m)));
    }
    // and this is what the solver minimises
    double J = al.GetiLQRSolver().Cost(Y);
    ctx.check(std::abs(J - total) <= 1e-10 * tscale + 1e-12, "total", [&] { return mon::sf("the solver's objective is %.12g, expected %.12g; %s", J, total, s.describe().c_str()); });
    for (int k = 0; k <= s.N; ++k) {
      Z->State(k) = Y.State(k);
      Z->Control(k) = Y.Control(k);
    }
    al.GetiLQRSolver().SolveSetup();
    al.GetiLQRSolver().UpdateExpansions();
    for (int k = 0; k <= s.N; ++k) {
      Own w = reference(s.costs[k]->data, s.cons[k], lam[k], rho[k], Y.State(k), Y.Control(k));
      auto& e = al.GetiLQRSolver().GetKnotPointFunction(k).GetCostExpansion();
      MatrixXd xx = e.dxdx(), xu = e.dxdu(), uu = e.dudu();
      VectorXd dx = e.dx(), du = e.du();
      ctx.check(mclose(dx, w.dx, 1e-9, 1e-11) && mclose(du, w.du, 1e-9, 1e-11), "expansion-gradient", [&] { return mon::sf("gradient of the expansion at %d is wrong", k); });
      if (!w.at_kink)
        ctx.check(mclose(xx, w.xx, 1e-9, 1e-11) && mclose(xu, w.xu, 1e-9, 1e-11) && mclose(uu, w.uu, 1e-9, 1e-11), "expansion-hessian", [&] { return mon::sf("Hessian of the expansion at %d is wrong", k); });
      ctx.count("expansions");
    }
  }
  if (ctx.want_sample()) ctx.sample(s.describe());
}

template <class Cone>
static void cone(Rng& r, mon::Ctx& ctx, bool zero, bool ident) {
  int p = r.integer(1, 6);
  VectorXd x = rvec(r, p, 3.0), b = rvec(r, p), y = rvec(r, p);
  for (int i = 0; i < p; ++i)
    if (r.coin(0.15)) x(i) = r.pick({0.0, -0.0, 1e-300, -1e-300, 1e300, -1e300});
  MatrixXd J = rmat(r, p, p, 9), H = rmat(r, p, p, 9);
  VectorXd x0 = x;
  Cone::Projection(x, y);
  Cone::Jacobian(x, J);
  Cone::Hessian(x, b, H);
  ctx.check(bits(x, x0), "cone-input", "a projection changed its input");
  for (int i = 0; i < p; ++i) {
    double want = zero ? 0.0 : ident ? x(i) : (x(i) < 0 ? x(i) : 0.0);
    ctx.check(y(i) == want, "projection", [&] { return mon::sf("projection of %.9g is %.9g", x(i), y(i)); });
    for (int j = 0; j < p; ++j) {
      double d = i != j || zero ? 0.0 : ident ? 1.0 : (x(i) > 0 ? 0.0 : 1.0);
      bool kink = i == j && !zero && !ident && x(i) == 0;
      ctx.check(kink ? (J(i, j) == 0 || J(i, j) == 1) : J(i, j) == d, "projection-jacobian", [&] { return mon::sf("entry (%d,%d) of the projection Jacobian at %s is %.9g", i, j, str(x).c_str(), J(i, j)); });
      ctx.check(H(i, j) == 0, "projection-hessian", "the second derivative of a projection is not zero");
    }
  }
  // in place
  VectorXd z = x;
  Cone::Projection(z, z);
  ctx.check(bits(z, y), "projection-in-place", "projecting in place gives something else");
  ctx.count("cones");
}
#ifdef STATIC_UNIT
void static_case(Rng& r, mon::Ctx& ctx) { merit<3, 2>(r, ctx, 3, 2); }
#else
void static_case(Rng& r, mon::Ctx& ctx);
static void run(Rng& r, mon::Ctx& ctx) {
  for (int i = 0; i < 5; ++i) {
    cone<ZeroCone>(r, ctx, true, false);
    cone<IdentityCone>(r, ctx, false, true);
    cone<NegativeOrthant>(r, ctx, false, false);
    cone<Equality::DualCone>(r, ctx, false, true);
    cone<Inequality::DualCone>(r, ctx, false, false);
  }
  if (r.coin(0.2)) return static_case(r, ctx);
  merit<-1, -1>(r, ctx);
}
MON_MAIN(run)
#endif
