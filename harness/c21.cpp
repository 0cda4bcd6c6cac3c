// C21: the bundled models, costs, constraints and problems follow their documented formulas, with exact derivatives.
#include "altro/augmented_lagrangian/al_solver.hpp"
#include "examples/basic_constraints.hpp"
#include "examples/obstacle_constraints.hpp"
#include "examples/problems/triple_integrator.hpp"
#include "examples/problems/unicycle.hpp"
#include "examples/quadratic_cost.hpp"
#include "examples/triple_integrator.hpp"
#include "examples/unicycle.hpp"
#include "gen.hpp"
using namespace gen;
namespace ex = altro::examples;
using altro::problem::DiscreteDynamics;

static double inf() { return std::numeric_limits<double>::infinity(); }

// The derivative of any function agrees with central differences of its value, in random directions.
static void differences(Rng& r, mon::Ctx& ctx, altro::FunctionBase& f, const VectorXd& x, const VectorXd& u, const MatrixXd& J, double second, const char* key) {
  int n = x.size(), m = u.size(), p = J.rows();
  VectorXd d = rvec(r, n + m), a(p), b(p);
  double e = 1e-5;
  f.Evaluate(x + e * d.head(n), u + e * d.tail(m), Eigen::Ref<VectorXd>(a));
  f.Evaluate(x - e * d.head(n), u - e * d.tail(m), Eigen::Ref<VectorXd>(b));
  VectorXd fd = (a - b) / (2 * e), an = J * d;
  double scale = 1 + a.cwiseAbs().maxCoeff() + an.cwiseAbs().maxCoeff() + second;
  ctx.check((fd - an).cwiseAbs().maxCoeff() <= 1e-7 * scale, key, [&] { return "x=" + str(x) + " u=" + str(u) + ": differences " + str(fd) + ", derivative " + str(an); });
}

static void models(Rng& r, mon::Ctx& ctx) {
  bool own = r.coin();
  int dof = r.integer(1, 7);
  ex::TripleIntegrator ti(dof);
  ex::Unicycle uni;
  altro::problem::ContinuousDynamics& f = own ? static_cast<altro::problem::ContinuousDynamics&>(ti) : uni;
  int n = own ? 3 * dof : 3, m = own ? dof : 2;
  ctx.check(f.StateDimension() == n && f.ControlDimension() == m && f.OutputDimension() == n && f.HasHessian(), "model-dimensions", "wrong dimensions");
  VectorXd lastx, lastu;
  for (int i = 0; i < 6; ++i) {
    double s = r.pick({1e-3, 1.0, 10.0, 1e3});
    VectorXd x = rvec(r, n, s), u = rvec(r, m, s), xd(n), want(n), b = rvec(r, n, 2);
    lastx = x = partly(r, lastx, x), lastu = u = partly(r, lastu, u);
    s = std::max({s, x.cwiseAbs().maxCoeff(), u.cwiseAbs().maxCoeff()});
    float t = static_cast<float>(r.uni(-5, 5));
    MatrixXd J = MatrixXd::Zero(n, n + m), Jw = J, H = MatrixXd::Zero(n + m, n + m), Hw = H;
    if (own) {
      for (int k = 0; k < dof; ++k) {
        want(k) = x(dof + k), want(dof + k) = x(2 * dof + k), want(2 * dof + k) = u(k);
        Jw(k, dof + k) = Jw(dof + k, 2 * dof + k) = Jw(2 * dof + k, n + k) = 1;
      }
      J = rmat(r, n, n + m), H = rmat(r, n + m, n + m);  // this one overwrites everything
    } else {
      want << u(0) * std::cos(x(2)), u(0) * std::sin(x(2)), u(1);
      double c = std::cos(x(2)), sn = std::sin(x(2)), v = u(0);
      Jw(0, 2) = -v * sn, Jw(0, 3) = c, Jw(1, 2) = v * c, Jw(1, 3) = sn, Jw(2, 4) = 1;
      Hw(2, 2) = -b(0) * v * c - b(1) * v * sn;
      Hw(2, 3) = Hw(3, 2) = -b(0) * sn + b(1) * c;
    }
    switch (r.integer(0, 2)) {
      case 0: xd = f(x, u, t); break;
      case 1: f.SetTime(t); static_cast<altro::FunctionBase&>(f).Evaluate(x, u, Eigen::Ref<VectorXd>(xd)); break;
      default: f.Evaluate(x, u, t, Eigen::Ref<VectorXd>(xd));
    }
    f.Jacobian(x, u, t, J);
    f.Hessian(x, u, t, b, H);
    ctx.check(mclose(xd, want, 1e-14), "model-value", [&] { return "x=" + str(x) + " u=" + str(u) + ": " + str(xd) + ", formula " + str(want); });
    ctx.check(mclose(J, Jw, 1e-14), "model-jacobian", [&] { return str(J) + ", formula " + str(Jw); });
    ctx.check(mclose(H, Hw, 1e-14), "model-hessian", [&] { return str(H) + ", formula " + str(Hw); });
    if (s <= 10) differences(r, ctx, f, x, u, J, s, "model-differences");
    ctx.distinct(mon::hash_bytes(xd.data(), 8 * n));
    ctx.count(own ? "integrator_values" : "unicycle_values");
  }
}

static void costs(Rng& r, mon::Ctx& ctx) {
  int n = r.integer(1, 7), m = r.integer(1, 4);
  MatrixXd Q = rspd(r, n), R = rspd(r, m), H = r.coin() ? MatrixXd::Zero(n, m) : rmat(r, n, m, r.pick({1e-10, 0.5, 3.0}));
  if (r.coin(0.2)) Q = rvec(r, n).cwiseAbs().asDiagonal();
  if (r.coin(0.1)) Q.setZero();
  VectorXd q = rvec(r, n), rr = rvec(r, m), xref = rvec(r, n, 3), uref = rvec(r, m, 3);
  bool lqr = r.coin(), term = r.coin(0.3);
  if (term && r.coin()) R *= 0;
  double c = r.uni(-5, 5);
  ex::QuadraticCost cost = lqr ? ex::QuadraticCost::LQRCost(Q, R, xref, uref, term) : ex::QuadraticCost(Q, R, H, q, rr, c, term);
  if (lqr) H.setZero(), q = -Q * xref, rr = -R * uref, c = 0.5 * xref.dot(Q * xref) + 0.5 * uref.dot(R * uref);
  ctx.check(cost.StateDimension() == n && cost.ControlDimension() == m && cost.OutputDimension() == 1 && cost.HasHessian(), "cost-dimensions", "wrong dimensions");
  ctx.check(bits(cost.GetQ(), Q) && bits(cost.GetR(), R) && bits(cost.GetH(), H) && mclose(cost.Getq(), q, 1e-14) && mclose(cost.Getr(), rr, 1e-14) && close(cost.GetConstant(), c, 1e-13, 0), "cost-getters", "the getters return other data");
  ctx.check(cost.IsBlockDiagonal() == (H.norm() < 1e-8), "cost-blockdiag", "IsBlockDiagonal doesn't tell whether the cross term vanishes");
  VectorXd lastx, lastu;
  for (int i = 0; i < 5; ++i) {
    VectorXd x = rvec(r, n, r.pick({0.1, 1.0, 30.0})), u = rvec(r, m, r.pick({0.1, 1.0, 30.0})), dx(n), du(m);
    lastx = x = partly(r, lastx, x), lastu = u = partly(r, lastu, u);
    double want = lqr ? 0.5 * (x - xref).dot(Q * (x - xref)) + 0.5 * (u - uref).dot(R * (u - uref))
                      : 0.5 * x.dot(Q * x) + x.dot(H * u) + 0.5 * u.dot(R * u) + q.dot(x) + rr.dot(u) + c;
    double mag = 0.5 * x.cwiseAbs().dot(Q.cwiseAbs() * x.cwiseAbs()) + 0.5 * u.cwiseAbs().dot(R.cwiseAbs() * u.cwiseAbs()) + x.cwiseAbs().dot(H.cwiseAbs() * u.cwiseAbs()) + std::abs(c) + q.cwiseAbs().dot(x.cwiseAbs()) + rr.cwiseAbs().dot(u.cwiseAbs());
    double got = cost.Evaluate(x, u);
    ctx.check(std::abs(got - want) <= 1e-13 * mag, "cost-value", [&] { return mon::sf("%.17g, formula %.17g", got, want); });
    cost.Gradient(x, u, dx, du);
    ctx.check(mclose(dx, VectorXd(Q * x + q + H * u), 1e-12, 1e-13 * mag) && mclose(du, VectorXd(R * u + rr + H.transpose() * x), 1e-12, 1e-13 * mag), "cost-gradient", [&] { return str(dx) + str(du); });
    MatrixXd xx = rmat(r, n, n), xu = rmat(r, n, m), uu = rmat(r, m, m);
    cost.Hessian(x, u, xx, xu, uu);
    ctx.check(bits(xx, Q) && bits(xu, H) && bits(uu, R), "cost-hessian", "the Hessian isn't (Q, H, R)");
    MatrixXd J = MatrixXd::Zero(1, n + m), HH = MatrixXd::Zero(n + m, n + m), Hw(n + m, n + m);
    Hw << Q, H, H.transpose(), R;
    altro::FunctionBase& fb = cost;
    fb.Jacobian(x, u, Eigen::Ref<MatrixXd>(J));
    fb.Hessian(x, u, VectorXd::Ones(1), Eigen::Ref<MatrixXd>(HH));
    VectorXd g(n + m);
    g << dx, du;
    ctx.check(mclose(J.transpose(), g, 1e-14) && mclose(HH, Hw, 1e-14), "cost-joint", "the joint derivatives aren't those of the parts");
    differences(r, ctx, fb, x, u, J, mag, "cost-differences");
    ctx.count("cost_values");
    ctx.distinct(mon::hash_bytes(&got, 8));
  }
  if (r.coin(0.1)) {  // what is no such cost is rejected
    int kind = r.integer(0, 4);
    MatrixXd q2 = Q, r2 = R;
    VectorXd x2 = xref;
    if (kind == 0) q2 = MatrixXd(Q + 0.1 * MatrixXd::Ones(n, n)), q2(0, n - 1) += 1;
    if (kind == 1) r2(0, 0) = -1;
    if (kind == 2) q2 = -MatrixXd::Identity(n, n);
    if (kind == 3) x2.conservativeResize(n + 1), x2(n) = 1;
    if (kind == 4) r2 = MatrixXd::Identity(m, m), r2(0, m - 1) += m == 1 ? -3 : 1;
    if (kind == 0 && n == 1) q2(0, 0) = -2;
    auto c = mon::in_child([&] { ex::QuadraticCost::LQRCost(q2, r2, x2, uref, false); return 0; });
    ctx.check(c.aborted && c.err.find("Assert failed") != std::string::npos, "cost-misuse", [&] { return mon::sf("misuse %d isn't rejected (exit %d, signal %d)", kind, c.code, c.sig); });
    ctx.count("cost_misuse");
  }
}

static void cons(Rng& r, mon::Ctx& ctx) {
  int n = r.integer(2, 7), m = r.integer(1, 5);
  {
    VectorXd xf = rvec(r, n, 3);
    std::shared_ptr<altro::constraints::Constraint<altro::constraints::Equality>> g = r.coin() ? ex::GoalConstraint::Create(xf) : std::make_shared<ex::GoalConstraint>(xf);
    ctx.check(g->StateDimension() == n && g->OutputDimension() == n && g->GetLabel() == "Goal Constraint", "goal-dimensions", "wrong dimensions or label");
    for (int i = 0; i < 3; ++i) {
      VectorXd x = rvec(r, n, 10), u = rvec(r, m), c(n);
      MatrixXd J = rmat(r, n, n + m), Jw = MatrixXd::Zero(n, n + m);
      Jw.leftCols(n).setIdentity();
      g->Evaluate(x, u, c);
      g->Jacobian(x, u, J);
      ctx.check(bits(c, VectorXd(x - xf)) && bits(J, Jw), "goal-value", [&] { return str(c) + str(J); });
      ctx.count("goal_values");
    }
  }
  {
    std::vector<double> lb(m), ub(m);
    auto draw = [&] {
      for (int i = 0; i < m; ++i) {
        double a = r.uni(-3, 3), b = a + r.pick({0.0, 1.0, 5.0});
        lb[i] = r.coin(0.3) ? -inf() : a, ub[i] = r.coin(0.3) ? inf() : b;
      }
    };
    draw();
    ex::ControlBound made(lb, ub), empty(m);
    ex::ControlBound* p = &made;
    if (r.coin()) {
      ctx.check(empty.OutputDimension() == 0, "bound-empty", "bounds that were never set count");
      if (r.coin()) empty.SetLowerBound(lb), empty.SetUpperBound(ub);
      else empty.SetUpperBound(std::vector<double>(ub)), empty.SetLowerBound(std::vector<double>(lb));
      p = &empty;
      ctx.count("bounds_by_setter");
    }
    for (int i = 0; i < 4; ++i) {
      if (i == 2) {  // change one side
        bool low = r.coin();
        for (int k = 0; k < m; ++k) {
          if (low) lb[k] = r.coin(0.3) ? -inf() : std::min(ub[k], 100.0) - r.uni(0, 4);
          else ub[k] = r.coin(0.3) ? inf() : std::max(lb[k], -100.0) + r.uni(0, 4);
        }
        if (low) p->SetLowerBound(lb);
        else p->SetUpperBound(ub);
      }
      std::vector<double> want;
      std::vector<std::pair<int, int>> rows;
      VectorXd x = rvec(r, n), u = rvec(r, m, 5);
      for (int k = 0; k < m; ++k)
        if (std::isfinite(lb[k])) want.push_back(lb[k] - u(k)), rows.push_back({k, -1});
      for (int k = 0; k < m; ++k)
        if (std::isfinite(ub[k])) want.push_back(u(k) - ub[k]), rows.push_back({k, 1});
      int P = want.size();
      ctx.check(p->OutputDimension() == P && p->ControlDimension() == m && p->GetLabel() == "Control Bound", "bound-dimensions", "wrong number of rows");
      if (p->OutputDimension() != P || P == 0) continue;
      VectorXd c(P), w = Eigen::Map<VectorXd>(want.data(), P);
      MatrixXd J = rmat(r, P, n + m), Jw = MatrixXd::Zero(P, n + m);
      for (int k = 0; k < P; ++k) Jw(k, n + rows[k].first) = rows[k].second;
      p->Evaluate(x, u, c);
      p->Jacobian(x, u, J);
      ctx.check(bits(c, w), "bound-value", [&] { return str(c) + ", formula " + str(w); });
      ctx.check(bits(J, Jw), "bound-jacobian", [&] { return str(J) + ", formula " + str(Jw); });
      ctx.count("bound_values");
      ctx.distinct(mon::hash_bytes(c.data(), 8 * P));
    }
    if (r.coin(0.1)) {
      int kind = r.integer(0, 3);
      auto c = mon::in_child([&] {
        std::vector<double> a(m, 1.0), b(m, 0.0), l(m + 1, -1.0);
        if (kind == 0) ex::ControlBound(a, b);
        if (kind == 1) ex::ControlBound(l, a);
        if (kind == 2) ex::ControlBound(m).SetUpperBound(l);
        if (kind == 3) ex::ControlBound(b, a).SetLowerBound(std::vector<double>(m, 2.0));
        return 0;
      });
      ctx.check(c.aborted && c.err.find("Assert failed") != std::string::npos, "bound-misuse", [&] { return mon::sf("misuse %d isn't rejected", kind); });
      ctx.count("bound_misuse");
    }
  }
  {
    ex::CircleConstraint con;
    int P = r.integer(1, 5), a = 0, b = 1;
    std::vector<ex::Circle> os;
    for (int i = 0; i < P; ++i) {
      ex::Circle o(r.uni(-3, 3), r.uni(-3, 3), r.uni(0, 2));
      os.push_back(o);
      if (r.coin()) con.AddObstacle(o);
      else con.AddObstacle(o.x, o.y, o.r);
    }
    if (r.coin(0.4)) {
      a = r.integer(0, n - 1);
      do b = r.integer(0, n - 1); while (b == a);
      con.SetXYIndices(a, b);
    }
    ctx.check(con.OutputDimension() == P, "circle-dimensions", "one row per obstacle");
    VectorXd lastx;
    for (int i = 0; i < 5; ++i) {
      if (i > 0 && r.coin(0.15)) {  // one more obstacle, or other coordinates, after the first evaluations
        ex::Circle o(r.uni(-3, 3), r.uni(-3, 3), r.uni(0, 2));
        os.push_back(o);
        con.AddObstacle(o);
        ctx.check(con.OutputDimension() == ++P, "circle-dimensions", "one row per obstacle");
        ctx.count("obstacles_added_later");
      } else if (i > 0 && r.coin(0.1)) {
        std::swap(a, b);
        con.SetXYIndices(a, b);
      }
      VectorXd x = partly(r, lastx, rvec(r, n, 4)), u = rvec(r, m), c(P), w(P);
      lastx = x;
      MatrixXd J = MatrixXd::Zero(P, n + m), Jw = J;
      for (int k = 0; k < P; ++k) {
        double dx = x(a) - os[k].x, dy = x(b) - os[k].y;
        w(k) = os[k].r * os[k].r - dx * dx - dy * dy;
        Jw(k, a) = -2 * dx, Jw(k, b) = -2 * dy;
        double g[2];
        os[k].Distance2Gradient(x(a), x(b), g);
        ctx.check(close(os[k].Distance2(x(a), x(b)), -w(k), 0, 1e-13 * 100) && close(os[k].Distance(x(a), x(b)), std::hypot(dx, dy) - os[k].r, 0, 1e-13) && close(g[0], 2 * dx, 1e-15, 0) && close(g[1], 2 * dy, 1e-15, 0), "circle-geometry", "wrong distance or gradient");
      }
      con.Evaluate(x, u, c);
      con.Jacobian(x, u, J);
      ctx.check(mclose(c, w, 1e-14, 1e-12), "circle-value", [&] { return str(c) + ", formula " + str(w); });
      ctx.check(mclose(J, Jw, 1e-14), a == 0 && b == 1 ? "circle-jacobian" : "circle-jacobian-indices", [&] { return mon::sf("indices %d %d: ", a, b) + str(J) + ", formula " + str(Jw); });
      if (a == 0 && b == 1) differences(r, ctx, con, x, u, J, 1, "circle-differences");
      ctx.count(a == 0 && b == 1 ? "circle_values" : "circle_values_other_indices");
      ctx.distinct(mon::hash_bytes(c.data(), 8 * P));
    }
  }
}

// A problem against its description: dynamics (through the textbook rule), cost, constraint rows.
static void dynamics_at(Rng& r, mon::Ctx& ctx, const altro::problem::Problem& prob, int k, altro::problem::ContinuousDynamics& f, float t, float hf) {
  const double h = hf;
  int n = f.StateDimension(), m = f.ControlDimension();
  VectorXd x = rvec(r, n, 2), u = rvec(r, m, 2), got(n);
  auto ev = [&](const VectorXd& y, float tt) { return VectorXd(f(y, u, tt)); };
  VectorXd k1 = ev(x, t), k2 = ev(x + h / 2 * k1, t + h / 2), k3 = ev(x + h / 2 * k2, t + h / 2), k4 = ev(x + h * k3, t + h);
  VectorXd want = x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
  std::shared_ptr<DiscreteDynamics> d = prob.GetDynamics(k);
  ctx.check(d->StateDimension() == n && d->ControlDimension() == m, "problem-dimensions", "wrong dimensions");
  d->Evaluate(x, u, t, hf, got);
  ctx.check(mclose(got, want, 1e-9), "problem-dynamics", [&] { return str(got) + ", expected " + str(want); });
}
static void cost_at(Rng& r, mon::Ctx& ctx, const altro::problem::Problem& prob, int k, const MatrixXd& Q, const MatrixXd& R, const VectorXd& xref, const VectorXd& uref, const char* key) {
  auto c = std::dynamic_pointer_cast<ex::QuadraticCost>(prob.GetCostFunction(k));
  if (!ctx.check(c != nullptr, "problem-cost", "no quadratic cost")) return;
  ctx.check(mclose(c->GetQ(), Q, 1e-14) && mclose(c->GetR(), R, 1e-14) && c->GetH().norm() == 0 && mclose(c->Getq(), VectorXd(-Q * xref), 1e-14), "problem-cost", [&] { return mon::sf("knot point %d: ", k) + str(c->GetQ()) + str(c->GetR()) + str(c->Getq()); });
  ctx.check(mclose(c->Getr(), VectorXd(-R * uref), 1e-14) && close(c->GetConstant(), 0.5 * xref.dot(Q * xref) + 0.5 * uref.dot(R * uref), 1e-13, 0), key, [&] { return mon::sf("knot point %d: reference control ", k) + str(c->Getr()); });
}

template <int dof>
static void triple(Rng& r, mon::Ctx& ctx) {
  altro::problems::TripleIntegratorProblem<dof> p;
  bool changed = r.coin();
  if (changed) {
    p.N = r.integer(1, 30);
    p.h = static_cast<float>(r.uni(0.01, 0.3));
    p.Q = rspd(r, 3 * dof);
    p.xf = rvec(r, 3 * dof), p.x0 = rvec(r, 3 * dof);
    for (double& b : p.ubnd) b = r.uni(1, 10);
  } else {
    VectorXd xf = VectorXd::Zero(3 * dof);
    bool ok = p.N == 10 && p.h == 0.1F;
    for (int i = 0; i < dof; ++i) xf(i) = i + 1, ok = ok && p.ubnd[i] == 100 * (i + 1);
    ctx.check(ok && bits(p.xf, xf) && bits(p.x0, VectorXd(-xf)), "triple-defaults", "other defaults");
  }
  bool con = r.coin();
  altro::problem::Problem prob = p.MakeProblem(con);
  int n = 3 * dof, m = dof, N = p.N;
  ctx.check(prob.IsFullyDefined() && prob.NumSegments() == N && bits(prob.GetInitialState(), p.x0), "problem-shape", "wrong horizon or initial state");
  ex::TripleIntegrator f(dof);
  for (int k = 0; k < N; ++k) {
    dynamics_at(r, ctx, prob, k, f, k * p.h, p.h);
    cost_at(r, ctx, prob, k, p.Q, p.R, p.xf, VectorXd::Zero(m), "triple-integrator-uref");
    ctx.check(prob.NumConstraints(k) == (con ? 2 * m : 0), "problem-constraints", "wrong number of rows");
  }
  cost_at(r, ctx, prob, N, p.Qf, p.R * 0, p.xf, VectorXd::Zero(m), "triple-integrator-uref");
  ctx.check(prob.NumConstraints(N) == (con ? n : 0) && prob.NumConstraints() == (con ? n + 2 * m * N : 0), "problem-constraints", "wrong number of rows");
  if (con) {
    VectorXd x = rvec(r, n), u = rvec(r, m, 5), c(2 * m), w(2 * m), g(n);
    for (int k = 0; k < N; ++k) {
      for (int i = 0; i < m; ++i) w(i) = -p.ubnd[i] - u(i), w(m + i) = u(i) - p.ubnd[i];
      prob.GetInequalityConstraints().at(k).at(0)->Evaluate(x, u, c);
      ctx.check(bits(c, w), "problem-bounds", str(c));
    }
    prob.GetEqualityConstraints().at(N).at(0)->Evaluate(x, u, g);
    ctx.check(bits(g, VectorXd(x - p.xf)), "problem-goal", str(g));
  }
  auto Z = p.InitialTrajectory();
  auto Zd = p.template InitialTrajectory<-1, -1>();
  bool ok = Z.NumSegments() == N && Zd.NumSegments() == N;
  for (int k = 0; k <= N && ok; ++k) ok = std::abs(Z.GetTime(k) - k * p.h) < 1e-4F && Z.GetStep(k) == (k < N ? p.h : 0) && Zd.GetTime(k) == Z.GetTime(k) && Z.State(k).size() == n && Zd.Control(k).size() == m;
  ctx.check(ok, "problem-trajectory", "wrong initial trajectory");
  ctx.count("triple_problems");
}

static void unicycle(Rng& r, mon::Ctx& ctx) {
  altro::problems::UnicycleProblem p;
  bool obs = r.coin();
  p.SetScenario(obs ? altro::problems::UnicycleProblem::kThreeObstacles : altro::problems::UnicycleProblem::kTurn90);
  if (r.coin()) p.N = r.integer(2, 60);
  int N = p.N;
  bool con = r.coin(0.7);
  altro::problem::Problem prob = p.MakeProblem(con);
  float tf = obs ? 5.0F : 3.0F, h = tf / N;
  ctx.check(p.GetTimeStep() == h, "unicycle-step", "wrong time step");
  Eigen::Vector3d xf = obs ? Eigen::Vector3d(3, 3, 0) : Eigen::Vector3d(1.5, 1.5, M_PI / 2);
  MatrixXd Q = MatrixXd::Identity(3, 3) * (obs ? 1.0 * h : 1e-2 * h), R = MatrixXd::Identity(2, 2) * (obs ? 0.5 * h : 1e-2 * h), Qf = MatrixXd::Identity(3, 3) * (obs ? 10 : 100);
  ctx.check(prob.IsFullyDefined() && prob.NumSegments() == N && bits(prob.GetInitialState(), VectorXd::Zero(3)), "problem-shape", "wrong horizon or initial state");
  ex::Unicycle f;
  std::vector<double> lb = obs ? std::vector<double>{0, -3} : std::vector<double>{-1.5, -1.5}, ub = obs ? std::vector<double>{3, 3} : std::vector<double>{1.5, 1.5};
  VectorXd x = rvec(r, 3, 3), u = rvec(r, 2, 3), c4(4), w4(4), c3(3), w3(3);
  w4 << lb[0] - u(0), lb[1] - u(1), u(0) - ub[0], u(1) - ub[1];
  for (int i = 0; i < 3; ++i) {
    double cc = 0.75 * (i + 1);
    w3(i) = 0.425 * 0.425 - (x(0) - cc) * (x(0) - cc) - (x(1) - cc) * (x(1) - cc);
  }
  for (int k = 0; k < N; ++k) {
    dynamics_at(r, ctx, prob, k, f, k * h, h);
    cost_at(r, ctx, prob, k, Q, R, xf, VectorXd::Zero(2), "problem-cost");
    int want = (con ? 4 : 0) + (obs && k > 0 ? 3 : 0);
    ctx.check(prob.NumConstraints(k) == want, "problem-constraints", [&] { return mon::sf("knot point %d has %d rows", k, prob.NumConstraints(k)); });
    for (auto& q : prob.GetInequalityConstraints().at(k)) {
      if (q->OutputDimension() == 4) q->Evaluate(x, u, c4), ctx.check(bits(c4, w4), "problem-bounds", str(c4));
      else q->Evaluate(x, u, c3), ctx.check(mclose(c3, w3, 1e-13), "problem-obstacles", str(c3));
    }
  }
  cost_at(r, ctx, prob, N, Qf, R * 0, xf, VectorXd::Zero(2), "problem-cost");
  ctx.check(prob.NumConstraints(N) == (con ? 3 : 0), "problem-constraints", "wrong number of rows");
  if (con) {
    prob.GetEqualityConstraints().at(N).at(0)->Evaluate(x, u, c3);
    ctx.check(bits(c3, VectorXd(x - xf)), "problem-goal", str(c3));
  }
  double u0 = obs ? 0.01 : 0.1;
  auto Z = p.InitialTrajectory();
  bool ok = Z.NumSegments() == N;
  for (int k = 0; k <= N && ok; ++k) ok = std::abs(Z.GetTime(k) - k * h) < 1e-4F && Z.GetStep(k) == (k < N ? h : 0) && (k == N || (Z.Control(k)(0) == u0 && Z.Control(k)(1) == u0));
  ctx.check(ok, "problem-trajectory", "wrong initial trajectory");
  if (r.coin(0.3)) {  // the solvers it makes hold that problem, rolled out
    auto s = p.MakeSolver(r.coin());
    ctx.check(s.NumSegments() == N, "problem-solver", "wrong horizon");
    auto& T = *s.GetTrajectory();
    bool good = T.State(0).norm() == 0;
    for (int k = 0; k < N && good; ++k) {
      VectorXd xn(3);
      prob.GetDynamics(k)->Evaluate(T.State(k), T.Control(k), T.GetTime(k), T.GetStep(k), xn);
      good = mclose(VectorXd(T.State(k + 1)), xn, 1e-14) && T.Control(k)(0) == u0;
    }
    ctx.check(good, "problem-solver", "the solver's trajectory isn't the rollout of the initial one");
    auto al = p.MakeALSolver();
    al.SetPenalty(10.0);
    al.Solve();
    ctx.count("solvers");
    if (al.GetStatus() == altro::SolverStatus::kSolved) ctx.count("solvers_solved");
  }
  ctx.count(obs ? "unicycle_obstacles" : "unicycle_turn90");
}

static void run(Rng& r, mon::Ctx& ctx) {
  models(r, ctx);
  costs(r, ctx);
  cons(r, ctx);
  if (r.coin(0.3)) {
    int d = r.integer(1, 3);
    if (d == 1) triple<1>(r, ctx);
    else if (d == 2) triple<2>(r, ctx);
    else triple<4>(r, ctx);
  }
  if (r.coin(0.2)) unicycle(r, ctx);
  if (ctx.want_sample()) ctx.sample("one of each model, cost, constraint and problem");
}
MON_MAIN(run)
