// C20: discretised models follow their integration rule, have its order of accuracy and its exact derivative.
#include "altro/problem/discretized_model.hpp"
#include "gen.hpp"
using namespace gen;
using altro::problem::ContinuousDynamics;
using altro::problem::DiscretizedModel;
using altro::problem::ExplicitEuler;
using altro::problem::RungeKutta4;

// xdot = A x + B u + g W tanh(Vx x + Vu u + s t) + p sin(w t + i) + gate max(0, x_0)^2 e_last
struct Field {
  int n = 1, m = 1;
  MatrixXd A, B, W, Vx, Vu;
  VectorXd s, p;
  double w = 0, g = 0, gate = 0;
  VectorXd f(const VectorXd& x, const VectorXd& u, double t) const {
    VectorXd v = A * x + B * u;
    if (g != 0) {
      VectorXd z = Vx * x + Vu * u + s * t;
      v += g * W * z.array().tanh().matrix();
    }
    for (int i = 0; i < n; ++i) v(i) += p(i) * std::sin(w * t + i);
    if (gate != 0 && x(0) > 0) v(n - 1) += gate * x(0) * x(0);
    return v;
  }
  MatrixXd jac(const VectorXd& x, const VectorXd& u, double t) const {
    MatrixXd J(n, n + m);
    J << A, B;
    if (g != 0) {
      VectorXd z = Vx * x + Vu * u + s * t;
      VectorXd th = z.array().tanh();
      VectorXd dd = (1 - th.array() * th.array()).matrix();
      MatrixXd V(n, n + m);
      V << Vx, Vu;
      J += g * W * dd.asDiagonal() * V;
    }
    if (gate != 0 && x(0) > 0) J(n - 1, 0) += 2 * gate * x(0);
    return J;
  }
  // size of df/dt and d2f/dtdx, for the rounding of the stage times to float
  double tsens() const { return p.cwiseAbs().sum() * w + g * W.cwiseAbs().sum() * s.cwiseAbs().sum() * (1 + Vx.cwiseAbs().sum() + Vu.cwiseAbs().sum()); }
};
static Field random_field(Rng& r, int n, int m) {
  Field f;
  f.n = n, f.m = m;
  f.A = rmat(r, n, n, r.pick({0.0, 0.5, 2.0}));
  f.B = rmat(r, n, m, 1.0);
  f.W = rmat(r, n, n, 1.0);
  f.Vx = rmat(r, n, n, 1.0);
  f.Vu = rmat(r, n, m, 1.0);
  bool tv = r.coin(0.7);
  f.s = tv ? rvec(r, n) : VectorXd::Zero(n);
  f.p = tv ? rvec(r, n, 2) : VectorXd::Zero(n);
  f.w = tv ? r.uni(0.5, 8) : 0;
  f.g = r.coin(0.7) ? r.uni(0.2, 2) : 0;
  if (r.coin(0.3)) {
    f.gate = r.uni(-1, 1);
    if (n > 1) f.A(n - 1, 0) = 0, f.g = 0;
  }
  if (r.coin(0.3))
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j)
        if (r.coin()) f.A(i, j) = 0;
  return f;
}

template <int n_, int m_>
class Model : public ContinuousDynamics {
 public:
  using ContinuousDynamics::Evaluate;
  using ContinuousDynamics::Hessian;
  using ContinuousDynamics::Jacobian;
  static constexpr int NStates = n_;
  static constexpr int NControls = m_;
  explicit Model(Field f, bool dense) : field(f), dense_(dense) {}
  int StateDimension() const override { return field.n; }
  int ControlDimension() const override { return field.m; }
  bool HasHessian() const override { return false; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, float t, Eigen::Ref<VectorXd> xdot) override { xdot = field.f(x, u, t); }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, float t, Eigen::Ref<MatrixXd> jac) override {
    MatrixXd o = field.jac(x, u, t);
    if (dense_) jac = o;
    else
      for (int i = 0; i < o.rows(); ++i)
        for (int j = 0; j < o.cols(); ++j)
          if (o(i, j) != 0) jac(i, j) = o(i, j);
  }
  void Hessian(const VectorXdRef&, const VectorXdRef&, float, const VectorXdRef&, Eigen::Ref<MatrixXd>) override {}
  Field field;

 private:
  bool dense_;
};

enum Rule { kEuler, kRk4 };
// The textbook rules, and their derivatives by the chain rule on the joint argument z = (x, u).
static VectorXd step(const Field& f, Rule rule, const VectorXd& x, const VectorXd& u, double t, double h, MatrixXd* J) {
  int n = f.n, m = f.m;
  MatrixXd E = MatrixXd::Zero(n, n + m), U = MatrixXd::Zero(m, n + m);
  E.leftCols(n).setIdentity();
  U.rightCols(m).setIdentity();
  auto slope = [&](const VectorXd& y, const MatrixXd& dy, double tt, VectorXd* k, MatrixXd* dk) {
    *k = f.f(y, u, tt);
    MatrixXd j = f.jac(y, u, tt);
    *dk = j.leftCols(n) * dy + j.rightCols(m) * U;
  };
  VectorXd k1, k2, k3, k4;
  MatrixXd d1, d2, d3, d4;
  slope(x, E, t, &k1, &d1);
  if (rule == kEuler) {
    *J = E + h * d1;
    return x + h * k1;
  }
  slope(x + h / 2 * k1, E + h / 2 * d1, t + h / 2, &k2, &d2);
  slope(x + h / 2 * k2, E + h / 2 * d2, t + h / 2, &k3, &d3);
  slope(x + h * k3, E + h * d3, t + h, &k4, &d4);
  *J = E + h / 6 * (d1 + 2 * d2 + 2 * d3 + d4);
  return x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
}
// A very accurate solution of the differential equation.
static VectorXd flow(const Field& f, VectorXd x, const VectorXd& u, double t, double T) {
  int K = 400;
  MatrixXd J;
  for (int i = 0; i < K; ++i) x = step(f, kRk4, x, u, t + T * i / K, T / K, &J);
  return x;
}

template <class D>
static void discrete(Rng& r, mon::Ctx& ctx, D& dm, const Field& f, Rule rule, const char* name) {
  int n = f.n, m = f.m;
  ctx.check(dm.StateDimension() == n && dm.ControlDimension() == m && dm.OutputDimension() == n, "dimensions", "a discretised model has other dimensions");
  int reps = r.integer(2, 8);
  VectorXd lastx, lastu;
  float lastt = 0, lasth = 0.125F;
  for (int i = 0; i < reps; ++i) {
    VectorXd x = rvec(r, n, r.pick({0.1, 1.0, 3.0})), u = rvec(r, m, r.pick({0.1, 1.0, 3.0}));
    x = partly(r, lastx, x), u = partly(r, lastu, u);
    bool exact = r.coin();
    float t = exact ? r.integer(-64, 64 * 8) / 64.0F : static_cast<float>(r.uni(-2, 20));
    float h = r.coin(0.05) ? 0.0F : exact ? r.integer(1, 32) / 32.0F * 0.5F : static_cast<float>(r.uni(1e-3, 0.5));
    if (exact && r.coin(0.2)) t = std::round(lastt * 64) / 64;
    if (exact && r.coin(0.2)) h = std::round(lasth * 64) / 64;
    lastx = x, lastu = u, lastt = t, lasth = h;
    MatrixXd Jown;
    VectorXd own = step(f, rule, x, u, t, h, &Jown);
    double scale = 1 + own.norm() + x.norm();
    double slack = exact ? 0 : 4e-7 * (std::abs(t) + h) * h * f.tsens() * (1 + Jown.norm());
    auto where = [&] { return mon::sf("%s n=%d m=%d t=%g h=%g x=%s u=%s; ", name, n, m, static_cast<double>(t), static_cast<double>(h), str(x).c_str(), str(u).c_str()); };
    VectorXd got(n);
    MatrixXd J = MatrixXd::Zero(n, n + m);
    int order = r.integer(0, 3);
    VectorXd x0 = x, u0 = u;
    if (order & 1) dm.Jacobian(x, u, t, h, J);
    switch (r.integer(0, 3)) {  // all the public ways
      case 0: got = VectorXd(static_cast<altro::problem::DiscreteDynamics&>(dm).Evaluate(x, u, t, h)); ctx.count("by_value"); break;
      case 1: got = dm(x, u, t, h); ctx.count("by_call"); break;
      case 2: {
        altro::problem::DiscreteDynamics& base = dm;
        base.SetTime(t);
        base.SetStep(h);
        static_cast<altro::FunctionBase&>(base).Evaluate(x, u, Eigen::Ref<VectorXd>(got));
        ctx.count("by_function_api");
        break;
      }
      default: dm.Evaluate(x, u, t, h, got);
    }
    if (!(order & 1)) {
      if (r.coin(0.3)) {
        altro::problem::DiscreteDynamics& base = dm;
        base.SetTime(t);
        base.SetStep(h);
        static_cast<altro::FunctionBase&>(base).Jacobian(x, u, Eigen::Ref<MatrixXd>(J));
      } else {
        dm.Jacobian(x, u, t, h, J);
      }
    }
    ctx.check((got - own).cwiseAbs().maxCoeff() <= 1e-11 * scale + slack, "rule", [&] { return where() + "next state " + str(got) + ", the rule gives " + str(own); });
    double js = 1 + Jown.cwiseAbs().maxCoeff();
    ctx.check((J - Jown).cwiseAbs().maxCoeff() <= 1e-10 * js * scale + slack, "jacobian", [&] { return where() + "Jacobian " + str(J) + ", the derivative of the rule is " + str(Jown); });
    ctx.check(bits(x, x0) && bits(u, u0), "arguments", "the arguments were changed");
    // derivative of the discretised map itself, by differences in a random direction
    VectorXd d = rvec(r, n + m);
    double e = 1e-5;
    VectorXd up(n), dn(n);
    dm.Evaluate(x + e * d.head(n), u + e * d.tail(m), t, h, up);
    dm.Evaluate(x - e * d.head(n), u - e * d.tail(m), t, h, dn);
    VectorXd fd = (up - dn) / (2 * e), an = J * d;
    if (f.gate == 0 || std::abs(x(0)) > 0.01)
      ctx.check((fd - an).cwiseAbs().maxCoeff() <= 1e-5 * js * scale * (1 + h * (f.W.norm() * f.g + std::abs(f.gate))), "derivative", [&] { return where() + "differences give " + str(fd) + ", the Jacobian " + str(an); });
    ctx.distinct(mon::hash_bytes(got.data(), 8 * n));
    ctx.count(std::string("steps_") + name);
    ctx.count(f.w != 0 ? "time_varying" : "autonomous");
    if (h == 0) ctx.check(bits(got, x), "zero-step", "a step of zero changes the state");
  }
  // order of accuracy over a fixed interval, from the discretised model alone against the accurate flow
  if (f.gate == 0) {
    VectorXd x = rvec(r, n, 0.7), u = rvec(r, m, 0.7);
    float t0 = r.integer(0, 8) / 4.0F;
    double T = 0.25;
    VectorXd ref = flow(f, x, u, t0, T);
    auto err = [&](int K, bool own) {
      VectorXd y = x, z(n);
      MatrixXd J;
      for (int i = 0; i < K; ++i) {
        if (own) z = step(f, rule, y, u, t0 + T * i / K, T / K, &J);
        else dm.Evaluate(y, u, static_cast<float>(t0 + T * i / K), static_cast<float>(T / K), z);
        y = z;
      }
      return (y - ref).norm();
    };
    int K = rule == kEuler ? 64 : 8;  // powers of two: exact times
    double e1 = err(K, false), e2 = err(2 * K, false), o1 = err(K, true), o2 = err(2 * K, true);
    int want = rule == kEuler ? 1 : 4;
    // not where the leading coefficient nearly vanishes: there the textbook rule doesn't show its order either
    if (e1 > 1e-9 * (1 + ref.norm()) && e1 < 1e-3 && std::log2(o1 / o2) > want - 0.25) {
      double q = std::log2(e1 / e2);
      ctx.check(q > want - 0.5 || e2 < 3e-11 * (1 + ref.norm()), "order", [&] { return mon::sf("%s: halving the step reduces the error from %g to %g (order %.2f, expected %d)", name, e1, e2, q, want); });
      ctx.count(std::string("orders_") + name);
    }
  }
}

template <int n_, int m_>
static void integrators(Rng& r, mon::Ctx& ctx) {
  int n = n_ > 0 ? n_ : r.integer(1, 8), m = m_ > 0 ? m_ : r.integer(1, 5);
  Field f = random_field(r, n, m), f2 = random_field(r, n, m);
  Model<n_, m_> model(f, r.coin());
  DiscretizedModel<Model<n_, m_>> rk(model);
  DiscretizedModel<Model<n_, m_>, ExplicitEuler> eu(model);
  // it keeps its own copy of the model
  Model<n_, m_> other(f2, r.coin());
  DiscretizedModel<Model<n_, m_>> rk2(other);
  if (r.coin()) model.field = f2;
  if (r.coin()) discrete(r, ctx, rk2, f2, kRk4, "rk4");
  discrete(r, ctx, rk, f, kRk4, "rk4");
  discrete(r, ctx, eu, f, kEuler, "euler");
  {  // the integrators by themselves, for one model after the other
    auto a = std::make_shared<Model<n_, m_>>(f, r.coin()), b = std::make_shared<Model<n_, m_>>(f2, r.coin());
    RungeKutta4<n_, m_> ri(n, m);
    ExplicitEuler ei(n, m);
    for (int i = 0; i < 4; ++i) {
      bool first = r.coin(), rk4 = r.coin();
      const Field& g = first ? f : f2;
      std::shared_ptr<ContinuousDynamics> p = first ? a : b;
      VectorXd x = rvec(r, n), u = rvec(r, m), got(n);
      float t = r.integer(0, 64) / 16.0F, h = r.integer(1, 8) / 16.0F;
      MatrixXd J = MatrixXd::Zero(n, n + m), Jown;
      VectorXd own = step(g, rk4 ? kRk4 : kEuler, x, u, t, h, &Jown);
      if (rk4) ri.Integrate(p, x, u, t, h, got), ri.Jacobian(p, x, u, t, h, J);
      else ei.Integrate(p, x, u, t, h, got), ei.Jacobian(p, x, u, t, h, J);
      double scale = 1 + own.norm() + x.norm();
      ctx.check((got - own).cwiseAbs().maxCoeff() <= 1e-11 * scale, "integrator-rule", [&] { return "integrator gives " + str(got) + ", the rule " + str(own); });
      ctx.check((J - Jown).cwiseAbs().maxCoeff() <= 1e-10 * (1 + Jown.cwiseAbs().maxCoeff()) * scale, "integrator-jacobian", [&] { return "integrator Jacobian " + str(J) + ", expected " + str(Jown); });
      ctx.count("integrators");
    }
  }
  if (ctx.want_sample()) ctx.sample(mon::sf("n=%d m=%d w=%g g=%g gate=%g", n, m, f.w, f.g, f.gate));
}
#ifdef STATIC_UNIT
void static_case(Rng& r, mon::Ctx& ctx) {
  if (r.coin()) integrators<3, 2>(r, ctx);
  else integrators<1, 1>(r, ctx);
}
#else
void static_case(Rng& r, mon::Ctx& ctx);
static void run(Rng& r, mon::Ctx& ctx) {
  if (r.coin(0.35)) static_case(r, ctx);
  else integrators<-1, -1>(r, ctx);
}
MON_MAIN(run)
#endif
