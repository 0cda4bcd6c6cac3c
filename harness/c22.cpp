// C22: finite differences have the right shape, layout and accuracy; the derivative checks accept exactly the right derivatives.
#include "altro/constraints/constraint.hpp"
#include "altro/problem/costfunction.hpp"
#include "altro/problem/dynamics.hpp"
#include "altro/utils/derivative_checker.hpp"
#include "capture.hpp"
#include "gen.hpp"
using namespace gen;
namespace ut = altro::utils;

// y = c + A z + W tanh(V z) + sum_i 1/2 z'H_i z + t s   (the exact derivatives are known)
struct Fun {
  int p = 1, N = 1;
  VectorXd c, s;
  MatrixXd A, W, V;
  std::vector<MatrixXd> H;
  VectorXd f(const VectorXd& z, double t = 0) const {
    VectorXd y = c + A * z + t * s + W * (V * z).array().tanh().matrix();
    for (int i = 0; i < p; ++i) y(i) += 0.5 * z.dot(H[i] * z);
    return y + 0.1 * t * A * z;
  }
  MatrixXd jac(const VectorXd& z, double t = 0) const {
    VectorXd th = (V * z).array().tanh();
    VectorXd dd = (1 - th.array().square()).matrix();
    MatrixXd J = (1 + 0.1 * t) * A + W * dd.asDiagonal() * V;
    for (int i = 0; i < p; ++i) J.row(i) += (H[i] * z).transpose();
    return J;
  }
  MatrixXd hess(const VectorXd& z, const VectorXd& b) const {
    VectorXd th = (V * z).array().tanh();
    VectorXd g = (-2 * th.array() * (1 - th.array().square())).matrix();
    MatrixXd Q = V.transpose() * VectorXd((W.transpose() * b).cwiseProduct(g)).asDiagonal() * V;
    for (int i = 0; i < p; ++i) Q += b(i) * H[i];
    return Q;
  }
  double w() const { return W.cwiseAbs().rowwise().sum().maxCoeff(); }
  // bounds of the second and third derivatives along one coordinate
  double second() const {
    double v = V.cwiseAbs().maxCoeff(), h = 0;
    for (auto& m : H) h = std::max(h, m.cwiseAbs().maxCoeff());
    return h + 0.8 * w() * v * v;
  }
  double third() const { double v = V.cwiseAbs().maxCoeff(); return 2 * w() * v * v * v; }
  double fourth() const { double v = V.cwiseAbs().maxCoeff(); return 5 * w() * v * v * v * v; }
};
static Fun make(Rng& r, int p, int N, bool smooth, bool quad, double s = 1) {
  Fun f;
  f.p = p, f.N = N;
  f.c = rvec(r, p, s), f.A = rmat(r, p, N, s), f.s = rvec(r, p, s);
  int k = r.integer(1, 3);
  f.W = smooth ? rmat(r, p, k, s) : MatrixXd::Zero(p, k);
  f.V = rmat(r, k, N);
  for (int i = 0; i < p; ++i) {
    MatrixXd h = quad ? rmat(r, N, N, s) : MatrixXd::Zero(N, N);
    f.H.push_back(h + h.transpose());
  }
  return f;
}

// Functions for the checkers; the returned derivative is off by `err` at (row, col), or lacks that entry.
struct Fault {
  bool on = false;
  int row = 0, col = 0;
  double err = 0;
  bool in_hessian = false;
  bool sym = false;
};
template <class M>
static void hurt(const Fault& fault, bool hessian, M&& J, int offr = 0, int offc = 0) {
  if (!fault.on || fault.in_hessian != hessian) return;
  auto add = [&](int i, int j) {
    i -= offr, j -= offc;
    if (i >= 0 && i < J.rows() && j >= 0 && j < J.cols()) J(i, j) += fault.err;
  };
  add(fault.row, fault.col);
  if (fault.sym && fault.row != fault.col) add(fault.col, fault.row);
}
static VectorXd cat(const VectorXdRef& x, const VectorXdRef& u) {
  VectorXd z(x.size() + u.size());
  z << x, u;
  return z;
}
template <class Base>
struct Plain : Base {
  Fun f;
  int n, m;
  Fault fault;
  Plain(Fun g, int n_, int m_) : f(g), n(n_), m(m_) {}
  int StateDimension() const override { return n; }
  int ControlDimension() const override { return m; }
};
struct Vec : Plain<altro::FunctionBase> {
  using Plain::Plain;
  int OutputDimension() const override { return f.p; }
  bool HasHessian() const override { return true; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> o) override { o = f.f(cat(x, u)); }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> J) override { J = f.jac(cat(x, u)), hurt(fault, false, J); }
  void Hessian(const VectorXdRef& x, const VectorXdRef& u, const VectorXdRef& b, Eigen::Ref<MatrixXd> h) override { h = f.hess(cat(x, u), b), hurt(fault, true, h); }
};
struct ConFn : Plain<altro::constraints::Constraint<altro::constraints::Inequality>> {
  using Plain::Plain;
  int OutputDimension() const override { return f.p; }
  bool HasHessian() const override { return true; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> o) override { o = f.f(cat(x, u)); }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> J) override { J = f.jac(cat(x, u)), hurt(fault, false, J); }
  void Hessian(const VectorXdRef& x, const VectorXdRef& u, const VectorXdRef& b, Eigen::Ref<MatrixXd> h) override { h = f.hess(cat(x, u), b), hurt(fault, true, h); }
};
struct Scal : Plain<altro::ScalarFunction> {
  using Plain::Plain;
  double Evaluate(const VectorXdRef& x, const VectorXdRef& u) override { return f.f(cat(x, u))(0); }
  void Gradient(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> g) override {
    MatrixXd J = f.jac(cat(x, u));
    hurt(fault, false, J);
    g = J.transpose();
  }
  void Hessian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> h) override { h = f.hess(cat(x, u), VectorXd::Ones(1)), hurt(fault, true, h); }
};
struct CostFn : Plain<altro::problem::CostFunction> {
  using Plain::Plain;
  double Evaluate(const VectorXdRef& x, const VectorXdRef& u) override { return f.f(cat(x, u))(0); }
  void Gradient(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> dx, Eigen::Ref<VectorXd> du) override {
    MatrixXd J = f.jac(cat(x, u));
    hurt(fault, false, J);
    dx = J.leftCols(n).transpose(), du = J.rightCols(m).transpose();
  }
  void Hessian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> xx, Eigen::Ref<MatrixXd> xu, Eigen::Ref<MatrixXd> uu) override {
    MatrixXd h = f.hess(cat(x, u), VectorXd::Ones(1));
    hurt(fault, true, h);
    xx = h.topLeftCorner(n, n), xu = h.topRightCorner(n, m), uu = h.bottomRightCorner(m, m);
  }
};
struct Cont : Plain<altro::problem::ContinuousDynamics> {
  using Plain::Plain;
  bool HasHessian() const override { return true; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, float t, Eigen::Ref<VectorXd> o) override { o = f.f(cat(x, u), t); }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, float t, Eigen::Ref<MatrixXd> J) override { J = f.jac(cat(x, u), t), hurt(fault, false, J); }
  void Hessian(const VectorXdRef& x, const VectorXdRef& u, float, const VectorXdRef& b, Eigen::Ref<MatrixXd> h) override { h = f.hess(cat(x, u), b), hurt(fault, true, h); }
};
struct Disc : Plain<altro::problem::DiscreteDynamics> {
  using Plain::Plain;
  bool HasHessian() const override { return true; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, float t, float h, Eigen::Ref<VectorXd> o) override { o = f.f(cat(x, u), t + 3 * h); }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, float t, float h, Eigen::Ref<MatrixXd> J) override { J = f.jac(cat(x, u), t + 3 * h), hurt(fault, false, J); }
  void Hessian(const VectorXdRef& x, const VectorXdRef& u, float, float, const VectorXdRef& b, Eigen::Ref<MatrixXd> h) override { h = f.hess(cat(x, u), b), hurt(fault, true, h); }
};

static void set_time(Rng& r, Cont& c) { c.SetTime(static_cast<float>(r.uni(-3, 3))); }
static void set_time(Rng& r, Disc& c) { c.SetTime(static_cast<float>(r.uni(-3, 3))), c.SetStep(static_cast<float>(r.uni(0, 1))); }
static void set_time(Rng&, altro::FunctionBase&) {}
template <class F>
static bool gradient(F&, const VectorXd*, const VectorXd*, double, bool, bool, bool*) { return true; }
static bool gradient_of(altro::ScalarFunction& s, const VectorXd& x, const VectorXd& u, double eps, bool verbose, bool noarg, bool dflt) {
  if (noarg) return dflt ? s.CheckGradient() : s.CheckGradient(eps, verbose);
  return dflt ? s.CheckGradient(x, u) : s.CheckGradient(x, u, eps, verbose);
}

template <class F>
static void checker(Rng& r, mon::Ctx& ctx, const char* name, bool scalar, bool square, bool symmetric) {
  int n = r.integer(1, 6), m = r.integer(1, 4), p = scalar ? 1 : square ? n : r.integer(1, 6);
  F fn(make(r, p, n + m, r.coin(0.7), r.coin(0.5), 0.7), n, m);
  set_time(r, fn);
  altro::FunctionBase& base = fn;
  double tol = r.pick({1e-4, 1e-4, 1e-3, 1e-2, 0.5, 1e-5});
  bool dflt = r.coin(0.3);
  if (dflt) tol = 1e-4;
  bool noarg = r.coin(), verbose = !dflt && r.coin(0.2);
  VectorXd x = rvec(r, n, 1), u = rvec(r, m, 1), b = scalar ? VectorXd::Ones(1) : rvec(r, p);
  int call = r.integer(0, scalar ? 2 : 1);  // Jacobian, Hessian, gradient
  if (call == 1 && tol < 1e-4) tol = 1e-4;
  auto ask = [&] {
    if (call == 2) {
      bool ok = false;
      auto* s = dynamic_cast<altro::ScalarFunction*>(&base);
      auto g = [&] { ok = gradient_of(*s, x, u, tol, verbose, noarg, dflt); };
      if (verbose) mon::capture(g);
      else g();
      return ok;
    }
    bool ok = false;
    auto g = [&] {
      if (call == 0) ok = noarg ? (dflt ? base.CheckJacobian() : base.CheckJacobian(tol, verbose)) : (dflt ? base.CheckJacobian(x, u) : base.CheckJacobian(x, u, tol, verbose));
      else ok = noarg ? (dflt ? base.CheckHessian() : base.CheckHessian(tol, verbose)) : (dflt ? base.CheckHessian(x, u, b) : base.CheckHessian(x, u, b, tol, verbose));
    };
    if (verbose) mon::capture(g);
    else g();
    return ok;
  };
  auto where = [&] { return mon::sf("%s, %s, n=%d m=%d p=%d tolerance %g %s%s: ", name, call == 0 ? "CheckJacobian" : call == 1 ? "CheckHessian" : "CheckGradient", n, m, p, tol, noarg ? "random point" : "given point", dflt ? " default tolerance" : ""); };
  VectorXd x0 = x, u0 = u, b0 = b;
  ctx.check(ask(), "accept", [&] { return where() + "the exact derivative is rejected"; });
  ctx.count("accepted");
  fn.fault.on = true;
  fn.fault.in_hessian = call == 1;
  fn.fault.sym = call == 1 && symmetric;
  int rows = call == 1 ? n + m : p, cols = n + m;
  bool all = rows * cols <= 30;
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j < cols; ++j) {
      if (!all && !r.coin(30.0 / (rows * cols))) continue;
      // an entry of the (unset) lower block of a cost's Hessian is that of the upper one
      if (fn.fault.sym && i > j) continue;
      fn.fault.row = i, fn.fault.col = j;
      fn.fault.err = (r.coin() ? 1 : -1) * tol * r.pick({1.3, 2.0, 10.0, 1e3});
      if (r.coin(0.05)) fn.fault.err = r.coin() ? NAN : INFINITY;
      if (!std::isfinite(fn.fault.err)) ctx.count("faults_nonfinite");
      ctx.check(!ask(), "reject", [&] { return where() + mon::sf("an error of %g in entry (%d, %d) is accepted", fn.fault.err, i, j); });
      ctx.count("faults");
      ctx.distinct(mon::mix(mon::mix(i * 100 + j) ^ mon::hash_bytes(&fn.fault.err, 8)));
      if (tol >= 1e-3) {  // and what is within the tolerance isn't
        fn.fault.err = (r.coin() ? 1 : -1) * tol * 0.5;
        ctx.check(ask(), "accept-within", [&] { return where() + mon::sf("an error of %g in entry (%d, %d) is rejected", fn.fault.err, i, j); });
        ctx.count("within");
      }
    }
  fn.fault.on = false;
  ctx.check(ask(), "accept-again", [&] { return where() + "the exact derivative is rejected the second time"; });
  ctx.check(bits(x, x0) && bits(u, u0) && bits(b, b0), "arguments", "the arguments were changed");
  // a fault in the other derivative is none of this check's business
  fn.fault.on = true, fn.fault.in_hessian = call != 1, fn.fault.row = 0, fn.fault.col = 0, fn.fault.err = 100;
  ctx.check(ask(), "accept-other", [&] { return where() + "rejected for an error in another derivative"; });
}

template <int P, int N>
static void differences(Rng& r, mon::Ctx& ctx) {
  int n = N > 0 ? N : r.integer(1, 9), p = P > 0 ? P : r.integer(1, 7);
  bool smooth = r.coin(), quad = r.coin();
  Fun f = make(r, p, n, smooth, quad), s = make(r, 1, n, smooth, quad);
  using X = Eigen::Matrix<double, N, 1>;
  using Y = Eigen::Matrix<double, P, 1>;
  X x = rvec(r, n, r.pick({0.3, 1.0, 4.0}));
  X x0 = x;
  bool central = r.coin(), dflt = r.coin(0.2);
  double eps = r.pick({1e-6, 1e-5, 1e-4, 1e-3, 1e-2});
  if (dflt) eps = 1e-6, central = false;
  long calls = 0;
  double reach = 0;
  bool sane = true;
  auto watch = [&](const VectorXd& z) {
    ++calls;
    sane = sane && z.size() == n;
    reach = std::max(reach, VectorXd(z - x0).cwiseAbs().maxCoeff());
  };
  auto fy = [&](const X& z) -> Y { watch(z); return f.f(z); };
  auto fs = [&](const X& z) -> double { watch(z); return s.f(z)(0); };
  auto where = [&] { return mon::sf("P=%d N=%d p=%d n=%d eps=%g %s %s%s: ", P, N, p, n, eps, central ? "central" : "forward", smooth ? "smooth " : "", quad ? "quadratic" : ""); };
  auto size = [&](const Fun& g) { return 1 + g.c.cwiseAbs().maxCoeff() + g.A.cwiseAbs().maxCoeff() * n * (1 + x.cwiseAbs().maxCoeff()) + g.w() + g.second() * n * n * (1 + x.squaredNorm()); };
  // truncation and rounding
  auto bound = [&](const Fun& g) {
    double t = central ? (smooth ? eps * eps / 6 * g.third() : 0) : eps / 2 * g.second();
    return 1.05 * t + 30 * 1.2e-16 * size(g) / eps;
  };
  {
    Eigen::Matrix<double, P, N> J = dflt ? ut::FiniteDiffJacobian<P, N>(fy, x) : ut::FiniteDiffJacobian<P, N>(fy, x, eps, central);
    MatrixXd want = f.jac(x);
    bool shape = J.rows() == p && J.cols() == n;
    ctx.check(shape, "jacobian-shape", [&] { return where() + "wrong shape"; });
    if (shape) ctx.check((J - want).cwiseAbs().maxCoeff() <= bound(f), "jacobian", [&] { return where() + mon::sf("error %g, expected at most %g", (J - want).cwiseAbs().maxCoeff(), bound(f)); });
    ctx.count(central ? "central_jacobians" : "forward_jacobians");
    ctx.distinct(mon::hash_bytes(J.data(), 8 * J.size()));
  }
  if (N < 0 && P < 0) {
    auto fd = [&](const VectorXd& z) -> VectorXd { watch(z); return f.f(z); };
    VectorXd xx = x;
    MatrixXd J = dflt ? ut::FiniteDiffJacobian(fd, xx) : ut::FiniteDiffJacobian(fd, xx, eps, central), want = f.jac(x);
    bool shape = J.rows() == p && J.cols() == n;
    ctx.check(shape && (J - want).cwiseAbs().maxCoeff() <= bound(f), "jacobian-dynamic", [&] { return where() + "the dynamic overload differs"; });
  }
  {
    X g = dflt ? ut::FiniteDiffGradient<N>(fs, x) : ut::FiniteDiffGradient<N>(fs, x, eps, central);
    VectorXd want = s.jac(x).transpose();
    bool shape = g.rows() == n;
    ctx.check(shape && (g - want).cwiseAbs().maxCoeff() <= bound(s), "gradient", [&] { return where() + mon::sf("error %g, expected at most %g", (g - want).cwiseAbs().maxCoeff(), bound(s)); });
    ctx.count("gradients");
  }
  ctx.check(reach <= eps * (1 + 1e-6) && sane, "reach", [&] { return where() + mon::sf("the function was evaluated %g away from the point", reach); });
  {
    double e = r.pick({1e-4, 1e-3, 1e-2});
    bool hd = r.coin(0.3), hc = r.coin(0.7);
    if (hd) e = 1e-4, hc = true;
    Eigen::Matrix<double, N, N> Hs = hd ? ut::FiniteDiffHessian<N>(fs, x) : ut::FiniteDiffHessian<N>(fs, x, e, hc);
    MatrixXd want = s.hess(x, VectorXd::Ones(1));
    double t = smooth ? (hc ? e * e * s.fourth() : 2 * e * s.third()) : 0;
    double lim = t + 60 * 1.2e-16 * size(s) / (e * e);
    bool shape = Hs.rows() == n && Hs.cols() == n;
    ctx.check(shape && (Hs - want).cwiseAbs().maxCoeff() <= lim, "hessian", [&] { return where() + mon::sf("Hessian (eps %g, central %d) error %g, expected at most %g", e, hc, (Hs - want).cwiseAbs().maxCoeff(), lim); });
    ctx.count("hessians");
  }
  ctx.check(bits(x, x0), "argument", [&] { return where() + "the argument was changed"; });
  if (central && smooth && eps == 1e-2) ctx.count("order_two_seen");
}

static void run(Rng& r, mon::Ctx& ctx) {
  srand(static_cast<unsigned>(r.next()));
  for (int i = 0; i < 3; ++i) switch (r.integer(0, 4)) {
      case 0: differences<3, 2>(r, ctx); break;
      case 1: differences<1, 1>(r, ctx); break;
      case 2: differences<2, 5>(r, ctx); break;
      default: differences<-1, -1>(r, ctx);
    }
  for (int i = 0; i < 3; ++i) switch (r.integer(0, 5)) {
      case 0: checker<Vec>(r, ctx, "function", false, false, false); break;
      case 1: checker<ConFn>(r, ctx, "constraint", false, false, false); break;
      case 2: checker<Scal>(r, ctx, "scalar function", true, false, false); break;
      case 3: checker<CostFn>(r, ctx, "cost", true, false, true); break;
      case 4: checker<Cont>(r, ctx, "continuous dynamics", false, true, false); break;
      default: checker<Disc>(r, ctx, "discrete dynamics", false, true, false);
    }
  if (ctx.want_sample()) ctx.sample("differences and checks");
}
MON_MAIN(run)
