// Generators of trajectory optimisation problems (user code: dynamics, costs, constraints) and an
// independent reference implementation of everything the solver is supposed to compute.
#pragma once
#include "altro/common/trajectory.hpp"
#include "altro/problem/problem.hpp"
#include "mon.hpp"
#include <atomic>

namespace gen {
using altro::MatrixXd;
using altro::VectorXd;
using altro::VectorXdRef;
using mon::Rng;

inline VectorXd rvec(Rng& r, int n, double s = 1.0) {
  VectorXd v(n);
  for (int i = 0; i < n; ++i) v(i) = s * r.uni(-1, 1);
  return v;
}
// The argument of a call that follows one at `old`: new, the same, or new in a part only, to see what is wrongly kept in between.
inline VectorXd partly(Rng& r, const VectorXd& old, VectorXd fresh) {
  if (old.size() != fresh.size() || fresh.size() == 0) return fresh;
  const int i = r.integer(0, static_cast<int>(fresh.size()) - 1);
  switch (r.integer(0, 9)) {
    case 0: case 1: case 2: return old;
    case 3: {
      VectorXd v = old;
      v(i) = fresh(i);
      return v;
    }
    case 4: return old.reverse();
    default: return fresh;
  }
}
inline MatrixXd rmat(Rng& r, int n, int m, double s = 1.0) {
  MatrixXd v(n, m);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < m; ++j) v(i, j) = s * r.uni(-1, 1);
  return v;
}
// Symmetric positive definite with eigenvalues at least lo.
inline MatrixXd rspd(Rng& r, int n, double lo = 0.1, double s = 1.0) {
  MatrixXd a = rmat(r, n, n, s);
  MatrixXd q = a * a.transpose() / n;
  q += lo * MatrixXd::Identity(n, n);
  return q;
}
inline bool close(double a, double b, double rtol, double atol) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::abs(a - b) <= atol + rtol * std::max(std::abs(a), std::abs(b));
}
// Matrices equal up to a tolerance relative to their magnitude.
template <class A, class B>
bool mclose(const A& a, const B& b, double rtol, double atol = 0) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  double scale = 0;
  for (int i = 0; i < a.rows(); ++i)
    for (int j = 0; j < a.cols(); ++j) {
      if (std::isfinite(a(i, j))) scale = std::max(scale, std::abs(a(i, j)));
      if (std::isfinite(b(i, j))) scale = std::max(scale, std::abs(b(i, j)));
    }
  for (int i = 0; i < a.rows(); ++i)
    for (int j = 0; j < a.cols(); ++j) {
      double x = a(i, j), y = b(i, j);
      if (std::isnan(x) || std::isnan(y)) {
        if (!(std::isnan(x) && std::isnan(y))) return false;
        continue;
      }
      if (std::isinf(x) || std::isinf(y)) {
        if (x != y) return false;
        continue;
      }
      if (std::abs(x - y) > rtol * scale + atol) return false;
    }
  return true;
}
template <class A, class B>
bool bits(const A& a, const B& b) {  // identical, NaN equal to NaN
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (int i = 0; i < a.rows(); ++i)
    for (int j = 0; j < a.cols(); ++j)
      if (!(a(i, j) == b(i, j) || (std::isnan(a(i, j)) && std::isnan(b(i, j))))) return false;
  return true;
}
template <class V>
std::string str(const V& v) {
  std::string s = "[";
  for (int i = 0; i < v.rows(); ++i)
    for (int j = 0; j < v.cols(); ++j) s += mon::sf("%s%.9g", (i + j) ? " " : "", static_cast<double>(v(i, j)));
  return s + "]";
}

// ----------------------------------------------------------------------------- dynamics
// A smooth discrete time model, x+ = f_k(x,u,t,h), with analytic derivatives.
//  lin:  x+ = x + h*((A + sin(w t) A2) x + (B + cos(w t) B2) u + d)
//  nonlin adds h * g * W tanh(Vx x + Vu u + s t).
// Derivatives are written entry by entry only where they can be non-zero (sparse writers), as the
// documentation allows: outputs are zero-initialised by the caller.
struct ModelData {
  int n = 1, m = 1;
  MatrixXd A, A2, B, B2, W, Vx, Vu;
  VectorXd d, s;
  double w = 0, g = 0;
  void f(const VectorXd& x, const VectorXd& u, double t, double h, VectorXd* out) const {
    VectorXd v = (A + std::sin(w * t) * A2) * x + (B + std::cos(w * t) * B2) * u + d;
    if (g != 0) {
      VectorXd z = Vx * x + Vu * u + s * t;
      v += g * W * z.array().tanh().matrix();
    }
    *out = x + h * v;
  }
  void jac(const VectorXd& x, const VectorXd& u, double t, double h, MatrixXd* out) const {
    MatrixXd Jx = A + std::sin(w * t) * A2, Ju = B + std::cos(w * t) * B2;
    if (g != 0) {
      VectorXd z = Vx * x + Vu * u + s * t;
      VectorXd th = z.array().tanh();
      VectorXd dd = (1 - th.array() * th.array()).matrix();
      Jx += g * W * dd.asDiagonal() * Vx;
      Ju += g * W * dd.asDiagonal() * Vu;
    }
    out->resize(n, n + m);
    *out << MatrixXd(MatrixXd::Identity(n, n) + h * Jx), MatrixXd(h * Ju);
  }
};
inline ModelData random_model(Rng& r, int n, int m, bool nonlin, bool timevar) {
  ModelData d;
  d.n = n;
  d.m = m;
  d.A = rmat(r, n, n, 1.0 / std::sqrt(n));
  d.B = rmat(r, n, m, 1.0);
  for (int i = 0; i < std::min(n, m); ++i) d.B(i, i) += (d.B(i, i) < 0 ? -1 : 1);
  d.A2 = timevar ? rmat(r, n, n, 0.5 / std::sqrt(n)) : MatrixXd::Zero(n, n);
  d.B2 = timevar ? rmat(r, n, m, 0.4) : MatrixXd::Zero(n, m);
  d.d = r.coin() ? rvec(r, n, 0.5) : VectorXd::Zero(n);
  d.w = timevar ? r.uni(0.5, 4) : 0;
  d.g = nonlin ? r.uni(0.2, 1.5) : 0;
  d.W = rmat(r, n, n, 1.0);
  d.Vx = rmat(r, n, n, 1.0);
  d.Vu = rmat(r, n, m, 1.0);
  d.s = timevar ? rvec(r, n, 1.0) : VectorXd::Zero(n);
  // random sparsity
  if (r.coin(0.3))
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j)
        if (i != j && r.coin(0.5)) d.A(i, j) = d.A2(i, j) = 0;
  return d;
}

// Relaxed atomics: countable from several threads without adding synchronisation that hides a race.
struct Counter {
  std::atomic<long> v{0};
  void operator++() { v.fetch_add(1, std::memory_order_relaxed); }
  operator long() const { return v.load(std::memory_order_relaxed); }
  void reset() { v.store(0, std::memory_order_relaxed); }
};

struct EvalLog {  // what the solver asked a user function for
  Counter neval, njac;
  std::vector<std::pair<float, float>> th;  // distinct (t,h) pairs seen
  void see(float t, float h) {
    for (auto& p : th)
      if (p.first == t && p.second == h) return;
    th.emplace_back(t, h);
  }
};

class Discrete : public altro::problem::DiscreteDynamics {
 public:
  using DiscreteDynamics::Evaluate;
  using DiscreteDynamics::Jacobian;
  using DiscreteDynamics::Hessian;
  explicit Discrete(ModelData d) : data(std::move(d)) {}
  int StateDimension() const override { return data.n; }
  int ControlDimension() const override { return data.m; }
  bool HasHessian() const override { return true; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, float t, float h, Eigen::Ref<VectorXd> xn) override {
    ++log.neval;
    if (keep_th) log.see(t, h);
    VectorXd o;
    data.f(x, u, t, h, &o);
    xn = o;
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, float t, float h, Eigen::Ref<MatrixXd> jac) override {
    ++log.njac;
    if (keep_th) log.see(t, h);
    MatrixXd o;
    data.jac(x, u, t, h, &o);
    for (int i = 0; i < o.rows(); ++i)
      for (int j = 0; j < o.cols(); ++j)
        if (o(i, j) != 0) jac(i, j) = o(i, j);
  }
  void Hessian(const VectorXdRef&, const VectorXdRef&, float, float, const VectorXdRef&, Eigen::Ref<MatrixXd>) override {}
  ModelData data;
  EvalLog log;
  bool keep_th = false;
};

// ----------------------------------------------------------------------------- costs
//  0.5 x'Qx + x'Hu + 0.5 u'Ru + q'x + r'u + c  +  a*sum log cosh(x_i - p_i)  +  b*sum cos(v_i u_i + e)
//  + crossing term k * sin(x_0) * u_0   (nonconvex)
struct CostData {
  int n = 1, m = 1;
  MatrixXd Q, R, H;
  VectorXd q, r, p;
  double c = 0, a = 0, b = 0, k = 0;
  double val(const VectorXd& x, const VectorXd& u) const {
    double J = 0.5 * x.dot(Q * x) + x.dot(H * u) + 0.5 * u.dot(R * u) + q.dot(x) + r.dot(u) + c;
    if (a != 0)
      for (int i = 0; i < n; ++i) {
        double z = std::abs(x(i) - p(i));
        J += a * (z + std::log1p(std::exp(-2 * z)) - std::log(2.0));
      }
    if (b != 0)
      for (int i = 0; i < m; ++i) J += b * std::cos(2 * u(i) + i);
    if (k != 0) J += k * std::sin(x(0)) * u(0);
    return J;
  }
  void grad(const VectorXd& x, const VectorXd& u, VectorXd* dx, VectorXd* du) const {
    *dx = Q * x + H * u + q;
    *du = R * u + H.transpose() * x + r;
    if (a != 0)
      for (int i = 0; i < n; ++i) (*dx)(i) += a * std::tanh(x(i) - p(i));
    if (b != 0)
      for (int i = 0; i < m; ++i) (*du)(i) -= 2 * b * std::sin(2 * u(i) + i);
    if (k != 0) {
      (*dx)(0) += k * std::cos(x(0)) * u(0);
      (*du)(0) += k * std::sin(x(0));
    }
  }
  void hess(const VectorXd& x, const VectorXd& u, MatrixXd* xx, MatrixXd* xu, MatrixXd* uu) const {
    *xx = Q;
    *xu = H;
    *uu = R;
    if (a != 0)
      for (int i = 0; i < n; ++i) {
        double t = std::tanh(x(i) - p(i));
        (*xx)(i, i) += a * (1 - t * t);
      }
    if (b != 0)
      for (int i = 0; i < m; ++i) (*uu)(i, i) -= 4 * b * std::cos(2 * u(i) + i);
    if (k != 0) {
      (*xx)(0, 0) -= k * std::sin(x(0)) * u(0);
      (*xu)(0, 0) += k * std::cos(x(0));
    }
  }
};
enum CostKind { kQuad, kSmooth, kNonconvex };
inline CostData random_cost(Rng& r, int n, int m, CostKind kind, bool terminal) {
  CostData d;
  d.n = n;
  d.m = m;
  // jointly positive definite [Q H; H' R]
  MatrixXd z = rspd(r, n + m, 0.15, 1.2);
  d.Q = z.topLeftCorner(n, n);
  d.R = z.bottomRightCorner(m, m);
  d.H = z.topRightCorner(n, m);
  if (r.coin(0.4)) d.H.setZero();
  d.q = rvec(r, n);
  d.r = rvec(r, m);
  d.p = rvec(r, n);
  d.c = r.uni(-1, 1);
  if (kind != kQuad) d.a = r.uni(0.1, 1.5);
  if (kind == kNonconvex) {
    d.b = r.uni(0.1, 1.0);
    d.k = r.uni(-1, 1);
  }
  if (terminal) {
    d.R.setZero();
    d.H.setZero();
    d.r.setZero();
    d.b = d.k = 0;
    d.Q *= r.uni(1, 10);
  }
  return d;
}

class Cost : public altro::problem::CostFunction {
 public:
  using CostFunction::Gradient;
  using CostFunction::Hessian;
  explicit Cost(CostData d) : data(std::move(d)) {}
  int StateDimension() const override { return data.n; }
  int ControlDimension() const override { return data.m; }
  double Evaluate(const VectorXdRef& x, const VectorXdRef& u) override {
    ++neval;
    return data.val(x, u);
  }
  void Gradient(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> dx, Eigen::Ref<VectorXd> du) override {
    ++ngrad;
    VectorXd a, b;
    data.grad(x, u, &a, &b);
    for (int i = 0; i < data.n; ++i)
      if (a(i) != 0) dx(i) = a(i);
    for (int i = 0; i < data.m; ++i)
      if (b(i) != 0) du(i) = b(i);
  }
  void Hessian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> dxdx, Eigen::Ref<MatrixXd> dxdu,
               Eigen::Ref<MatrixXd> dudu) override {
    ++nhess;
    MatrixXd xx, xu, uu;
    data.hess(x, u, &xx, &xu, &uu);
    for (int i = 0; i < data.n; ++i)
      for (int j = 0; j < data.n; ++j)
        if (xx(i, j) != 0) dxdx(i, j) = xx(i, j);
    for (int i = 0; i < data.n; ++i)
      for (int j = 0; j < data.m; ++j)
        if (xu(i, j) != 0) dxdu(i, j) = xu(i, j);
    for (int i = 0; i < data.m; ++i)
      for (int j = 0; j < data.m; ++j)
        if (uu(i, j) != 0) dudu(i, j) = uu(i, j);
  }
  CostData data;
  Counter neval, ngrad, nhess;
};

// ----------------------------------------------------------------------------- constraints
// c_i = a_i'x + b_i'u - e_i + g * (x'x + u'u)/2 + gate * max(0, x_0)^2     (g == gate == 0: affine)
struct ConData {
  int p = 1, n = 1, m = 1;
  MatrixXd A, B;
  VectorXd e;
  double g = 0, gate = 0;
  bool eq = false;
  std::string label;
  VectorXd val(const VectorXd& x, const VectorXd& u) const {
    VectorXd v = A * x + B * u - e;
    if (g != 0) v.array() += 0.5 * g * (x.squaredNorm() + u.squaredNorm());
    if (gate != 0 && x(0) > 0) v.array() += gate * x(0) * x(0);
    return v;
  }
  MatrixXd jac(const VectorXd& x, const VectorXd& u) const {
    MatrixXd J(p, n + m);
    J << A, B;
    if (g != 0)
      for (int i = 0; i < p; ++i) {
        J.row(i).head(n) += g * x.transpose();
        J.row(i).tail(m) += g * u.transpose();
      }
    if (gate != 0 && x(0) > 0) J.col(0).array() += 2 * gate * x(0);
    return J;
  }
  VectorXd violation(const VectorXd& x, const VectorXd& u) const {
    VectorXd v = val(x, u);
    if (!eq)
      for (int i = 0; i < p; ++i) v(i) = v(i) > 0 ? v(i) : (v(i) <= 0 ? 0.0 : v(i));
    return v;
  }
};
template <class Type>
class Con : public altro::constraints::Constraint<Type> {
 public:
  explicit Con(ConData d) : data(std::move(d)) {}
  std::string GetLabel() const override { return data.label; }
  int StateDimension() const override { return data.n; }
  int ControlDimension() const override { return data.m; }
  int OutputDimension() const override { return data.p; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> c) override {
    ++neval;
    c = data.val(x, u);
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> jac) override {
    ++njac;
    MatrixXd o = data.jac(x, u);
    for (int i = 0; i < o.rows(); ++i)  // only what is not zero, like the other derivative functions
      for (int j = 0; j < o.cols(); ++j)
        if (o(i, j) != 0) jac(i, j) = o(i, j);
  }
  ConData data;
  Counter neval, njac;
};

// ----------------------------------------------------------------------------- whole problems
struct Setup {
  int n = 2, m = 1, N = 5;
  VectorXd x0;
  std::vector<std::shared_ptr<Discrete>> models;  // N
  std::vector<std::shared_ptr<Cost>> costs;       // N+1
  std::vector<std::vector<ConData>> cons;         // per knot point, equality first, in solver order
  std::vector<float> times, steps;                // N+1
  std::vector<VectorXd> U;                        // initial guess, N
  int guess_style = 0;                            // states of the guess: 0 zero, 1 the initial state, 2 arbitrary
  std::shared_ptr<altro::problem::Problem> prob;

  int ncon() const {
    int c = 0;
    for (auto& v : cons)
      for (auto& d : v) c += d.p;
    return c;
  }
  // -- reference computations on (X,U)
  template <class T>
  double cost(const T& Z) const {
    double J = 0;
    for (int k = 0; k <= N; ++k) J += costs[k]->data.val(Z.State(k), Z.Control(k));
    return J;
  }
  template <class T>
  double cost_scale(const T& Z) const {
    double J = 0;
    for (int k = 0; k <= N; ++k) J += std::abs(costs[k]->data.val(Z.State(k), Z.Control(k)));
    return J;
  }
  template <class T>
  double violation(const T& Z, double pnorm = 0) const {
    double v = 0;
    for (int k = 0; k <= N; ++k)
      for (auto& d : cons[k]) {
        VectorXd w = d.violation(Z.State(k), Z.Control(k));
        for (int i = 0; i < w.size(); ++i) {
          if (std::isnan(w(i))) return NAN;
          if (pnorm == 0) v = std::max(v, std::abs(w(i)));
          else v += std::pow(std::abs(w(i)), pnorm);
        }
      }
    return pnorm == 0 ? v : std::pow(v, 1 / pnorm);
  }
  void build() {
    prob = std::make_shared<altro::problem::Problem>(N);
    for (int k = 0; k < N; ++k) prob->SetDynamics(models[k], k);
    for (int k = 0; k <= N; ++k) prob->SetCostFunction(costs[k], k);
    for (int k = 0; k <= N; ++k)
      for (auto& d : cons[k]) {
        if (d.eq) prob->SetConstraint(std::make_shared<Con<altro::constraints::Equality>>(d), k);
        else prob->SetConstraint(std::make_shared<Con<altro::constraints::Inequality>>(d), k);
      }
    prob->SetInitialState(x0);
  }
  template <int n_, int m_>
  std::shared_ptr<altro::Trajectory<n_, m_>> guess() const {
    auto Z = std::make_shared<altro::Trajectory<n_, m_>>(n, m, N);
    fill(*Z);
    return Z;
  }
  template <class T>
  void fill(T& Z) const {
    for (int k = 0; k <= N; ++k) {
      Z.State(k).setZero();
      if (guess_style == 1) Z.State(k) = x0;
      if (guess_style == 2)
        for (int i = 0; i < n; ++i) Z.State(k)(i) = ((7 * k + 3 * i) % 11 - 5) * 0.7;
      Z.Control(k).setZero();
      if (k < N) Z.Control(k) = U[k];
      Z.SetTime(k, times[k]);
      Z.SetStep(k, steps[k]);
    }
  }
  std::string describe() const {
    return mon::sf("n=%d m=%d N=%d h0=%.3g t0=%.3g ncon=%d nonlin=%d costs(a=%.2g,b=%.2g,k=%.2g)", n, m, N, steps[0],
                   times[0], ncon(), models[0]->data.g != 0, costs[0]->data.a, costs[0]->data.b, costs[0]->data.k);
  }
};

struct GenOpt {
  int nmin = 1, nmax = 5, mmin = 1, mmax = 3, Nmin = 1, Nmax = 20;
  bool nonlin = false, timevar = true;
  CostKind cost = kQuad;
  int maxcon = 0;        // constraints per knot point
  bool affine_only = true;
  bool feasible = true;  // a reference trajectory satisfies every constraint
  double eq_prob = 0.2;
  double tight = 0.3;    // slack of inequalities at the reference trajectory
  bool shared = false;   // same model/cost object at every knot point
  double big = 0.03;     // probability of a horizon, or a dimension, beyond the usual range
};

inline void random_times(Rng& r, Setup& s) {
  s.times.assign(s.N + 1, 0);
  s.steps.assign(s.N + 1, 0);
  int style = r.integer(0, 2);
  float h = static_cast<float>(r.uni(0.05, 0.25));
  float t = style == 0 ? 0.0f : static_cast<float>(r.uni(-1, 3));
  for (int k = 0; k <= s.N; ++k) {
    s.times[k] = t;
    if (k < s.N) {
      s.steps[k] = style == 2 ? static_cast<float>(r.uni(0.03, 0.3)) : h;
      t += s.steps[k];
    }
  }
}

inline Setup random_setup(Rng& r, const GenOpt& o, int n = 0, int m = 0) {
  Setup s;
  s.n = n ? n : r.integer(o.nmin, o.nmax);
  s.m = m ? m : r.integer(o.mmin, o.mmax);
  s.N = r.integer(o.Nmin, o.Nmax);
  if (o.big > 0 && r.coin(o.big)) s.N = r.integer(o.Nmax + 1, 6 * o.Nmax);
  if (o.big > 0 && !n && !m && r.coin(o.big)) {
    s.n = r.integer(o.nmax, 2 * o.nmax);
    s.m = r.integer(o.mmax, 2 * o.mmax);
  }
  s.x0 = rvec(r, s.n, 1.5);
  if (r.coin(0.1)) s.x0.setZero();
  s.guess_style = r.pick({0, 0, 0, 1, 1, 2});
  random_times(r, s);
  // 0: all different; 1: all knot points share one object (the usual way to build a problem)
  bool shared = o.shared;
  for (int k = 0; k < s.N; ++k) {
    if (shared && k > 0) s.models.push_back(s.models[0]);
    else s.models.push_back(std::make_shared<Discrete>(random_model(r, s.n, s.m, o.nonlin, o.timevar)));
  }
  for (int k = 0; k <= s.N; ++k) {
    if (shared && k > 0 && k < s.N) s.costs.push_back(s.costs[0]);
    else s.costs.push_back(std::make_shared<Cost>(random_cost(r, s.n, s.m, o.cost, k == s.N)));
  }
  bool still = r.coin(0.25);  // no control at all
  for (int k = 0; k < s.N; ++k) s.U.push_back(rvec(r, s.m, still || r.coin() ? 0.0 : 0.8));
  s.cons.resize(s.N + 1);
  if (o.maxcon > 0) {
    // reference trajectory
    VectorXd x = s.x0;
    for (int k = 0; k <= s.N; ++k) {
      VectorXd u = k < s.N ? rvec(r, s.m, 0.7) : VectorXd(VectorXd::Zero(s.m));
      int nc = r.integer(0, o.maxcon);
      std::vector<ConData> eqs, ins;
      int eqrows = 0;
      for (int i = 0; i < nc; ++i) {
        ConData d;
        d.n = s.n;
        d.m = s.m;
        d.eq = r.coin(o.eq_prob);
        d.p = d.eq ? (r.coin(0.3) ? r.integer(1, s.m) : 1) : (r.coin(0.12) ? r.integer(4, 8) : r.integer(1, 3));
        if (d.eq && (k == 0 || eqrows + d.p > s.m)) d.eq = false;
        if (d.eq) eqrows += d.p;
        d.A = rmat(r, d.p, s.n, 1.0);
        d.B = rmat(r, d.p, s.m, 1.0);
        if (k == s.N) d.B.setZero();
        if (k == 0) d.A.setZero();
        if (!o.affine_only && !d.eq && r.coin()) d.g = r.uni(0, 0.5);
        d.e = VectorXd::Zero(d.p);
        VectorXd v = d.val(x, u);
        if (o.feasible) d.e = v;
        else d.e = rvec(r, d.p, 1.0);
        if (!d.eq)
          for (int j = 0; j < d.p; ++j) d.e(j) += o.tight * r.uni(0, 1);
        d.label = mon::sf("con_k%d_%d_%s", k, i, d.eq ? "eq" : "ineq");
        (d.eq ? eqs : ins).push_back(d);
      }
      s.cons[k] = eqs;
      s.cons[k].insert(s.cons[k].end(), ins.begin(), ins.end());
      if (k < s.N) {
        VectorXd xn;
        s.models[k]->data.f(x, u, s.times[k], s.steps[k], &xn);
        x = xn;
      }
    }
  }
  s.build();
  return s;
}

// Feasibility monitor: every state is what the user's dynamics gives for the previous knot point.
template <class T>
void check_feasible(mon::Ctx& ctx, const Setup& s, const T& Z, const char* where) {
  ctx.check(bits(Z.State(0), s.x0), "initial-state", [&] {
    return mon::sf("%s: x_0=%s but the initial state is %s; %s", where, str(Z.State(0)).c_str(), str(s.x0).c_str(),
                   s.describe().c_str());
  });
  for (int k = 0; k < s.N; ++k) {
    VectorXd xn;
    s.models[k]->data.f(Z.State(k), Z.Control(k), s.times[k], s.steps[k], &xn);
    ctx.check(mclose(xn, Z.State(k + 1), 1e-9, 1e-12), "dynamics-defect", [&] {
      return mon::sf("%s: x_%d=%s but the dynamics give %s; %s", where, k + 1, str(Z.State(k + 1)).c_str(),
                     str(xn).c_str(), s.describe().c_str());
    });
  }
  for (int k = 0; k <= s.N; ++k)
    ctx.check(static_cast<float>(Z.GetTime(k)) == s.times[k] && Z.GetStep(k) == s.steps[k], "time-changed", [&] {
      return mon::sf("%s: knot point %d has t=%g h=%g, the user set t=%g h=%g", where, k,
                     static_cast<double>(Z.GetTime(k)), static_cast<double>(Z.GetStep(k)),
                     static_cast<double>(s.times[k]), static_cast<double>(s.steps[k]));
    });
}

template <class T>
uint64_t traj_hash(const T& Z) {
  uint64_t h = 7;
  for (int k = 0; k <= Z.NumSegments(); ++k) {
    h = mon::hash_bytes(Z.State(k).data(), sizeof(double) * Z.State(k).size(), h);
    h = mon::hash_bytes(Z.Control(k).data(), sizeof(double) * Z.Control(k).size(), h);
  }
  return h;
}
struct Snapshot {  // plain copy of a trajectory
  std::vector<VectorXd> X, U;
  std::vector<double> t, h;
  template <class T>
  static Snapshot of(const T& Z) {
    Snapshot s;
    for (int k = 0; k <= Z.NumSegments(); ++k) {
      s.X.push_back(Z.State(k));
      s.U.push_back(Z.Control(k));
      s.t.push_back(Z.GetTime(k));
      s.h.push_back(Z.GetStep(k));
    }
    return s;
  }
  int NumSegments() const { return X.size() - 1; }
  const VectorXd& State(int k) const { return X[k]; }
  const VectorXd& Control(int k) const { return U[k]; }
  bool same(const Snapshot& o) const {
    if (X.size() != o.X.size()) return false;
    for (size_t k = 0; k < X.size(); ++k)
      if (!bits(X[k], o.X[k]) || !bits(U[k], o.U[k]) || t[k] != o.t[k] || h[k] != o.h[k]) return false;
    return true;
  }
  bool finite() const {
    for (size_t k = 0; k < X.size(); ++k)
      if (!X[k].allFinite() || !U[k].allFinite()) return false;
    return true;
  }
};

}  // namespace gen
