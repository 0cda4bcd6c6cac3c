#pragma once
#include "gen.hpp"
namespace gen {
// Hostile user functions: from some call on (or in some region) they return non-finite or huge values.
enum Poison { kNone, kNan, kInf, kHuge };
struct Hostile {
  Poison what = kNone;
  int where = 0;  // 0 dynamics, 1 dynamics Jacobian, 2 cost, 3 gradient, 4 Hessian
  long after = 0, calls = 0;
  bool in_region = false;
  double v() const { return what == kNan ? NAN : what == kInf ? INFINITY : 1e200; }
  bool fire(int w, const VectorXd& x) {
    if (what == kNone || w != where) return false;
    if (in_region) return std::abs(x(0)) > 1.2;
    return ++calls > after;
  }
};
inline Hostile& hostile_state() {
  static Hostile h;
  return h;
}
#define hostile hostile_state()
class HModel : public Discrete {
 public:
  using Discrete::Discrete;
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, float t, float h, Eigen::Ref<VectorXd> xn) override {
    Discrete::Evaluate(x, u, t, h, xn);
    if (hostile.fire(0, x)) xn(xn.size() - 1) = hostile.v();
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, float t, float h, Eigen::Ref<MatrixXd> jac) override {
    Discrete::Jacobian(x, u, t, h, jac);
    if (hostile.fire(1, x)) jac(0, jac.cols() - 1) = hostile.v();
  }
};
class HCost : public Cost {
 public:
  using CostFunction::Gradient;
  using CostFunction::Hessian;
  using Cost::Cost;
  double Evaluate(const VectorXdRef& x, const VectorXdRef& u) override {
    double J = Cost::Evaluate(x, u);
    return hostile.fire(2, x) ? hostile.v() : J;
  }
  void Gradient(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> dx, Eigen::Ref<VectorXd> du) override {
    Cost::Gradient(x, u, dx, du);
    if (hostile.fire(3, x)) du(0) = hostile.v();
  }
  void Hessian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> xx, Eigen::Ref<MatrixXd> xu, Eigen::Ref<MatrixXd> uu) override {
    Cost::Hessian(x, u, xx, xu, uu);
    if (hostile.fire(4, x)) uu(0, 0) = hostile.v();
  }
};
}  // namespace gen
