// Small linear-quadratic test problems for the demonstrations.
#pragma once
#include <cmath>
#include <cstdio>
#include <memory>
#include "altro/augmented_lagrangian/al_solver.hpp"
#include "altro/ilqr/ilqr.hpp"
using namespace altro;
using Eigen::MatrixXd;
using Eigen::VectorXd;
#define REQUIRE(c)                                            \
  do {                                                        \
    if (!(c)) { printf("FAILED line %d: %s\n", __LINE__, #c); fflush(stdout); _Exit(1); } \
  } while (0)
struct Lin : problem::DiscreteDynamics {
  using DiscreteDynamics::Evaluate;
  MatrixXd A, B;
  VectorXd d;
  Lin(MatrixXd a, MatrixXd b) : A(a), B(b), d(VectorXd::Zero(a.rows())) {}
  int StateDimension() const override { return A.rows(); }
  int ControlDimension() const override { return B.cols(); }
  bool HasHessian() const override { return false; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, float t, float h, Eigen::Ref<VectorXd> xn) override { xn = A * x + B * u + d; }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, float t, float h, Eigen::Ref<MatrixXd> jac) override { jac << A, B; }
  void Hessian(const VectorXdRef&, const VectorXdRef&, float, float, const VectorXdRef&, Eigen::Ref<MatrixXd>) override {}
};
struct Quad : problem::CostFunction {
  using CostFunction::Gradient;
  using CostFunction::Hessian;
  MatrixXd Q, R, H;
  VectorXd q, r;
  Quad(int n, int m) : Q(MatrixXd::Identity(n, n)), R(MatrixXd::Identity(m, m)), H(MatrixXd::Zero(n, m)), q(VectorXd::Zero(n)), r(VectorXd::Zero(m)) {}
  int StateDimension() const override { return Q.rows(); }
  int ControlDimension() const override { return R.rows(); }
  double Evaluate(const VectorXdRef& x, const VectorXdRef& u) override {
    return 0.5 * x.dot(Q * x) + x.dot(H * u) + 0.5 * u.dot(R * u) + q.dot(x) + r.dot(u);
  }
  void Gradient(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> dx, Eigen::Ref<VectorXd> du) override {
    dx = Q * x + H * u + q;
    du = R * u + H.transpose() * x + r;
  }
  void Hessian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> xx, Eigen::Ref<MatrixXd> xu, Eigen::Ref<MatrixXd> uu) override {
    xx = Q;
    xu = H;
    uu = R;
  }
};
template <class Type>
struct Aff : constraints::Constraint<Type> {  // A x + B u - e
  MatrixXd A, B;
  VectorXd e;
  std::string label = "aff";
  Aff(MatrixXd a, MatrixXd b, VectorXd c) : A(a), B(b), e(c) {}
  std::string GetLabel() const override { return label; }
  int StateDimension() const override { return A.cols(); }
  int ControlDimension() const override { return B.cols(); }
  int OutputDimension() const override { return e.size(); }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> c) override { c = A * x + B * u - e; }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> jac) override { jac << A, B; }
};
using Eq = Aff<constraints::Equality>;
using Ineq = Aff<constraints::Inequality>;
// Double integrator with step 0.1 (state 2, control 1), identity costs with a heavier terminal cost.
struct Toy {
  int N;
  std::shared_ptr<problem::Problem> prob;
  std::vector<std::shared_ptr<Lin>> models;
  std::vector<std::shared_ptr<Quad>> costs;
  std::shared_ptr<Trajectory<-1, -1>> Z;
  explicit Toy(int N_ = 10) : N(N_), prob(std::make_shared<problem::Problem>(N_)) {
    MatrixXd A(2, 2), B(2, 1);
    A << 1, 0.1, 0, 1;
    B << 0.005, 0.1;
    for (int k = 0; k <= N; ++k) {
      if (k < N) {
        models.push_back(std::make_shared<Lin>(A, B));
        prob->SetDynamics(models[k], k);
      }
      costs.push_back(std::make_shared<Quad>(2, 1));
      if (k == N) { costs[k]->Q *= 100; costs[k]->R *= 0; }
      prob->SetCostFunction(costs[k], k);
    }
    prob->SetInitialState(Eigen::Vector2d(1, -0.5));
    Z = std::make_shared<Trajectory<-1, -1>>(2, 1, N);
    Z->SetUniformStep(0.1F);
  }
};
