// C05: stored expansions are exactly the user's derivatives at the current point, with zeroed outputs.
#include "solve.hpp"
using namespace gen;
using altro::ilqr::iLQR;

// Which entries a derivative function writes depends on where it is evaluated.
static bool written(double salt, const VectorXdRef& x, const VectorXdRef& u, int i, int j) {
  uint64_t h = mon::mix(static_cast<uint64_t>(i * 131 + j + 7));
  double v = salt + x(0) + (u.size() ? u(0) : 0);
  h = mon::hash_bytes(&v, sizeof v, h);
  return (mon::mix(h) & 3) != 0;
}
struct Seen {
  VectorXd x, u;
  float t = 0, h = 0;
  bool nonzero = false;
  long calls = 0;
};
class SparseCost : public Cost {
 public:
  using CostFunction::Gradient;
  using CostFunction::Hessian;
  SparseCost(CostData d, double s) : Cost(d), salt(s) {}
  void ref_grad(const VectorXdRef& x, const VectorXdRef& u, VectorXd* a, VectorXd* b) const {
    data.grad(x, u, a, b);
    for (int i = 0; i < data.n; ++i)
      if (!written(salt, x, u, i, 1)) (*a)(i) = 0;
    for (int i = 0; i < data.m; ++i)
      if (!written(salt, x, u, i, 2)) (*b)(i) = 0;
  }
  void ref_hess(const VectorXdRef& x, const VectorXdRef& u, MatrixXd* xx, MatrixXd* xu, MatrixXd* uu) const {
    data.hess(x, u, xx, xu, uu);
    for (int i = 0; i < data.n; ++i)
      for (int j = 0; j < data.n; ++j)
        if (i != j && !written(salt, x, u, std::min(i, j), 10 + std::max(i, j))) (*xx)(i, j) = 0;
    for (int i = 0; i < data.n; ++i)
      for (int j = 0; j < data.m; ++j)
        if (!written(salt, x, u, i, 40 + j)) (*xu)(i, j) = 0;
    for (int i = 0; i < data.m; ++i)
      for (int j = 0; j < data.m; ++j)
        if (i != j && !written(salt, x, u, std::min(i, j), 70 + std::max(i, j))) (*uu)(i, j) = 0;
  }
  void Gradient(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> dx, Eigen::Ref<VectorXd> du) override {
    note(x, u, !dx.isZero(0) || !du.isZero(0));
    VectorXd a, b;
    ref_grad(x, u, &a, &b);
    for (int i = 0; i < data.n; ++i)
      if (a(i) != 0) dx(i) = a(i);
    for (int i = 0; i < data.m; ++i)
      if (b(i) != 0) du(i) = b(i);
  }
  void Hessian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> dxdx, Eigen::Ref<MatrixXd> dxdu,
               Eigen::Ref<MatrixXd> dudu) override {
    note(x, u, !dxdx.isZero(0) || !dxdu.isZero(0) || !dudu.isZero(0));
    MatrixXd xx, xu, uu;
    ref_hess(x, u, &xx, &xu, &uu);
    for (int i = 0; i < data.n; ++i)
      for (int j = 0; j < data.n; ++j)
        if (xx(i, j) != 0) dxdx(i, j) = xx(i, j);
    for (int i = 0; i < data.n; ++i)
      for (int j = 0; j < data.m; ++j)
        if (xu(i, j) != 0) dxdu(i, j) = xu(i, j);
    for (int i = 0; i < data.m; ++i)
      for (int j = 0; j < data.m; ++j)
        if (uu(i, j) != 0) dudu(i, j) = uu(i, j);
  }
  void note(const VectorXdRef& x, const VectorXdRef& u, bool nz) {
    seen.x = x;
    seen.u = u;
    seen.nonzero = seen.nonzero || nz;
    ++seen.calls;
  }
  double salt;
  Seen seen;
};
class SparseModel : public Discrete {
 public:
  SparseModel(ModelData d, double s) : Discrete(d), salt(s) {}
  void ref_jac(const VectorXdRef& x, const VectorXdRef& u, float t, float h, MatrixXd* o) const {
    data.jac(x, u, t, h, o);
    for (int i = 0; i < o->rows(); ++i)
      for (int j = 0; j < o->cols(); ++j)
        if (!written(salt, x, u, i, 100 + j)) (*o)(i, j) = 0;
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, float t, float h, Eigen::Ref<MatrixXd> jac) override {
    seen.x = x;
    seen.u = u;
    seen.t = t;
    seen.h = h;
    seen.nonzero = seen.nonzero || !jac.isZero(0);
    ++seen.calls;
    MatrixXd o;
    ref_jac(x, u, t, h, &o);
    for (int i = 0; i < o.rows(); ++i)
      for (int j = 0; j < o.cols(); ++j)
        if (o(i, j) != 0) jac(i, j) = o(i, j);
  }
  double salt;
  Seen seen;
};

template <int n_, int m_>
static void expansions(Rng& r, mon::Ctx& ctx) {
  GenOpt o;
  o.nonlin = true;
  o.cost = kNonconvex;
  o.Nmax = 16;
  Setup s = random_setup(r, o, n_ > 0 ? n_ : 0, m_ > 0 ? m_ : 0);
  std::vector<std::shared_ptr<SparseCost>> costs;
  std::vector<std::shared_ptr<SparseModel>> models;
  for (int k = 0; k <= s.N; ++k) {
    CostData cd = s.costs[k]->data;
    if (k == s.N) cd = random_cost(r, s.n, s.m, kNonconvex, false);  // the terminal cost may use the control as well
    costs.push_back(std::make_shared<SparseCost>(cd, r.uni(-1, 1)));
    s.costs[k] = costs[k];
    if (k < s.N) {
      models.push_back(std::make_shared<SparseModel>(s.models[k]->data, r.uni(-1, 1)));
      s.models[k] = models[k];
    }
  }
  s.build();
  iLQR<n_, m_> il(*s.prob);
  il.GetOptions().nthreads = r.pick({1, 1, 2, 3, 5});
  il.GetOptions().tasks_per_thread = r.pick({1, 1, 2, 4});
  if (r.coin(0.3)) {
    std::vector<int> cut{0};
    for (int k = 1; k <= s.N; ++k)
      if (r.coin(0.4)) cut.push_back(k);
    cut.push_back(s.N + 1);
    il.SetTaskAssignment(cut);
  }
  auto Z = s.guess<n_, m_>();
  il.SetTrajectory(Z);
  int rounds = r.integer(1, 5);
  for (int round = 0; round < rounds; ++round) {
    int how = r.integer(0, 3);
    if (how == 0 && round > 0) {
      Z = s.guess<n_, m_>();
      random_times(r, s);
      s.fill(*Z);
      il.SetTrajectory(Z);
      ctx.count("new_trajectory");
    }
    if (how == 1) {
      random_times(r, s);
      s.fill(*Z);
      ctx.count("new_times");
    }
    if (r.coin(0.2)) {
      il.GetOptions().nthreads = r.pick({1, 2, 4});
      ctx.count("changed_threads");
    }
    for (int k = 0; k <= s.N; ++k) {
      Z->State(k) = partly(r, Z->State(k), rvec(r, s.n, 2));
      Z->Control(k) = partly(r, Z->Control(k), rvec(r, s.m, 2));
      if (r.coin(0.1)) Z->State(k).setZero();
      if (r.coin(0.1)) {  // the same point, but another function
        costs[k]->data.q = rvec(r, s.n);
        costs[k]->data.c += 1;
        ctx.count("changed_functions");
      }
      if (k < s.N && r.coin(0.1)) models[k]->data.A += rmat(r, s.n, s.n, 0.3);
      if (how == 2 && r.coin(0.3)) {  // and only some of the times
        if (r.coin()) Z->SetTime(k, s.times[k] += 0.25f);
        else if (k < s.N) Z->SetStep(k, s.steps[k] *= 1.5f);
        ctx.count("changed_one_time");
      }
    }
    if (round == 0 || r.coin(0.7)) il.SolveSetup();
    for (auto& c : costs) c->seen = Seen();
    for (auto& m : models) m->seen = Seen();
    il.UpdateExpansions();
    ctx.count(il.NumThreads() > 1 ? "threaded_updates" : "serial_updates");
    for (int k = 0; k <= s.N; ++k) {
      VectorXd x = Z->State(k), u = Z->Control(k), dx, du;
      MatrixXd xx, xu, uu;
      costs[k]->ref_grad(x, u, &dx, &du);
      costs[k]->ref_hess(x, u, &xx, &xu, &uu);
      auto& kp = il.GetKnotPointFunction(k);
      auto& e = kp.GetCostExpansion();
      ctx.check(bits(e.dx(), dx) && bits(e.du(), du), "cost-gradient", [&] {
        return mon::sf("gradient stored at %d is %s %s, the cost function gives %s %s", k, str(e.dx()).c_str(), str(e.du()).c_str(),
                       str(dx).c_str(), str(du).c_str());
      });
      ctx.check(bits(e.dxdx(), xx) && bits(e.dxdu(), xu) && bits(e.dudu(), uu), "cost-hessian", [&] {
        return mon::sf("Hessian stored at %d is %s %s %s, the cost function gives %s %s %s", k, str(e.dxdx()).c_str(),
                       str(e.dxdu()).c_str(), str(e.dudu()).c_str(), str(xx).c_str(), str(xu).c_str(), str(uu).c_str());
      });
      ctx.check(bits(il.GetCosts().segment(k, 1), VectorXd::Constant(1, costs[k]->data.val(x, u))), "cost-value", [&] {
        return mon::sf("cost stored at %d is %.12g, the cost function gives %.12g", k, il.GetCosts()(k), costs[k]->data.val(x, u));
      });
      ctx.check(costs[k]->seen.calls > 0 && bits(costs[k]->seen.x, x) && bits(costs[k]->seen.u, u), "cost-args", "cost derivatives were asked for at another point");
      ctx.check(!costs[k]->seen.nonzero, "cost-outputs", "outputs handed to the cost derivatives were not zero");
      if (k < s.N) {
        MatrixXd J;
        models[k]->ref_jac(x, u, s.times[k], s.steps[k], &J);
        MatrixXd A = kp.GetDynamicsExpansion().GetA(), B = kp.GetDynamicsExpansion().GetB();
        ctx.check(bits(A, MatrixXd(J.leftCols(s.n))) && bits(B, MatrixXd(J.rightCols(s.m))), "dynamics-jacobian", [&] {
          return mon::sf("Jacobian stored at %d is %s %s, the dynamics give %s", k, str(A).c_str(), str(B).c_str(), str(J).c_str());
        });
        ctx.check(bits(MatrixXd(kp.GetDynamicsExpansion().GetJacobian()), J), "dynamics-joint", "joint Jacobian differs from its blocks");
        auto& q = models[k]->seen;
        ctx.check(q.calls > 0 && bits(q.x, x) && bits(q.u, u) && q.t == s.times[k] && q.h == s.steps[k], "dynamics-args", [&] {
          return mon::sf("dynamics Jacobian at %d asked for t=%g h=%g, the knot point has t=%g h=%g (or another point)", k,
                         static_cast<double>(q.t), static_cast<double>(q.h), static_cast<double>(s.times[k]), static_cast<double>(s.steps[k]));
        });
        ctx.check(!q.nonzero, "dynamics-outputs", "the output handed to the dynamics Jacobian was not zero");
      }
      ctx.count("knot_points");
    }
    ctx.distinct(traj_hash(*Z));
    // costs of any trajectory
    double J = il.Cost(), own = s.cost(*Z);
    ctx.check(gen::close(J, own, 1e-12, 1e-12 * s.cost_scale(*Z)), "total-cost", [&] { return mon::sf("total cost %.12g, sum of the costs %.12g", J, own); });
    auto Y = s.guess<n_, m_>();
    for (int k = 0; k <= s.N; ++k) Y->State(k) = partly(r, Z->State(k), rvec(r, s.n, 2)), Y->Control(k) = partly(r, Z->Control(k), rvec(r, s.m, 2));
    J = il.Cost(*Y), own = s.cost(*Y);
    ctx.check(gen::close(J, own, 1e-12, 1e-12 * s.cost_scale(*Y)), "total-cost-other", [&] { return mon::sf("cost of another trajectory %.12g, sum of the costs %.12g", J, own); });
  }
  if (ctx.want_sample()) ctx.sample(mon::sf("%s rounds=%d threads=%d tasks=%zu", s.describe().c_str(), rounds, il.GetOptions().nthreads, il.GetTaskAssignment().size() - 1));
}
// the constrained solver: outputs handed to the constraints are zeroed as well
template <class Type>
class SparseCon : public Con<Type> {
 public:
  SparseCon(ConData d, double s) : Con<Type>(d), salt(s) {}
  MatrixXd ref_jac(const VectorXdRef& x, const VectorXdRef& u) const {
    MatrixXd o = this->data.jac(x, u);
    for (int i = 0; i < o.rows(); ++i)
      for (int j = 0; j < o.cols(); ++j)
        if (!written(salt, x, u, i, 200 + j)) o(i, j) = 0;
    return o;
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> jac) override {
    ++calls;
    nonzero = nonzero || !jac.isZero(0);
    MatrixXd o = ref_jac(x, u);
    for (int i = 0; i < o.rows(); ++i)
      for (int j = 0; j < o.cols(); ++j)
        if (o(i, j) != 0) jac(i, j) = o(i, j);
  }
  double salt;
  bool nonzero = false;
  long calls = 0;
};
template <int n_, int m_>
static void constrained(Rng& r, mon::Ctx& ctx) {
  GenOpt o;
  o.nonlin = true;
  o.cost = kNonconvex;
  o.Nmax = 10;
  Setup s = random_setup(r, o, n_ > 0 ? n_ : 0, m_ > 0 ? m_ : 0);
  s.cons.assign(s.N + 1, {});
  std::vector<std::shared_ptr<SparseCost>> costs;
  for (int k = 0; k <= s.N; ++k) {
    costs.push_back(std::make_shared<SparseCost>(s.costs[k]->data, r.uni(-1, 1)));
    s.costs[k] = costs[k];
  }
  s.build();
  using namespace altro::constraints;
  std::vector<std::vector<std::shared_ptr<SparseCon<Equality>>>> eq(s.N + 1);
  std::vector<std::vector<std::shared_ptr<SparseCon<Inequality>>>> in(s.N + 1);
  for (int k = 0; k <= s.N; ++k)
    for (int c = r.integer(0, 3); c > 0; --c) {
      ConData d;
      d.n = s.n, d.m = s.m, d.p = r.integer(1, 3);
      d.eq = r.coin();
      d.A = rmat(r, d.p, s.n), d.B = rmat(r, d.p, s.m), d.e = rvec(r, d.p);
      d.g = r.pick({0.0, 0.3});
      if (d.eq) {
        eq[k].push_back(std::make_shared<SparseCon<Equality>>(d, r.uni(-1, 1)));
        s.prob->SetConstraint(eq[k].back(), k);
      } else {
        in[k].push_back(std::make_shared<SparseCon<Inequality>>(d, r.uni(-1, 1)));
        s.prob->SetConstraint(in[k].back(), k);
      }
    }
  altro::augmented_lagrangian::AugmentedLagrangianiLQR<n_, m_> al(*s.prob);
  al.GetOptions().nthreads = r.pick({1, 1, 2, 4});
  al.GetOptions().tasks_per_thread = r.pick({1, 2});
  auto Z = s.guess<n_, m_>();
  al.SetTrajectory(Z);
  auto& il = al.GetiLQRSolver();
  const double rho = r.pick({1.0, 10.0, 0.3});
  al.SetPenalty(rho);
  for (int k = 0; k <= s.N; ++k) {
    for (auto& v : al.GetALCost(k)->GetEqualityConstraints()) v->GetDuals() = rvec(r, v->OutputDimension());
    for (auto& v : al.GetALCost(k)->GetInequalityConstraints()) v->GetDuals() = -rvec(r, v->OutputDimension()).cwiseAbs();
  }
  for (int round = r.integer(2, 4); round > 0; --round) {
    for (int k = 0; k <= s.N; ++k) Z->State(k) = partly(r, Z->State(k), rvec(r, s.n, 2)), Z->Control(k) = partly(r, Z->Control(k), rvec(r, s.m, 2));
    il.SolveSetup();
    for (auto& c : costs) c->seen = Seen();
    il.UpdateExpansions();
    if (r.coin(0.3)) il.UpdateExpansions();
    for (int k = 0; k <= s.N; ++k) {
      VectorXd x = Z->State(k), u = Z->Control(k), dx, du;
      MatrixXd xx, xu, uu;
      costs[k]->ref_grad(x, u, &dx, &du);
      costs[k]->ref_hess(x, u, &xx, &xu, &uu);
      double scale = 1 + dx.norm() + du.norm() + xx.norm() + xu.norm() + uu.norm();
      bool kink = false;
      auto add = [&](const ConData& d, const MatrixXd& J, const VectorXd& lam, bool equality) {
        VectorXd z = lam - rho * d.val(x, u);
        for (int j = 0; j < d.p; ++j) {
          if (!equality && std::abs(z(j)) < 1e-9) kink = true;
          if (!equality && z(j) > 0) continue;
          VectorXd a = J.row(j).head(s.n).transpose(), b = J.row(j).tail(s.m).transpose();
          dx -= z(j) * a, du -= z(j) * b;
          xx += rho * a * a.transpose(), xu += rho * a * b.transpose(), uu += rho * b * b.transpose();
          scale += std::abs(z(j)) * (a.norm() + b.norm()) + rho * (a.squaredNorm() + b.squaredNorm());
        }
      };
      for (size_t c = 0; c < eq[k].size(); ++c) {
        add(eq[k][c]->data, eq[k][c]->ref_jac(x, u), al.GetALCost(k)->GetEqualityConstraints()[c]->GetDuals(), true);
        ctx.check(!eq[k][c]->nonzero && eq[k][c]->calls > 0, "constraint-outputs", "the output handed to a constraint Jacobian was not zero");
      }
      for (size_t c = 0; c < in[k].size(); ++c) {
        add(in[k][c]->data, in[k][c]->ref_jac(x, u), al.GetALCost(k)->GetInequalityConstraints()[c]->GetDuals(), false);
        ctx.check(!in[k][c]->nonzero && in[k][c]->calls > 0, "constraint-outputs", "the output handed to a constraint Jacobian was not zero");
      }
      ctx.check(!costs[k]->seen.nonzero && bits(costs[k]->seen.x, x) && bits(costs[k]->seen.u, u), "constrained-cost-outputs",
                "outputs handed to the cost derivatives were not zero, or they were asked for at another point");
      if (kink) continue;
      auto& e = il.GetKnotPointFunction(k).GetCostExpansion();
      auto near = [&](const MatrixXd& a, const MatrixXd& b) { return (a - b).norm() <= 1e-11 * scale; };
      ctx.check(near(e.dx(), dx) && near(e.du(), du) && near(e.dxdx(), xx) && near(e.dxdu(), xu) && near(e.dudu(), uu), "constrained-expansion", [&] {
        return mon::sf("expansion at %d is not the one of the cost and its constraints: gradients %s %s, expected %s %s", k, str(e.dx()).c_str(),
                       str(e.du()).c_str(), str(dx).c_str(), str(du).c_str());
      });
      ctx.count("constrained_knot_points");
    }
  }
}
#ifdef STATIC_UNIT
void static_case(Rng& r, mon::Ctx& ctx) { r.coin(0.3) ? constrained<4, 2>(r, ctx) : expansions<4, 2>(r, ctx); }
#else
void static_case(Rng& r, mon::Ctx& ctx);
static void run(Rng& r, mon::Ctx& ctx) {
  if (r.coin(0.3)) static_case(r, ctx);
  else if (r.coin(0.3)) constrained<-1, -1>(r, ctx);
  else expansions<-1, -1>(r, ctx);
}
MON_MAIN(run)
#endif
