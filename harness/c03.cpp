// C03: linear-quadratic problems are solved to the exact optimum, by the exact Riccati policy.
#include "solve.hpp"
#include <Eigen/Dense>
using namespace gen;
using altro::ilqr::iLQR;

// Dense solution: condense the states out, solve for all controls at once.
struct Dense {
  VectorXd u, xoff;
  MatrixXd M;  // stacked states = M u + xoff
  double J;
  bool ok;
};
static double total(const Setup& s, const std::vector<VectorXd>& X, const std::vector<VectorXd>& U) {
  double J = 0;
  VectorXd z = VectorXd::Zero(s.m);
  for (int k = 0; k <= s.N; ++k) J += s.costs[k]->data.val(X[k], k < s.N ? U[k] : z);
  return J;
}
static void model_at(const Setup& s, int k, MatrixXd* A, MatrixXd* B, VectorXd* c) {
  const ModelData& d = s.models[k]->data;
  VectorXd x0 = VectorXd::Zero(s.n), u0 = VectorXd::Zero(s.m);
  MatrixXd jac;
  d.jac(x0, u0, s.times[k], s.steps[k], &jac);
  *A = jac.leftCols(s.n);
  *B = jac.rightCols(s.m);
  d.f(x0, u0, s.times[k], s.steps[k], c);
}
static Dense dense(const Setup& s, const VectorXd& x0) {
  Dense r;
  int nu = s.N * s.m, n = s.n, m = s.m;
  MatrixXd G = MatrixXd::Zero(n, nu);
  VectorXd off = x0;
  MatrixXd H = MatrixXd::Zero(nu, nu);
  VectorXd g = VectorXd::Zero(nu);
  for (int k = 0; k <= s.N; ++k) {
    const CostData& c = s.costs[k]->data;
    H += G.transpose() * c.Q * G;
    g += G.transpose() * (c.Q * off + c.q);
    if (k < s.N) {
      H.middleCols(k * m, m) += G.transpose() * c.H;
      H.middleRows(k * m, m) += c.H.transpose() * G;
      H.block(k * m, k * m, m, m) += c.R;
      g.segment(k * m, m) += c.H.transpose() * off + c.r;
      MatrixXd A, B;
      VectorXd d;
      model_at(s, k, &A, &B, &d);
      G = A * G;
      G.middleCols(k * m, m) += B;
      off = A * off + d;
    }
  }
  Eigen::LDLT<MatrixXd> f(H);
  r.u = f.solve(-g);
  r.ok = f.info() == Eigen::Success && f.isPositive() && (H * r.u + g).norm() <= 1e-8 * (g.norm() + 1);
  std::vector<VectorXd> X{x0}, U;
  for (int k = 0; k < s.N; ++k) {
    U.push_back(r.u.segment(k * m, m));
    VectorXd xn;
    s.models[k]->data.f(X[k], U[k], s.times[k], s.steps[k], &xn);
    X.push_back(xn);
  }
  r.J = total(s, X, U);
  return r;
}

template <int n_, int m_>
static void lq(Rng& r, mon::Ctx& ctx) {
  GenOpt o;
  o.cost = kQuad;
  o.timevar = r.coin(0.8);
  o.Nmax = 18;
  o.nmax = 6;
  o.mmax = 4;
  o.shared = r.coin(0.3);
  Setup s = random_setup(r, o, n_ > 0 ? n_ : 0, m_ > 0 ? m_ : 0);
  if (s.N > 20) {  // over a long horizon only dynamics that don't multiply every error by thousands can be compared
    double growth = 1;
    for (int j = 0; j < s.N; j += 5) {
      MatrixXd G = MatrixXd::Identity(s.n, s.n), A, B;
      VectorXd d;
      for (int k = j; k < s.N; ++k) {
        model_at(s, k, &A, &B, &d);
        G = A * G;
        growth = std::max(growth, G.norm());
      }
    }
    if (!(growth < 1e3)) return ctx.count("unstable_problems");
    ctx.count("long_horizons");
  }
  if (r.coin(0.3))
    for (auto& u : s.U) u *= 30;  // far away guesses
  iLQR<n_, m_> il(*s.prob);
  auto& opt = il.GetOptions();
  opt.cost_tolerance = 1e-12;
  opt.gradient_tolerance = 1e-9;
  opt.max_iterations_inner = 200;
  bool noreg = r.coin(0.8);
  if (!noreg) opt.bp_reg_initial = r.pick({1e-4, 0.1, 3.0});
  if (r.coin(0.2)) opt.nthreads = s.models.size() > 1 && s.models[0] != s.models.back() ? 3 : 1;
  auto Z = s.guess<n_, m_>();
  il.SetTrajectory(Z);
  il.Solve();
  Dense ref = dense(s, s.x0);
  if (!ref.ok) {
    ctx.count("ill_conditioned_reference");
    return;
  }
  double scale = 1;
  for (int k = 0; k <= s.N; ++k) scale += std::abs(s.costs[k]->data.val(Z->State(k), Z->Control(k)));
  double J = s.cost(*Z);
  ctx.check(J - ref.J <= 1e-8 * scale, "not-optimal", [&] {
    return mon::sf("cost %.12g, optimum %.12g (status %s, %d iterations); %s", J, ref.J, status_name(il.GetStatus()),
                   il.GetStats().iterations_inner, s.describe().c_str());
  });
  ctx.check(J >= ref.J - 1e-8 * scale, "below-optimum", "cost below the true optimum");
  double du = 0;
  for (int k = 0; k < s.N; ++k) du = std::max(du, (VectorXd(Z->Control(k)) - ref.u.segment(k * s.m, s.m)).norm());
  ctx.check(du <= 2e-5 * (1 + ref.u.norm()), "wrong-controls", [&] {
    return mon::sf("controls differ from the minimiser by %.3g; %s", du, s.describe().c_str());
  });
  if (noreg)
    ctx.check(il.GetStatus() == altro::SolverStatus::kSolved && il.GetStats().iterations_inner <= 6, "not-newton", [&] {
      return mon::sf("LQ problem took %d iterations, status %s; %s", il.GetStats().iterations_inner, status_name(il.GetStatus()),
                     s.describe().c_str());
    });
  // exact Riccati recursion on the user's data
  MatrixXd P = s.costs[s.N]->data.Q;
  VectorXd p = s.costs[s.N]->data.q;
  std::vector<MatrixXd> K(s.N);
  // The same recursion once more without its symmetry and with an error of a few roundings in every step: where that shows, no
  // implementation in double precision can be expected to be accurate (unstable dynamics over a long horizon).
  MatrixXd L = P;
  bool stable = true;
  bool reg_ok = il.GetRegularization() <= 1e-6;
  double rp = 2e-5;
  auto near = [&](const MatrixXd& a, const MatrixXd& b) { return mclose(a, b, rp, rp); };
  for (int k = s.N; k >= 0 && reg_ok; --k) {
    MatrixXd S = il.GetKnotPointFunction(k).GetCostToGoHessian();
    VectorXd Sx = il.GetKnotPointFunction(k).GetCostToGoGradient();
    if (k < s.N) {
      const CostData& c = s.costs[k]->data;
      MatrixXd A, B;
      VectorXd d;
      model_at(s, k, &A, &B, &d);
      {
        for (int i = 0; i < s.n; ++i)
          for (int j = 0; j < s.n; ++j) L(i, j) += 4e-15 * r.uni(-1, 1) * L.norm();
        MatrixXd xx = c.Q + A.transpose() * L * A, uu = c.R + B.transpose() * L * B, xu = c.H + A.transpose() * L * B;
        MatrixXd G = -MatrixXd(uu.selfadjointView<Eigen::Lower>()).llt().solve(xu.transpose());
        L = xx + G.transpose() * uu * G + G.transpose() * xu.transpose() + xu * G;
      }
      MatrixXd Qxx = c.Q + A.transpose() * P * A, Quu = c.R + B.transpose() * P * B, Qux = c.H.transpose() + B.transpose() * P * A;
      VectorXd Qx = c.q + A.transpose() * (P * d + p), Qu = c.r + B.transpose() * (P * d + p);
      K[k] = -Quu.ldlt().solve(Qux);
      MatrixXd Pk = Qxx + Qux.transpose() * K[k];
      if (!((L - Pk).norm() <= 1e-8 * (1 + Pk.norm()))) {
        stable = false;
        ctx.count("unstable_recursions");
        break;
      }
      VectorXd l = -Quu.ldlt().solve(Qu);
      MatrixXd Ks = il.GetKnotPointFunction(k).GetFeedbackGain();
      VectorXd ds = il.GetKnotPointFunction(k).GetFeedforwardGain();
      ctx.check(near(Ks, K[k]), "gain", [&] {
        return mon::sf("feedback gain at %d is %s, Riccati %s; %s", k, str(Ks).c_str(), str(K[k]).c_str(), s.describe().c_str());
      });
      ctx.check(ds.norm() <= 1e-4 * (1 + ref.u.norm()), "feedforward", [&] {
        return mon::sf("feedforward gain %s at the optimum; %s", str(ds).c_str(), s.describe().c_str());
      });
      p = Qx + Qux.transpose() * l;
      P = Qxx + Qux.transpose() * K[k];
      P = 0.5 * (P + P.transpose()).eval();
      ctx.count("gains_compared");
    }
    VectorXd grad = P * VectorXd(Z->State(k)) + p;
    ctx.check(near(S, P), "ctg-hessian", [&] {
      return mon::sf("cost-to-go Hessian at %d is %s, Riccati %s; %s", k, str(S).c_str(), str(P).c_str(), s.describe().c_str());
    });
    ctx.check((Sx - grad).norm() <= 1e-4 * (1 + grad.norm() + p.norm()), "ctg-gradient", [&] {
      return mon::sf("cost-to-go gradient at %d is %s, expected %s; %s", k, str(Sx).c_str(), str(grad).c_str(), s.describe().c_str());
    });
  }
  // the policy is optimal from any initial state, and the cost-to-go predicts its cost
  for (int rep = 0; rep < 2 && reg_ok && stable; ++rep) {
    VectorXd x1 = s.x0 + rvec(r, s.n, 2.0);
    Dense ref1 = dense(s, x1);
    if (!ref1.ok) continue;
    std::vector<VectorXd> X{x1}, U;
    for (int k = 0; k < s.N; ++k) {
      MatrixXd Kk = il.GetKnotPointFunction(k).GetFeedbackGain();
      U.push_back(VectorXd(Z->Control(k)) + Kk * (X[k] - VectorXd(Z->State(k))));
      VectorXd xn;
      s.models[k]->data.f(X[k], U[k], s.times[k], s.steps[k], &xn);
      X.push_back(xn);
    }
    double J1 = total(s, X, U), sc = scale + std::abs(ref1.J) + std::abs(ref.J);
    ctx.check(std::abs(J1 - ref1.J) <= 1e-6 * sc, "policy-suboptimal", [&] {
      return mon::sf("policy from another initial state costs %.10g, optimum %.10g; %s", J1, ref1.J, s.describe().c_str());
    });
    VectorXd dx = x1 - s.x0;
    MatrixXd S = il.GetKnotPointFunction(0).GetCostToGoHessian();
    VectorXd Sx = il.GetKnotPointFunction(0).GetCostToGoGradient();
    double pred = J + Sx.dot(dx) + 0.5 * dx.dot(S * dx);
    ctx.check(std::abs(pred - ref1.J) <= 1e-5 * sc, "ctg-prediction", [&] {
      return mon::sf("cost-to-go predicts %.10g from another initial state, optimum %.10g; %s", pred, ref1.J, s.describe().c_str());
    });
    ctx.count("policies_rolled_out");
  }
  ctx.distinct(traj_hash(*Z));
  ctx.count("max_iters", 0);
  if (ctx.want_sample()) ctx.sample(mon::sf("%s: J=%.10g optimum=%.10g", s.describe().c_str(), J, ref.J));
}
static void run(Rng& r, mon::Ctx& ctx) { lq<-1, -1>(r, ctx); }
MON_MAIN(run)
