// C04: regularised backward pass: positive definite control Hessians, exact gains, bounded regularisation, clean failure.
#include "solve.hpp"
#include <Eigen/Dense>
using namespace gen;
using altro::ilqr::iLQR;

static double mineig(const MatrixXd& a) {
  Eigen::SelfAdjointEigenSolver<MatrixXd> e(0.5 * (a + a.transpose()), Eigen::EigenvaluesOnly);
  return e.eigenvalues().minCoeff();
}

static void run(Rng& r, mon::Ctx& ctx) {
  GenOpt o;
  o.nonlin = r.coin();
  o.cost = r.pick({kQuad, kSmooth, kNonconvex});
  o.Nmax = 12;
  Setup s = random_setup(r, o);
  int style = r.integer(0, 3);
  for (int k = 0; k <= s.N; ++k) {
    auto& c = s.costs[k]->data;
    if (style == 1 && k < s.N && r.coin(0.4)) c.R -= r.uni(0.5, 30) * MatrixXd::Identity(s.m, s.m);  // indefinite control cost
    if (style == 2 && k < s.N && r.coin(0.5)) c.H += rmat(r, s.n, s.m, 4);                         // strong cross terms
    if (style == 3) {  // bad scaling
      double f = std::pow(10, r.uni(-4, 4));
      c.Q *= f;
      c.q *= f;
      c.a *= f;
      if (k < s.N && r.coin()) c.R *= std::pow(10, r.uni(-6, 2));
    }
  }
  iLQR<-1, -1> il(*s.prob);
  auto& opt = il.GetOptions();
  opt.max_iterations_inner = r.integer(1, 12);
  opt.bp_reg_initial = r.pick({0.0, 0.0, 1e-6, 1e-2, 2.0});
  opt.bp_reg_increase_factor = r.pick({1.2, 1.6, 3.0, 10.0});
  opt.bp_reg_min = r.pick({1e-8, 1e-8, 1e-4, 1e-2});
  opt.bp_reg_max = r.pick({1e8, 1e8, 1e-3, 1.0, 10.0});
  opt.bp_reg_max = std::max(opt.bp_reg_max, opt.bp_reg_min);
  opt.bp_reg_initial = std::min(opt.bp_reg_initial, opt.bp_reg_max);
  opt.bp_reg_fail_threshold = r.pick({1, 2, 5, 100});
  if (r.coin(0.2)) opt.line_search_max_iterations = 1;
  auto Z = s.guess<-1, -1>();
  il.SetTrajectory(Z);
  auto& st = il.GetStats();
  Snapshot prev = Snapshot::of(*Z);
  prev.X[0] = s.x0;
  for (int k = 0; k < s.N; ++k) s.models[k]->data.f(prev.X[k], prev.U[k], s.times[k], s.steps[k], &prev.X[k + 1]);
  double rho_start = opt.bp_reg_initial;  // regularisation the next backward pass starts with
  long grown = 0;
  auto inrange = [&](double rho, const char* what) {
    ctx.check((rho >= opt.bp_reg_min * (1 - 1e-12) || rho == opt.bp_reg_initial) && rho <= opt.bp_reg_max * (1 + 1e-12), "reg-range", [&] {
      return mon::sf("%s regularisation %.6g outside [%g,%g]", what, rho, opt.bp_reg_min, opt.bp_reg_max);
    });
  };
  // derivatives of the user's functions along a trajectory
  auto expand = [&](const Snapshot& Y, int k, MatrixXd* A, MatrixXd* B, MatrixXd* xx, MatrixXd* xu, MatrixXd* uu, VectorXd* lx, VectorXd* lu) {
    s.costs[k]->data.grad(Y.X[k], Y.U[k], lx, lu);
    s.costs[k]->data.hess(Y.X[k], Y.U[k], xx, xu, uu);
    if (k < s.N) {
      MatrixXd j;
      s.models[k]->data.jac(Y.X[k], Y.U[k], s.times[k], s.steps[k], &j);
      *A = j.leftCols(s.n);
      *B = j.rightCols(s.m);
    }
  };
  auto check_pass = [&](const Snapshot& Y, double rho) {
    MatrixXd A, B, xx, xu, uu;
    VectorXd lx, lu;
    for (int k = s.N; k >= 0; --k) {
      expand(Y, k, &A, &B, &xx, &xu, &uu, &lx, &lu);
      auto& kp = il.GetKnotPointFunction(k);
      MatrixXd S = kp.GetCostToGoHessian();
      VectorXd Sx = kp.GetCostToGoGradient();
      if (k == s.N) {
        ctx.check(mclose(S, xx, 1e-10, 1e-12) && mclose(Sx, lx, 1e-10, 1e-12), "terminal-ctg", "cost-to-go at the last knot point is not the terminal cost expansion");
        continue;
      }
      MatrixXd Sn = il.GetKnotPointFunction(k + 1).GetCostToGoHessian();
      VectorXd Sxn = il.GetKnotPointFunction(k + 1).GetCostToGoGradient();
      MatrixXd Quu = uu + B.transpose() * Sn * B, Qux = xu.transpose() + B.transpose() * Sn * A, Qxx = xx + A.transpose() * Sn * A;
      VectorXd Qu = lu + B.transpose() * Sxn, Qx = lx + A.transpose() * Sxn;
      double scale = uu.norm() + B.squaredNorm() * Sn.norm() + rho;
      MatrixXd R = Quu + rho * MatrixXd::Identity(s.m, s.m);
      double me = mineig(R);
      ctx.check(me > -1e-11 * scale, "not-pd", [&] {
        return mon::sf("regularised control Hessian at %d has eigenvalue %.6g (rho=%.3g); %s", k, me, rho, s.describe().c_str());
      });
      MatrixXd K = kp.GetFeedbackGain();
      VectorXd d = kp.GetFeedforwardGain();
      double rs = scale * K.norm() + Qux.norm() + A.norm() * B.norm() * Sn.norm() + 1e-300;
      ctx.check((R * K + Qux).norm() <= 1e-8 * rs, "gain-residual", [&] {
        return mon::sf("feedback gain at %d does not solve the regularised system: residual %.3g of %.3g (rho=%.6g); %s", k,
                       (R * K + Qux).norm(), rs, rho, s.describe().c_str());
      });
      double ds = scale * d.norm() + lu.norm() + B.norm() * Sxn.norm() + 1e-300;
      ctx.check((R * d + Qu).norm() <= 1e-8 * ds, "feedforward-residual", [&] {
        return mon::sf("feedforward gain at %d does not solve the regularised system: residual %.3g of %.3g (rho=%.6g); %s", k,
                       (R * d + Qu).norm(), ds, rho, s.describe().c_str());
      });
      MatrixXd Sr = Qxx + K.transpose() * Quu * K + K.transpose() * Qux + Qux.transpose() * K;
      VectorXd gr = Qx + K.transpose() * (Quu * d + Qu) + Qux.transpose() * d;
      double ss = Qxx.norm() + A.squaredNorm() * Sn.norm() + K.squaredNorm() * scale + 2 * K.norm() * Qux.norm();
      double gs = lx.norm() + A.norm() * Sxn.norm() + K.norm() * (scale * d.norm() + lu.norm() + B.norm() * Sxn.norm()) + Qux.norm() * d.norm();
      ctx.check((Sr - S).norm() <= 1e-8 * ss && (gr - Sx).norm() <= 1e-8 * gs, "ctg", [&] {
        return mon::sf("cost-to-go expansion at %d is not that of the policy (Hessian error %.3g of %.3g, gradient error %.3g of %.3g)", k,
                       (Sr - S).norm(), ss, (gr - Sx).norm(), gs);
      });
      ctx.count("knot_points_checked");
    }
  };
  // Own recursion: 1 certainly passes with rho, -1 certainly fails, 0 too close to call
  auto predict = [&](const Snapshot& Y, double rho) {
    MatrixXd A, B, xx, xu, uu, S;
    VectorXd lx, lu;
    bool sure = true;
    for (int k = s.N; k >= 0; --k) {
      expand(Y, k, &A, &B, &xx, &xu, &uu, &lx, &lu);
      if (k == s.N) {
        S = xx;
        continue;
      }
      MatrixXd Quu = uu + B.transpose() * S * B, Qux = xu.transpose() + B.transpose() * S * A;
      MatrixXd R = Quu + rho * MatrixXd::Identity(s.m, s.m);
      double scale = uu.norm() + B.squaredNorm() * S.norm() + rho, me = mineig(R);
      if (!std::isfinite(me)) return 0;
      if (std::abs(me) < 1e-5 * scale) sure = false;
      if (me < 0) return sure ? -1 : 0;
      MatrixXd K = -R.ldlt().solve(Qux);
      S = xx + A.transpose() * S * A + K.transpose() * Quu * K + K.transpose() * Qux + Qux.transpose() * K;
    }
    return sure ? 1 : 0;
  };
  Watch<-1, -1> w;
  long iters = 0;
  w.on_iteration = [&] {
    ++iters;
    double rho = st.regularization.back();
    double now = il.GetRegularization();
    inrange(rho, "backward pass used");
    inrange(now, "next");
    int pr = predict(prev, rho_start);
    if (pr == 1) {
      ctx.count("no_increase_needed");
      ctx.check(rho == rho_start, "needless-increase", [&] {
        return mon::sf("regularisation grew from %.6g to %.6g although the Hessians are positive definite; %s", rho_start, rho, s.describe().c_str());
      });
    } else if (pr == -1) {
      ctx.count("increase_needed");
      ++grown;
      ctx.check(rho > rho_start, "no-increase", [&] {
        return mon::sf("regularisation stayed at %.6g although a factorisation must have failed; %s", rho, s.describe().c_str());
      });
    }
    check_pass(prev, rho);
    Snapshot cur = Snapshot::of(*Z);
    bool accepted = false;
    for (int k = 0; k < s.N; ++k) accepted = accepted || !bits(cur.U[k], prev.U[k]);
    if (accepted) {
      ctx.count("accepted");
      ctx.check(now <= std::max(rho / opt.bp_reg_increase_factor, opt.bp_reg_min) * (1 + 1e-9), "no-decrease", [&] {
        return mon::sf("after a successful iteration the regularisation went from %.6g to %.6g (factor %g, minimum %g)", rho, now,
                       opt.bp_reg_increase_factor, opt.bp_reg_min);
      });
    }
    rho_start = now;
    prev = cur;
    ctx.distinct(mon::hash_bytes(&rho, sizeof rho, traj_hash(cur)));
  };
  w.attach(il);
  long evals0 = 0;
  for (auto& m : s.models) evals0 += m->log.neval;
  il.Solve();
  bool failed = il.GetStatus() == altro::SolverStatus::kBackwardPassRegularizationFailed;
  ctx.count(std::string("status_") + status_name(il.GetStatus()));
  if (failed) {
    // clean failure: nothing was rolled out with gains that do not exist
    bool same = true;
    for (int k = 0; k <= s.N; ++k) same = same && bits(Z->State(k), prev.X[k]) == true && bits(Z->Control(k), prev.U[k]);
    bool sameU = true;
    for (int k = 0; k < s.N; ++k) sameU = sameU && bits(Z->Control(k), prev.U[k]);
    bool closeX = true;
    for (int k = 0; k <= s.N; ++k) closeX = closeX && mclose(Z->State(k), prev.X[k], 1e-9, 1e-12);
    ctx.check(sameU && (same || (iters == 0 && closeX)), "failed-but-moved", "the trajectory changed although the backward pass failed");
    double rho = il.GetRegularization();
    inrange(rho, "final");
    if (opt.bp_reg_max >= 1e8 && opt.bp_reg_fail_threshold >= 2) {
      double big = 0;
      MatrixXd A, B, xx, xu, uu;
      VectorXd lx, lu;
      for (int k = 0; k <= s.N; ++k) {
        expand(prev, k, &A, &B, &xx, &xu, &uu, &lx, &lu);
        big = std::max(big, xx.norm() + xu.norm() + uu.norm());
      }
      if (prev.finite() && predict(prev, opt.bp_reg_max) == 1)
        ctx.check(false, "false-failure", [&] {
          return mon::sf("reported regularisation failure but the maximum regularisation %.3g makes every Hessian positive definite", opt.bp_reg_max);
        });
    }
  }
  // the last knot point alone decides these: not even the maximum regularisation helps
  {
    Snapshot Y = prev;
    MatrixXd A, B, xx, xu, uu, Sx2, du1, du2;
    VectorXd lx, lu;
    expand(Y, s.N, &A, &B, &Sx2, &du1, &du2, &lx, &lu);
    expand(Y, s.N - 1, &A, &B, &xx, &xu, &uu, &lx, &lu);
    MatrixXd R = uu + B.transpose() * Sx2 * B + opt.bp_reg_max * MatrixXd::Identity(s.m, s.m);
    double scale = uu.norm() + B.squaredNorm() * Sx2.norm() + opt.bp_reg_max;
    // only meaningful while iterations are left
    if (mineig(R) < -1e-6 * scale && iters < opt.max_iterations_inner && prev.finite()) {
      ctx.count("must_fail");
      ctx.check(failed, "undetected-failure", [&] {
        return mon::sf("the control Hessian at the last step is indefinite with the maximum regularisation, but the status is %s", status_name(il.GetStatus()));
      });
    }
  }
  if (ctx.want_sample())
    ctx.sample(mon::sf("%s style=%d reg init=%g max=%g: %ld iterations, %ld increases, status %s", s.describe().c_str(), style,
                       opt.bp_reg_initial, opt.bp_reg_max, iters, grown, status_name(il.GetStatus())));
}
MON_MAIN(run)
