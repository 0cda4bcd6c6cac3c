// C18: every public operation, over dimensions, horizons and compile-time sizes, under ASan and the full UBSan; what is allocated
// is released; compile-time sized and dynamically sized solvers agree.
#include <sanitizer/allocator_interface.h>
#include <sstream>
#include "rig.hpp"
using namespace gen;

inline size_t allocated() { return __sanitizer_get_current_allocated_bytes(); }

// Everything a user can call, in an order that respects the preconditions only.
template <int n_, int m_>
static void tour(Rng& r, mon::Ctx& ctx, Rig<n_, m_>& rig) {
  auto& q = rig.q();
  const Setup& s = rig.s;
  q.SolveSetup();
  q.Rollout();
  bool expanded = false, gains = false;
  int steps = r.integer(5, 25);
  for (int i = 0; i < steps; ++i) {
    switch (r.integer(0, 21)) {
      case 0: q.Rollout(); break;
      case 1: q.Cost(); break;
      case 2: q.UpdateExpansions(); expanded = true; break;
      case 3: if (expanded) q.BackwardPass(), gains = true; break;
      case 4: if (gains) q.Cost(), q.ForwardPass(); break;
      case 5: if (gains) q.RolloutClosedLoop(r.uni(0, 1)); break;
      case 6: rig.al ? rig.as->Solve() : rig.il->Solve(); expanded = gains = true; break;
      case 7: if (rig.al) rig.as->Init(); break;
      case 8: if (rig.al) rig.as->MaxViolation(), rig.as->UpdateDuals(); break;
      case 9: if (rig.al) rig.as->UpdatePenalties(); break;
      case 10: if (rig.al) rig.as->PrintViolations(r.coin(), r.integer(0, 12)); break;
      case 11:
        if (rig.al)
          for (auto& c : rig.as->GetConstraintInfo(r.coin())) {
            std::string t = c.ToString(r.integer(0, 9));
            ctx.count("infos", !t.empty());
          }
        break;
      case 12: q.GetOptions().verbose = r.pick({altro::LogLevel::kSilent, altro::LogLevel::kOuter, altro::LogLevel::kInner, altro::LogLevel::kInnerDebug}); break;
      case 13: q.GetOptions().nthreads = r.integer(1, 4); break;
      case 14: q.GetOptions().profiler_enable = r.coin(); break;
      case 15: {
        std::ostringstream o;
        for (int k = 0; k <= s.N; ++k) o << rig.Z->GetKnotPoint(k) << rig.Z->GetKnotPoint(k).ToString(r.integer(1, 20));
        ctx.count("printed", o.str().size() > 0);
        break;
      }
      case 16: q.GetStats().SetCapacity(r.integer(1, 50)); break;
      case 17: {
        auto p = q.GetTaskAssignment();
        if (r.coin() && s.N > 1) q.SetTaskAssignment({0, r.integer(1, s.N), s.N + 1});
        break;
      }
      case 18: {
        auto Z2 = s.guess<n_, m_>();
        rig.Z = Z2;
        rig.al ? rig.as->SetTrajectory(Z2) : rig.il->SetTrajectory(Z2);
        q.Rollout();
        break;
      }
      case 19:
        if (rig.al) {
          rig.as->SetPenalty(r.pick({1.0, 10.0}));
          rig.as->SetPenaltyScaling(r.pick({2.0, 10.0}));
        }
        break;
      case 20: {
        auto Zc = *rig.Z;
        altro::Trajectory<n_, m_> Zm(std::move(Zc));
        Zm.SetUniformStep(0.1f);
        Zm.CheckTimeConsistency(1e-6, true);
        for (auto& z : Zm) ctx.count("knots", z.GetStateControl().size() > 0);
        Zm.SetZero();
        q.Cost(*rig.Z);
        break;
      }
      case 21:
        for (int k = 0; k <= s.N; ++k) {
          auto& f = q.GetKnotPointFunction(k);
          f.Cost(rig.Z->State(k), rig.Z->Control(k));
          f.CalcCostExpansion(rig.Z->State(k), rig.Z->Control(k));
          ctx.count("knots", f.StateDimension() > 0 && f.ControlDimension() >= 0);
        }
        break;
    }
    ctx.count("operations");
  }
  ctx.check(rig.Z->NumSegments() == s.N, "length", "");
}

inline Setup make_setup(Rng& r, bool al, int n, int m, bool convex) {
  GenOpt o;
  o.nmax = 13;
  o.mmax = 7;
  o.Nmax = r.pick({1, 4, 12});
  o.nonlin = !convex && r.coin();
  o.cost = convex ? kQuad : r.pick({kQuad, kSmooth, kNonconvex});
  o.maxcon = al ? r.pick({1, 3}) : 0;
  o.affine_only = convex || r.coin();
  return random_setup(r, o, n, m);
}
template <int n_, int m_>
static void sized(Rng& r, mon::Ctx& ctx, int n = 0, int m = 0) {
  bool al = r.coin();
  altro::SolverOptions opt;
  vary_options(r, &opt);
  opt.max_iterations_inner = std::min(opt.max_iterations_inner, 6);
  opt.max_iterations_outer = std::min(opt.max_iterations_outer, 4);
  Setup s = make_setup(r, al, n, m, false);
  const uint64_t seed = r.next();
  // the same tour twice: the second one starts from a warm process, and must give everything back
  size_t lost = 0, used = 0;
  for (int pass = 0; pass < 2; ++pass) {
    for (auto& c : s.costs) c->neval.reset();
    size_t before = allocated();
    {
      Rng rr(seed);
      Rig<n_, m_> rig;
      rig.make(s, al);
      rig.s.prob.reset();
      s.prob.reset();
      rig.q().GetOptions() = opt;
      tour(rr, ctx, rig);
      used = allocated() - before;
    }
    lost = allocated() - before;
    s.build();
  }
  (void)lost;
  // exact balance: build (outside), tour, destroy
  {
    Rng rr(seed);
    s.prob.reset();
    for (int i = 0; i < 2; ++i) {
      Rng r2(seed);
      size_t before = allocated();
      {
        Rig<n_, m_> rig;
        rig.make(s, al);
        rig.q().GetOptions() = opt;
        tour(r2, ctx, rig);
      }
      long left = static_cast<long>(allocated()) - static_cast<long>(before);
      if (i == 1) ctx.check(left == 0, "leak", [&] { return mon::sf("%ld bytes left after destroying the solver (%zu used); al=%d ", left, used, al) + s.describe(); });
    }
  }
  ctx.count("balances");
  ctx.maximum("max_state_dim", s.n);
  ctx.maximum("max_control_dim", s.m);
  ctx.count(n_ > 0 || m_ > 0 ? "static_tours" : "dynamic_tours");
}
template <int n_, int m_>
static void agree(Rng& r, mon::Ctx& ctx, int n, int m) {
  bool al = r.coin();
  Setup s = make_setup(r, al, n, m, true);
  altro::SolverOptions opt;
  if (r.coin()) {  // the first iteration only
    opt.max_iterations_inner = 1;
    opt.max_iterations_outer = 1;
  }
  Rig<n_, m_> a;
  Rig<-1, -1> b;
  a.make(s, al);
  b.make(s, al);
  a.q().GetOptions() = opt;
  b.q().GetOptions() = opt;
  Outcome x = a.solve(), y = b.solve();
  auto where = [&] { return mon::sf("<%d,%d> al=%d %s after %d, %s after %d; ", n_, m_, al, status_name(x.status), x.total, status_name(y.status), y.total) + s.describe(); };
  ctx.check((x.status == SolverStatus::kSolved) == (y.status == SolverStatus::kSolved), "status", where);
  if (x.total == y.total) {
    double tol = opt.max_iterations_inner == 1 ? 1e-7 : 1e-5;
    for (int k = 0; k <= s.N; ++k) {
      ctx.check(mclose(x.Z.X[k], y.Z.X[k], tol, tol) && mclose(x.Z.U[k], y.Z.U[k], tol, tol), "static-dynamic", [&] {
        return mon::sf("knot point %d: ", k) + str(x.Z.X[k]) + str(x.Z.U[k]) + " vs " + str(y.Z.X[k]) + str(y.Z.U[k]) + where();
      });
      if (k < s.N && opt.max_iterations_inner == 1)
        ctx.check(mclose(x.d[k], y.d[k], tol, tol) && mclose(x.K[k], y.K[k], tol, tol) && mclose(x.Sxx[k], y.Sxx[k], tol, tol), "static-dynamic-gains", [&] { return mon::sf("knot point %d; ", k) + where(); });
    }
    ctx.count("agreements");
  } else {
    ctx.count("different_iterations");
  }
  ctx.distinct(traj_hash(x.Z));
}
template <int n_, int m_>
static void unit(Rng& r, mon::Ctx& ctx) {
  constexpr int n = n_, m = m_;
  if (r.coin()) sized<n_, m_>(r, ctx, n > 0 ? n : 0, m > 0 ? m : 0);
  else agree<n_, m_>(r, ctx, n > 0 ? n : r.integer(1, 5), m > 0 ? m : r.integer(1, 4));
}
// Containers of compile-time sizes the solvers aren't instantiated for here.
template <int n_, int m_>
static void knots(Rng& r, mon::Ctx& ctx) {
  int N = r.integer(1, 5);
  altro::Trajectory<n_, m_> Z(n_, m_, N);
  for (int k = 0; k <= N; ++k) {
    Z.State(k) = rvec(r, n_);
    if (k < N) Z.Control(k) = rvec(r, m_);
  }
  Z.SetUniformStep(0.25f);
  for (auto& z : Z) {
    VectorXd v = z.GetStateControl(), w(n_ + m_);
    w << VectorXd(z.State()), VectorXd(z.Control());
    ctx.check(v.size() == n_ + m_ && (v.array() == w.array() || w.array().isNaN()).all(), "state-control", [&] { return mon::sf("<%d,%d> ", n_, m_) + str(v) + " vs " + str(w); });
    ctx.count("printed", !z.ToString().empty());
  }
  altro::KnotPoint<n_, m_> R = altro::KnotPoint<n_, m_>::Random(), S(R);
  altro::KnotPoint<-1, -1> D(R);
  altro::KnotPoint<n_, m_> T(D);
  S = std::move(T);
  ctx.check(bits(VectorXd(S.State()), VectorXd(R.State())) && bits(VectorXd(S.Control()), VectorXd(R.Control())), "knot-conversion", "");
  ctx.count("static_containers");
}
void case1(Rng& r, mon::Ctx& ctx);
void case2(Rng& r, mon::Ctx& ctx);
void case3(Rng& r, mon::Ctx& ctx);
#if STATIC_UNIT == 1
void case1(Rng& r, mon::Ctx& ctx) {
  switch (r.integer(0, 11)) {
    case 0: return knots<7, 2>(r, ctx);
    case 1: return knots<12, 6>(r, ctx);
    case 2: return knots<1, 9>(r, ctx);
    case 3: return knots<24, 8>(r, ctx);
  }
  r.coin() ? unit<3, 2>(r, ctx) : unit<1, 1>(r, ctx);
}
#elif STATIC_UNIT == 2
void case2(Rng& r, mon::Ctx& ctx) { r.coin(0.6) ? unit<2, 4>(r, ctx) : unit<3, -1>(r, ctx); }
#elif STATIC_UNIT == 3
void case3(Rng& r, mon::Ctx& ctx) { r.coin(0.6) ? unit<6, 3>(r, ctx) : unit<-1, 2>(r, ctx); }
#else
// Functions called directly, on blocks, rows and columns of larger matrices.
class Scalar : public altro::ScalarFunction {
 public:
  Scalar(CostData dd) : d(std::move(dd)) {}
  using ScalarFunction::Evaluate;
  using ScalarFunction::Hessian;
  int StateDimension() const override { return d.n; }
  int ControlDimension() const override { return d.m; }
  double Evaluate(const VectorXdRef& x, const VectorXdRef& u) override { return d.val(x, u); }
  void Gradient(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> g) override {
    VectorXd gx, gu;
    d.grad(x, u, &gx, &gu);
    g << gx, gu;
  }
  void Hessian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> h) override {
    MatrixXd xx, xu, uu;
    d.hess(x, u, &xx, &xu, &uu);
    h << xx, xu, xu.transpose(), uu;
  }
  CostData d;
};
static void functions(Rng& r, mon::Ctx& ctx) {
  int n = r.integer(1, 12), m = r.integer(1, 8), w = n + m;
  Scalar f(random_cost(r, n, m, r.pick({kQuad, kSmooth, kNonconvex}), false));
  Cost c(f.d);
  VectorXd big = rvec(r, 3 * w);
  int off = r.integer(0, w);
  VectorXd x = rvec(r, n), u = rvec(r, m), g(w);
  f.Gradient(x, u, g);
  // a row of a larger matrix
  int rows = r.integer(1, 5), row = r.integer(0, rows - 1), col = r.integer(0, 3);
  MatrixXd M = MatrixXd::Constant(rows, w + 5, 7.5);
  f.Jacobian(x, u, M.block(row, col, 1, w));
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j < w + 5; ++j) {
      double want = i == row && j >= col && j < col + w ? g(j - col) : 7.5;
      ctx.check(M(i, j) == want, "scalar-jacobian", [&] { return mon::sf("entry (%d,%d) of the outer matrix is %g, expected %g", i, j, M(i, j), want); });
    }
  // segments of a larger vector as arguments
  f.Gradient(big.segment(off, n), big.segment(off + n, m), big.tail(w).segment(0, w));
  VectorXd out(3);
  out.setConstant(4);
  static_cast<altro::FunctionBase&>(f).Evaluate(x, u, out.segment(1, 1));
  ctx.check(out(0) == 4 && out(2) == 4 && out(1) == f.d.val(x, u), "scalar-evaluate", "");
  // joint gradient and Hessian of a cost into blocks
  MatrixXd H = MatrixXd::Constant(w + 3, w + 4, -2);
  H.block(2, 1, w, w).setZero();  // user functions write their non-zero entries
  static_cast<altro::ScalarFunction&>(c).Hessian(x, u, H.block(2, 1, w, w));
  MatrixXd want(w, w);
  f.Hessian(x, u, want);
  for (int i = 0; i < w + 3; ++i)
    for (int j = 0; j < w + 4; ++j) {
      bool in = i >= 2 && i < 2 + w && j >= 1 && j < 1 + w;
      double e = in ? want(i - 2, j - 1) : -2;
      ctx.check(close(H(i, j), e, 1e-12, 1e-12), "joint-hessian", [&] { return mon::sf("entry (%d,%d) is %g, expected %g", i, j, H(i, j), e); });
    }
  VectorXd jg(w);
  static_cast<altro::ScalarFunction&>(c).Gradient(x, u, jg);
  ctx.check(mclose(jg, g, 1e-12, 1e-12), "joint-gradient", "");
  // with the b vector
  VectorXd one = VectorXd::Ones(1);
  MatrixXd H2 = MatrixXd::Zero(w, w);
  static_cast<altro::FunctionBase&>(f).Hessian(x, u, one, H2);
  ctx.check(mclose(H2, want, 1e-15, 0), "hessian-b", "");
  f.CheckGradient(x, u, 1e-3, r.coin());
  f.CheckHessian(x, u, one, 1e-2, r.coin());
  f.CheckJacobian(x, u, 1e-3, r.coin());
  ctx.count("function_sets");
  // knot points
  altro::KnotPoint<-1, -1> z(n, m);
  z.State() = x;
  z.Control() = u;
  VectorXd sc = z.GetStateControl();
  ctx.check(sc.size() == w && sc.head(n) == x && sc.tail(m) == u, "state-control", "");
  altro::KnotPoint<-1, -1> z2 = altro::KnotPoint<-1, -1>::Random(n, m), z3(z2), z4(std::move(z2));
  z3 = z;
  z4 = std::move(z3);
  ctx.check(z4.State() == x && z4.Control() == u && z4.StateDimension() == n && z4.ControlDimension() == m, "knotpoint-move", "");
  z4.SetTerminal();
  z4.ToString();
}
static void run(Rng& r, mon::Ctx& ctx) {
  switch (r.integer(0, 9)) {
    case 0: return functions(r, ctx);
    case 1: case 2: return case1(r, ctx);
    case 3: case 4: return case2(r, ctx);
    case 5: return case3(r, ctx);
    case 6: return case3(r, ctx);
    default: return sized<-1, -1>(r, ctx);
  }
}
MON_MAIN(run)
#endif
