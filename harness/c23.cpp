// C23: problems return what was set, know when they are complete, and misuse is rejected by an assertion.
#include "altro/augmented_lagrangian/al_solver.hpp"
#include "altro/ilqr/ilqr.hpp"
#include "capture.hpp"
#include "gen.hpp"
using namespace gen;
using altro::constraints::Constraint;
using altro::constraints::Equality;
using altro::constraints::Inequality;
using altro::problem::CostFunction;
using altro::problem::DiscreteDynamics;
using altro::problem::Problem;
namespace ac = altro::augmented_lagrangian;

static std::shared_ptr<Discrete> rmodel(Rng& r, int n, int m) { return std::make_shared<Discrete>(random_model(r, n, m, false, false)); }
static std::shared_ptr<Cost> rcost(Rng& r, int n, int m) { return std::make_shared<Cost>(random_cost(r, n, m, kQuad, false)); }
static ConData rcon(Rng& r, int n, int m) {
  ConData d;
  d.p = r.integer(1, 4), d.n = n, d.m = m;
  d.A = rmat(r, d.p, n), d.B = rmat(r, d.p, m), d.e = rvec(r, d.p);
  return d;
}

// What was set, kept by the monitor.
struct Model {
  int N, n, m;
  std::vector<std::shared_ptr<CostFunction>> costs;
  std::vector<std::shared_ptr<DiscreteDynamics>> models;
  std::vector<std::vector<std::shared_ptr<Constraint<Equality>>>> eq;
  std::vector<std::vector<std::shared_ptr<Constraint<Inequality>>>> ineq;
  VectorXd x0;
  Model(int N_, int n_, int m_) : N(N_), n(n_), m(m_), costs(N + 1), models(N + 1), eq(N + 1), ineq(N + 1) {}
  bool ok(int k) const {
    bool v = costs[k] != nullptr && (k == N || models[k] != nullptr);
    if (k == 0) v = v && x0.size() > 0 && models[0] && models[0]->StateDimension() == x0.size();
    return v;
  }
  bool complete() const {
    for (int k = 0; k <= N; ++k)
      if (!ok(k)) return false;
    return true;
  }
};

static void compare(Rng& r, mon::Ctx& ctx, const Model& M, Problem& P) {
  ctx.check(P.NumSegments() == M.N, "segments", "wrong number of segments");
  ctx.check(bits(P.GetInitialState(), M.x0) && bits(*P.GetInitialStatePointer(), M.x0), "initial-state", [&] { return "initial state " + str(P.GetInitialState()) + ", set was " + str(M.x0); });
  int total = 0;
  for (int k = 0; k <= M.N; ++k) {
    ctx.check(P.GetCostFunction(k) == M.costs[k], "cost", [&] { return mon::sf("the cost at %d isn't the one that was set", k); });
    if (k < M.N && M.models[k]) ctx.check(P.GetDynamics(k) == M.models[k], "dynamics", [&] { return mon::sf("the dynamics at %d aren't those that were set", k); });
    auto& e = P.GetEqualityConstraints();
    auto& q = P.GetInequalityConstraints();
    ctx.check(static_cast<int>(e.size()) == M.N + 1 && static_cast<int>(q.size()) == M.N + 1 && e[k] == M.eq[k] && q[k] == M.ineq[k], "constraints", [&] { return mon::sf("the constraints at %d aren't those that were set, in that order", k); });
    int cnt = 0;
    for (auto& c : M.eq[k]) cnt += c->OutputDimension();
    for (auto& c : M.ineq[k]) cnt += c->OutputDimension();
    total += cnt;
    ctx.check(P.NumConstraints(k) == cnt, "count", [&] { return mon::sf("%d rows at knot point %d, set were %d", P.NumConstraints(k), k, cnt); });
  }
  ctx.check(P.NumConstraints() == total, "count", "wrong total number of rows");
  if (M.models[M.N - 1]) {  // the terminal knot point knows its dimensions, and its dynamics do nothing
    auto d = P.GetDynamics(M.N);
    int n = M.models[M.N - 1]->StateDimension(), m = M.models[M.N - 1]->ControlDimension();
    ctx.check(d->StateDimension() == n && d->ControlDimension() == m && d->OutputDimension() == n, "terminal-dimensions", "wrong dimensions of the terminal dynamics");
    VectorXd x = rvec(r, n), u = rvec(r, m), o(n);
    MatrixXd J = rmat(r, n, n + m), H = rmat(r, n + m, n + m), Jw = MatrixXd::Identity(n, n + m);
    d->Evaluate(x, u, 0.1F, 0.2F, o);
    d->Jacobian(x, u, 0.1F, 0.2F, J);
    d->Hessian(x, u, 0.1F, 0.2F, o, H);
    ctx.check(bits(o, x) && bits(J, Jw) && H.norm() == 0, "terminal-dynamics", "the terminal dynamics aren't the identity");
  }
  bool want = M.complete();
  ctx.check(P.IsFullyDefined() == want, "definedness", [&] { return mon::sf("IsFullyDefined is %d", !want); });
  ctx.count(want ? "complete" : "incomplete");
  if (r.coin(0.15)) {  // the verbose report names each knot point and what it lacks
    bool v = false;
    std::string text = mon::capture([&] { v = P.IsFullyDefined(true); });
    ctx.check(v == want, "definedness-verbose", "the verbose query answers differently");
    size_t at = 0;
    for (int k = 0; k <= M.N; ++k) {
      size_t end = text.find('\n', at);
      std::string line = text.substr(at, end - at);
      at = end == std::string::npos ? text.size() : end + 1;
      bool pass = line.find("PASS") != std::string::npos, fail = line.find("FAIL") != std::string::npos;
      bool nocost = line.find("NO COSTFUN") != std::string::npos, nodyn = line.find("NO DYNAMICS") != std::string::npos, noinit = line.find("NO INITIAL STATE") != std::string::npos;
      ctx.check(line.find(mon::sf("Index %d:", k)) == 0 && pass == M.ok(k) && fail == !M.ok(k) && nocost == !M.costs[k] && nodyn == (k < M.N && !M.models[k]) && noinit == (k == 0 && M.x0.size() == 0), "report", [&] { return mon::sf("knot point %d: ", k) + line; });
    }
    ctx.count("reports");
  }
}

static void definition(Rng& r, mon::Ctx& ctx) {
  int N = r.integer(1, 12), n = r.integer(1, 4), m = r.integer(1, 3);
  Model M(N, n, m);
  std::shared_ptr<VectorXd> own;
  std::unique_ptr<Problem> P;
  if (r.coin(0.3)) {
    own = std::make_shared<VectorXd>(rvec(r, n));
    M.x0 = *own;
    P = std::make_unique<Problem>(N, own);
  } else {
    P = std::make_unique<Problem>(N);
  }
  int ops = r.integer(0, 30);
  bool fill = r.coin(0.6);  // set everything at some time
  int when = r.integer(0, ops), skip = r.coin(0.4) ? r.integer(0, 2 * N + 1) : -1;
  for (int i = 0; i <= ops; ++i) {
    if (fill && i == when) {
      for (int k = 0; k < N; ++k)
        if (skip != k) P->SetDynamics(M.models[k] = rmodel(r, n, m), k);
      for (int k = 0; k <= N; ++k)
        if (skip != N + k) P->SetCostFunction(M.costs[k] = rcost(r, n, m), k);
      if (r.coin(0.9)) M.x0 = rvec(r, n), P->SetInitialState(M.x0);
    }
    switch (r.integer(0, 6)) {
      case 0: {
        int k = r.integer(0, N);
        if (r.coin(0.1)) M.costs[k] = nullptr;
        else M.costs[k] = rcost(r, n, m);
        P->SetCostFunction(M.costs[k], k);
        break;
      }
      case 1: {
        int k = r.coin(0.3) ? N - 1 : r.integer(0, N - 1);
        bool other = r.coin(0.15);  // replaced by one of other dimensions
        M.models[k] = other ? rmodel(r, r.integer(1, 5), r.integer(1, 4)) : rmodel(r, n, m);
        if (other) ctx.count("other_dimensions");
        P->SetDynamics(M.models[k], k);
        break;
      }
      case 2: {  // several from some index on
        int k0 = r.integer(0, N), len = r.integer(0, N + 1 - k0);
        std::vector<std::shared_ptr<Cost>> v;
        for (int j = 0; j < len; ++j) v.push_back(rcost(r, n, m)), M.costs[k0 + j] = v.back();
        if (k0 == 0 && r.coin()) P->SetCostFunction(v);
        else P->SetCostFunction(v, k0);
        ctx.count("cost_ranges");
        break;
      }
      case 3: {
        int k0 = r.integer(0, N - 1), len = r.integer(0, N - k0);
        std::vector<std::shared_ptr<Discrete>> v;
        for (int j = 0; j < len; ++j) v.push_back(rmodel(r, n, m)), M.models[k0 + j] = v.back();
        if (k0 == 0 && r.coin()) P->SetDynamics(v);
        else P->SetDynamics(v, k0);
        ctx.count("dynamics_ranges");
        break;
      }
      case 4: {
        int k = r.integer(0, N);
        ConData d = rcon(r, n, m);
        if (r.coin()) {
          auto c = std::make_shared<Con<Equality>>(d);
          M.eq[k].push_back(c);
          if (r.coin()) P->SetConstraint(c, k);
          else P->SetConstraint(std::shared_ptr<Constraint<Equality>>(c), k);
        } else {
          auto c = std::make_shared<Con<Inequality>>(d);
          M.ineq[k].push_back(c);
          if (r.coin()) P->SetConstraint(c, k);
          else P->SetConstraint(std::shared_ptr<Constraint<Inequality>>(c), k);
        }
        break;
      }
      case 5: {
        M.x0 = rvec(r, r.coin(0.9) ? n : r.integer(1, 6));
        P->SetInitialState(M.x0);
        if (own) ctx.check(bits(*own, M.x0), "shared-initial-state", "the caller's initial state wasn't updated");
        break;
      }
      default: compare(r, ctx, M, *P);
    }
    ctx.count("operations");
  }
  compare(r, ctx, M, *P);
  uint64_t h = N;
  for (int k = 0; k <= N; ++k) h = mon::mix(h * 31 + (M.costs[k] != nullptr) + 2 * (M.models[k] != nullptr) + 4 * M.eq[k].size() + 64 * M.ineq[k].size());
  ctx.distinct(h);
  // a solver takes exactly these pieces, and refuses an incomplete problem
  bool uniform = bits(M.x0, M.x0) && M.x0.size() == n;
  for (int k = 0; k < N; ++k) uniform = uniform && M.models[k] && M.models[k]->StateDimension() == n && M.models[k]->ControlDimension() == m;
  if (M.complete() && !uniform) {
    ctx.count("complete_with_other_dimensions");
  } else if (M.complete()) {
    altro::ilqr::iLQR<-1, -1> s(*P);
    bool ok = s.NumSegments() == N && bits(*s.GetInitialState(), M.x0);
    for (int k = 0; k <= N; ++k) {
      auto& f = s.GetKnotPointFunction(k);
      ok = ok && f.GetCostFunPtr() == M.costs[k] && f.GetModelPtr() == P->GetDynamics(k) && f.StateDimension() == n && f.ControlDimension() == m;
    }
    ctx.check(ok, "solver-pieces", "the solver doesn't hold the pieces of the problem");
    ac::AugmentedLagrangianiLQR<-1, -1> al(*P);
    ok = al.NumSegments() == N && al.NumConstraints() == P->NumConstraints();
    for (int k = 0; k <= N; ++k) {
      auto c = al.GetALCost(k);
      ok = ok && al.NumConstraints(k) == P->NumConstraints(k) && c->GetCostFunction() == M.costs[k] && c->GetEqualityConstraints().size() == M.eq[k].size() && c->GetInequalityConstraints().size() == M.ineq[k].size();
      for (size_t i = 0; ok && i < M.eq[k].size(); ++i) ok = c->GetEqualityConstraints()[i]->GetConstraint() == M.eq[k][i];
      for (size_t i = 0; ok && i < M.ineq[k].size(); ++i) ok = c->GetInequalityConstraints()[i]->GetConstraint() == M.ineq[k][i];
    }
    ctx.check(ok, "al-pieces", "the constrained solver doesn't hold the pieces of the problem");
    // both follow the problem's initial state
    auto Z = std::make_shared<altro::Trajectory<-1, -1>>(n, m, N);
    Z->SetUniformStep(0.05F);
    s.SetTrajectory(Z);
    VectorXd x0 = rvec(r, n);
    P->SetInitialState(x0);
    s.Rollout();
    ctx.check(bits(VectorXd(Z->State(0)), x0), "solver-initial-state", "the rollout doesn't start at the initial state of the problem");
    ctx.count("solvers");
  } else if (r.coin(0.5)) {
    bool al = r.coin();
    auto c = mon::in_child([&] {
      if (al) ac::AugmentedLagrangianiLQR<-1, -1> s(*P);
      else altro::ilqr::iLQR<-1, -1> s(*P);
      return 0;
    });
    ctx.check(c.aborted && c.err.find("Assert failed") != std::string::npos, "incomplete-accepted", [&] { return mon::sf("a %ssolver accepts an incomplete problem or crashes (exit %d, signal %d)", al ? "constrained " : "", c.code, c.sig); });
    ctx.count("incomplete_rejected");
  }
}

static const int kMisuses = 60;
// Runs misuse number i; returns false if there is no such number.
template <int n_, int m_>
static bool misuse(int i, Rng& r, const Setup& s) {
  int N = s.N, n = s.n, m = s.m;
  Problem& P = *s.prob;
  int below = r.pick({-1, -2, -1000, std::numeric_limits<int>::min()}), above = r.pick({1, 2, 1000});
  using S = altro::ilqr::iLQR<n_, m_>;
  using A = ac::AugmentedLagrangianiLQR<n_, m_>;
  using T = altro::Trajectory<n_, m_>;
  auto traj = [&](int len) {
    auto Z = std::make_shared<T>(n, m, len);
    Z->SetUniformStep(0.1F);
    return Z;
  };
  ConData d = rcon(r, n, m), none = d;
  none.p = 0;
  switch (i) {
    case 0: P.SetCostFunction(rcost(r, n, m), below); break;
    case 1: P.SetCostFunction(rcost(r, n, m), N + above); break;
    case 2: P.SetDynamics(rmodel(r, n, m), below); break;
    case 3: P.SetDynamics(rmodel(r, n, m), N + above - 1); break;
    case 4: P.SetDynamics(std::shared_ptr<DiscreteDynamics>(), r.integer(0, N - 1)); break;
    case 5: P.SetConstraint(std::make_shared<Con<Equality>>(d), below); break;
    case 6: P.SetConstraint(std::make_shared<Con<Equality>>(d), N + above); break;
    case 7: P.SetConstraint(std::make_shared<Con<Inequality>>(d), below); break;
    case 8: P.SetConstraint(std::make_shared<Con<Inequality>>(d), N + above); break;
    case 9: P.SetConstraint(std::shared_ptr<Constraint<Equality>>(), r.integer(0, N)); break;
    case 10: P.SetConstraint(std::shared_ptr<Constraint<Inequality>>(), r.integer(0, N)); break;
    case 11: P.SetConstraint(std::make_shared<Con<Equality>>(none), r.integer(0, N)); break;
    case 12: P.SetConstraint(std::make_shared<Con<Inequality>>(none), r.integer(0, N)); break;
    case 13: P.NumConstraints(below); break;
    case 14: P.NumConstraints(N + above); break;
    case 15: P.GetCostFunction(below); break;
    case 16: P.GetCostFunction(N + above); break;
    case 17: P.GetDynamics(below); break;
    case 18: P.GetDynamics(N + above); break;
    case 19: Problem(N).GetDynamics(r.integer(0, N)); break;
    case 20: P.SetCostFunction(std::vector<std::shared_ptr<Cost>>(N + 1, rcost(r, n, m)), r.integer(1, 3)); break;
    case 21: P.SetDynamics(std::vector<std::shared_ptr<Discrete>>(N + 1, rmodel(r, n, m))); break;
    case 22: { S q(P); q.Solve(); break; }
    case 23: { S q(P); q.SetTrajectory(nullptr); break; }
    case 24: { S q(P); q.SetTrajectory(traj(N + above)); q.Solve(); break; }
    case 25: { S q(P); q.SetTrajectory(traj(N - 1)); q.Solve(); break; }
    case 26: { S q(N); q.SetTrajectory(traj(N)); q.Solve(); break; }
    case 27: { S q(P); q.Rollout(); break; }
    case 28: { S q(P); q.Cost(); break; }
    case 29: { S q(P); q.UpdateExpansions(); break; }
    case 30: { S q(P); q.GetKnotPointFunction(r.coin() ? below : N + above); break; }
    case 31: { S q(N + above); q.InitializeFromProblem(P); break; }
    case 32: { S q(N); q.CopyFromProblem(P, below, N + 1); break; }
    case 33: { S q(N); q.CopyFromProblem(P, 0, N + 1 + above); break; }
    case 34: { S q(P); q.SetTaskAssignment(r.coin() ? std::vector<int>{} : std::vector<int>{0}); break; }
    case 35: { S q(P); q.SetTaskAssignment({0, N}); break; }
    case 36: { S q(P); q.SetTaskAssignment({1, N + 1}); break; }
    case 37: { S q(P); q.SetTaskAssignment({0, N + 1, N + 1}); break; }
    case 38: { S q(P); q.SetTaskAssignment({0, N, N - 1, N + 1}); break; }
    case 39: { A q(P); q.Solve(); break; }
    case 40: { A q(P); q.SetTrajectory(traj(N - 1)); q.Solve(); break; }
    case 41: { A q(P); q.SetPenalty(-r.uni(1e-9, 10)); if (P.NumConstraints() == 0) altro::utils::AssertMsg(false, "none", "none", 0, ""); break; }
    case 42: { A q(P); q.SetPenaltyScaling(r.uni(0, 0.999)); if (P.NumConstraints() == 0) altro::utils::AssertMsg(false, "none", "none", 0, ""); break; }
    case 43: { A q(P); q.NumConstraints(r.coin() ? below : N + above); break; }
    case 44: { A q(N); q.NumConstraints(r.integer(0, N)); break; }
    case 45: { A q(N); q.SetPenalty(1.0); break; }
    case 46: { A q(N); q.SetTrajectory(traj(N)); q.Solve(); break; }
    case 47: { A q(N); q.GetMaxViolation(); break; }
    case 48: { A q(P); q.SetTrajectory(nullptr); break; }
    case 49: { A q(P); q.MaxViolation(); break; }
    case 50: altro::problem::IdentityDynamics(r.integer(-2, 0), m); break;
    case 51: altro::problem::IdentityDynamics(n, r.integer(-2, 0)); break;
    case 52: { std::vector<altro::VectorN<n_>> X(N + 1, altro::VectorN<n_>::Zero(n)); std::vector<altro::VectorN<m_>> U(r.coin() ? N + 1 : N - 1, altro::VectorN<m_>::Zero(m)); T Z(X, U, std::vector<float>(N + 1, 0.0F)); break; }
    case 53: { std::vector<altro::VectorN<n_>> X(N + 1, altro::VectorN<n_>::Zero(n)); std::vector<altro::VectorN<m_>> U(N, altro::VectorN<m_>::Zero(m)); T Z(X, U, std::vector<float>(r.coin() ? N : N + 2, 0.0F)); break; }
    case 54: { P.SetInitialState(rvec(r, n + r.integer(1, 3))); S q(P); break; }
    case 55: altro::ilqr::KnotPointFunctions<n_, m_>(nullptr, rcost(r, n, m)); break;
    case 56: altro::ilqr::KnotPointFunctions<n_, m_>(rmodel(r, n, m), nullptr); break;
    case 57: { altro::SolverLogger l; l.SetFrequency(-r.integer(1, 5)); break; }
    case 58: {  // compile-time and actual dimensions differ
      if (n_ < 0) { altro::KnotPoint<-1, -1>::Random(); break; }
      altro::KnotPoint<n_, m_>(r.coin() ? n + 1 : n - 1, m);
      break;
    }
    case 59: {
      if (n_ < 0) { altro::ilqr::CostExpansion<-1, -1> e(n, m); e.CalcExpansion(rcost(r, n, m), VectorXd::Zero(n + 1), VectorXd::Zero(m)); break; }
      Setup o = random_setup(r, GenOpt(), n + (r.coin() ? 1 : 0), m + 1);
      o.build();
      S q(*o.prob);
      break;
    }
    default: return false;
  }
  return true;
}
template <int n_, int m_>
static void reject(Rng& r, mon::Ctx& ctx) {
  GenOpt o;
  o.Nmin = 3, o.Nmax = 10, o.maxcon = 2;
  Setup s = random_setup(r, o, n_ > 0 ? n_ : 0, m_ > 0 ? m_ : 0);
  s.build();
  for (int rep = 0; rep < 4; ++rep) {
    int i = r.integer(0, kMisuses - 1);
    Rng q(r.next());
    auto c = mon::in_child([&] { return misuse<n_, m_>(i, q, s) ? 0 : 3; });
    ctx.check(c.aborted && c.err.find("Assert failed") != std::string::npos, "misuse", [&] {
      return mon::sf("misuse %d (N=%d, n=%d, m=%d, compile-time %d %d): %s ", i, s.N, s.n, s.m, n_, m_, c.exited ? "accepted silently" : "crashed instead of being rejected") + c.err.substr(0, 300);
    });
    ctx.count("misuses");
    ctx.count(mon::sf("misuse_%02d", i));
  }
}

#ifdef STATIC_UNIT
void static_case(Rng& r, mon::Ctx& ctx) { reject<2, 1>(r, ctx); }
#else
void static_case(Rng& r, mon::Ctx& ctx);
static void run(Rng& r, mon::Ctx& ctx) {
  for (int i = 0; i < 4; ++i) definition(r, ctx);
  if (r.coin(0.3)) static_case(r, ctx);
  else reject<-1, -1>(r, ctx);
  if (ctx.want_sample()) ctx.sample("four problem definitions and four misuses");
}
MON_MAIN(run)
#endif
