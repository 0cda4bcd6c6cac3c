// C31: what a user function throws reaches the caller, whatever the number of threads, and the solver can be
// used afterwards as if nothing had happened.
#include "capture.hpp"
#include "rig.hpp"
using namespace gen;
using altro::LogLevel;

namespace {
struct Boom {
  long id;
};
struct BoomError : std::runtime_error {  // the kinds of objects people throw
  long id;
  explicit BoomError(long i) : std::runtime_error("boom"), id(i) {}
};
struct BoomLogic : std::domain_error {
  long id;
  explicit BoomLogic(long i) : std::domain_error("boom"), id(i) {}
};
struct BoomAlloc : std::bad_alloc {
  long id;
  explicit BoomAlloc(long i) : id(i) {}
};
struct Bomb {  // one call of one kind of user function throws
  std::atomic<long> left{0}, fired{0};
  std::atomic<int> where{-1};
  long id = 0;
  void arm(int w, long after, long i) {
    fired = 0;
    left = after;
    id = i;
    where = w;
  }
  void at(int w) {
    if (where.load(std::memory_order_relaxed) != w) return;
    if (left.fetch_sub(1) == 0) {
      ++fired;
      switch (id % 5) {
        case 0: throw Boom{id};
        case 1: throw BoomError(id);
        case 2: throw BoomLogic(id);
        case 3: throw BoomAlloc(id);
        default: throw id;
      }
    }
  }
} bomb;
enum { kDyn, kDynJac, kCost, kGrad, kHess, kCon, kConJac, kCallback, kKinds };
const char* const kind_name[] = {"dynamics", "dynamics Jacobian", "cost", "cost gradient", "cost Hessian", "constraint", "constraint Jacobian", "callback"};
struct TModel : Discrete {
  using Discrete::Discrete;
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, float t, float h, Eigen::Ref<VectorXd> xn) override {
    bomb.at(kDyn);
    Discrete::Evaluate(x, u, t, h, xn);
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, float t, float h, Eigen::Ref<MatrixXd> jac) override {
    bomb.at(kDynJac);
    Discrete::Jacobian(x, u, t, h, jac);
  }
};
struct TCost : Cost {
  using CostFunction::Gradient;
  using CostFunction::Hessian;
  using Cost::Cost;
  double Evaluate(const VectorXdRef& x, const VectorXdRef& u) override {
    bomb.at(kCost);
    return Cost::Evaluate(x, u);
  }
  void Gradient(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> dx, Eigen::Ref<VectorXd> du) override {
    bomb.at(kGrad);
    Cost::Gradient(x, u, dx, du);
  }
  void Hessian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> xx, Eigen::Ref<MatrixXd> xu, Eigen::Ref<MatrixXd> uu) override {
    bomb.at(kHess);
    Cost::Hessian(x, u, xx, xu, uu);
  }
};
template <class T>
struct TCon : Con<T> {
  using Con<T>::Con;
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> c) override {
    bomb.at(kCon);
    Con<T>::Evaluate(x, u, c);
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> jac) override {
    bomb.at(kConJac);
    Con<T>::Jacobian(x, u, jac);
  }
};
template <int n_, int m_>
void make(Rig<n_, m_>& g, const Setup& from, bool al) {
  g.s = from;
  g.al = al;
  g.s.prob = std::make_shared<altro::problem::Problem>(from.N);
  auto& p = *g.s.prob;
  for (int k = 0; k <= from.N; ++k) {
    if (k < from.N) p.SetDynamics(std::make_shared<TModel>(from.models[k]->data), k);
    p.SetCostFunction(std::make_shared<TCost>(from.costs[k]->data), k);
    for (auto& d : from.cons[k]) {
      if (d.eq) p.SetConstraint(std::make_shared<TCon<altro::constraints::Equality>>(d), k);
      else p.SetConstraint(std::make_shared<TCon<altro::constraints::Inequality>>(d), k);
    }
  }
  p.SetInitialState(from.x0);
  if (al) g.as = std::make_unique<AugmentedLagrangianiLQR<n_, m_>>(p);
  else g.il = std::make_unique<iLQR<n_, m_>>(p);
  g.Z = g.s.template guess<n_, m_>();
  if (al) g.as->SetTrajectory(g.Z);
  else g.il->SetTrajectory(g.Z);
}

template <int n_, int m_>
void throwing(Rng& r, mon::Ctx& ctx, int n = 0, int m = 0) {
  GenOpt o;
  o.nonlin = r.coin();
  o.cost = r.pick({kQuad, kSmooth, kNonconvex});
  o.Nmax = r.pick({3, 12});
  bool al = r.coin(0.6);
  o.maxcon = al ? 2 : 0;
  o.affine_only = r.coin();
  Setup s = random_setup(r, o, n, m);
  altro::SolverOptions base;
  vary_options(r, &base);
  base.max_iterations_inner = std::min(base.max_iterations_inner, 30);
  base.max_iterations_outer = std::min(base.max_iterations_outer, 8);
  base.nthreads = r.pick({1, 1, 2, 3});
  base.tasks_per_thread = r.integer(1, 2);
  bomb.where = -1;
  Rig<n_, m_> fresh, used;
  make(fresh, s, al);
  fresh.q().GetOptions() = base;
  Outcome want = fresh.solve();

  make(used, s, al);
  std::string log;
  auto where = [&] { return mon::sf(" al=%d after: ", al) + log + "; " + s.describe(); };
  int attempts = r.integer(1, 4);
  for (int i = 0; i < attempts; ++i) {
    auto& q = used.q();
    altro::SolverOptions opt = base;
    if (r.coin(0.5)) {
      vary_options(r, &opt);
      opt.max_iterations_inner = std::min(opt.max_iterations_inner, 20);
      opt.max_iterations_outer = std::min(opt.max_iterations_outer, 6);
      opt.nthreads = r.pick({1, 2, 3, 4});
      opt.tasks_per_thread = r.integer(1, 3);
    }
    opt.verbose = r.pick({LogLevel::kSilent, LogLevel::kSilent, LogLevel::kInner, LogLevel::kDebug});
    opt.profiler_enable = r.coin(0.2);
    opt.reset_duals = r.coin(0.7);
    q.GetOptions() = opt;
    s.fill(*used.Z);
    if (r.coin())
      for (int k = 0; k < s.N; ++k) used.Z->Control(k) = rvec(r, s.m, 1.0);
    if (r.coin(0.4)) q.GetStats().Reset();
    int kind = r.integer(0, kKinds - 1);
    bool callback = kind == kCallback && !al;
    if (callback) used.il->SetConstraintCallback([] { bomb.at(kCallback); return 0.0; });
    long after = r.pick({0, 1, 0, 1, 2}) * s.N + r.integer(0, r.pick({2, s.N, 40 * s.N}));
    if (callback) after = r.integer(0, 5);
    long id = r.integer(1, 1000000);
    int op = r.integer(0, 9);
    static const char* const ops[] = {"solve", "solve", "solve", "solve", "solve", "rollout", "expansions", "expansions", "cost", "violation"};
    log += mon::sf("%s with throwing %s (threads %d) ", ops[op], kind_name[kind], opt.nthreads);
    bool caught = false, other = false;
    long caught_id = 0;
    std::string printed = mon::capture([&] {
      try {
        if (op >= 5) q.SolveSetup();
        bomb.arm(kind, after, id);
        if (op <= 4) {
          if (al) used.as->Solve();
          else used.il->Solve();
        } else if (op == 5) {
          q.Rollout();
        } else if (op <= 7) {
          q.UpdateExpansions();
        } else if (op == 8) {
          q.Cost(*used.Z);
        } else if (al) {
          used.as->MaxViolation(*used.Z);
        }
      } catch (const Boom& b) {
        caught = b.id % 5 == 0;
        caught_id = b.id;
      } catch (const BoomError& b) {
        caught = b.id % 5 == 1;
        caught_id = b.id;
      } catch (const BoomLogic& b) {
        caught = b.id % 5 == 2;
        caught_id = b.id;
      } catch (const BoomAlloc& b) {
        caught = b.id % 5 == 3;
        caught_id = b.id;
      } catch (long i) {
        caught = i % 5 == 4;
        caught_id = i;
      } catch (...) {
        other = true;
      }
    });
    bomb.where = -1;
    bool fired = bomb.fired > 0;
    ctx.check(!other, "other-exception", [&] { return "another exception than the user's arrived" + where(); });
    ctx.check(!fired || caught, "swallowed", [&] { return "the exception did not reach the caller" + where(); });
    ctx.check(!caught || (fired && caught_id == id), "wrong", [&] { return "an exception that was not thrown arrived" + where(); });
    if (fired) {
      ctx.count(std::string("thrown_by_") + kind_name[kind]);
      if (op <= 4) ctx.count("thrown_in_solve");
      if (q.NumThreads() > 1) ctx.count("thrown_with_threads");
    } else {
      log += "(not reached) ";
    }
    // the solver still answers, and still has what it was given
    ctx.check(q.GetTrajectory() == used.Z && q.GetOptions().max_iterations_inner == opt.max_iterations_inner && q.GetOptions().verbose == opt.verbose, "altered",
              [&] { return "the solver lost its trajectory or options" + where(); });
    if (callback) used.il->SetConstraintCallback([] { return 0.0; });
    if (r.coin(0.2)) {
      log += "move ";
      if (al) used.as = std::make_unique<AugmentedLagrangianiLQR<n_, m_>>(std::move(*used.as));
      else used.il = std::make_unique<iLQR<n_, m_>>(std::move(*used.il));
    }
    if (r.coin(0.15)) {  // destroyed in this state
      log += "rebuild ";
      make(used, s, al);
    }
    ctx.count("attempts");
  }
  used.q().GetOptions() = base;
  s.fill(*used.Z);
  if (al) used.q().GetOptions().reset_duals = base.reset_duals;
  Outcome got = used.solve();
  std::string diff = differ(want, got);
  // penalties are only reset if the options say so
  ctx.check(diff.empty(), "trace", [&] { return "after an exception the solver gives another result than a fresh one: " + diff + where(); });
  ctx.count("compared");
  if (got.Z.finite() && got.total > 0) ctx.distinct(traj_hash(got.Z));
  if (ctx.want_sample()) ctx.sample(log + s.describe());
}
}  // namespace
#ifdef STATIC_UNIT
void static_case(Rng& r, mon::Ctx& ctx) { throwing<3, 2>(r, ctx, 3, 2); }
#else
void static_case(Rng& r, mon::Ctx& ctx);
static void run(Rng& r, mon::Ctx& ctx) {
  if (r.coin(0.15)) return static_case(r, ctx);
  throwing<-1, -1>(r, ctx);
}
MON_MAIN(run)
#endif
