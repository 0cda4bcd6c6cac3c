// C15: no data races in threaded solves, the thread pool and the queue. ThreadSanitizer watches every access; the user
// functions, tasks and queue elements carry plain (unsynchronised) data of their own, so that a missing ordering anywhere in the
// library shows up as a race on them too. Occupancy flags watch that a knot point is never in two threads at once.
#include <thread>
#include "altro/common/threadpool.hpp"
#include "rig.hpp"
#if defined(BUNDLED_UNIT)
#include <cstring>
#include "examples/problems/triple_integrator.hpp"
#include "examples/problems/unicycle.hpp"
#endif
using namespace gen;

// One per knot point, shared by its model, cost and constraints.
struct Spot {
  std::atomic<int> busy{0};  // relaxed only: must not order anything
  std::atomic<long> overlaps{0};
  long plain = 0;            // plain on purpose
  std::vector<double> scratch = std::vector<double>(4);
  uint64_t thread_mask = 0;  // plain
};
struct Globals {
  std::atomic<int> in_user{0}, max_in_user{0};
  std::atomic<uint64_t> jitter{0};
};
inline Globals& G() {
  static Globals g;
  return g;
}
inline int my_index() {
  static std::atomic<int> next{0};
  static thread_local int i = next.fetch_add(1, std::memory_order_relaxed);
  return i;
}
struct Enter {
  Spot& s;
  explicit Enter(Spot& sp) : s(sp) {
    if (s.busy.fetch_add(1, std::memory_order_relaxed) != 0) s.overlaps.fetch_add(1, std::memory_order_relaxed);
    int now = G().in_user.fetch_add(1, std::memory_order_relaxed) + 1;
    int old = G().max_in_user.load(std::memory_order_relaxed);
    while (now > old && !G().max_in_user.compare_exchange_weak(old, now, std::memory_order_relaxed)) {
    }
    ++s.plain;
    s.scratch[s.plain % 4] += 1;
    s.thread_mask |= 1ull << (my_index() % 64);
    uint64_t j = G().jitter.load(std::memory_order_relaxed);
    if (j) {
      static thread_local uint64_t local = 0;
      uint64_t h = mon::mix(j + 77 * my_index() + ++local);
      if (h % 97 == 0) std::this_thread::sleep_for(std::chrono::microseconds(h / 97 % 50));
      else if (h % 7 == 0) std::this_thread::yield();
    }
  }
  ~Enter() {
    G().in_user.fetch_sub(1, std::memory_order_relaxed);
    s.busy.fetch_sub(1, std::memory_order_relaxed);
  }
};
class RModel : public Discrete {
 public:
  RModel(ModelData d, std::shared_ptr<Spot> sp) : Discrete(std::move(d)), spot(std::move(sp)) {}
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, float t, float h, Eigen::Ref<VectorXd> xn) override {
    Enter e(*spot);
    Discrete::Evaluate(x, u, t, h, xn);
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, float t, float h, Eigen::Ref<MatrixXd> jac) override {
    Enter e(*spot);
    Discrete::Jacobian(x, u, t, h, jac);
  }
  std::shared_ptr<Spot> spot;
};
class RCost : public Cost {
 public:
  RCost(CostData d, std::shared_ptr<Spot> sp) : Cost(std::move(d)), spot(std::move(sp)) {}
  double Evaluate(const VectorXdRef& x, const VectorXdRef& u) override {
    Enter e(*spot);
    return Cost::Evaluate(x, u);
  }
  void Gradient(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> dx, Eigen::Ref<VectorXd> du) override {
    Enter e(*spot);
    Cost::Gradient(x, u, dx, du);
  }
  void Hessian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> xx, Eigen::Ref<MatrixXd> xu, Eigen::Ref<MatrixXd> uu) override {
    Enter e(*spot);
    Cost::Hessian(x, u, xx, xu, uu);
  }
  std::shared_ptr<Spot> spot;
};

template <int n_, int m_>
static void solver(Rng& r, mon::Ctx& ctx, int n = 0, int m = 0) {
  GenOpt o;
  o.nonlin = r.coin();
  o.cost = r.pick({kQuad, kSmooth, kNonconvex});
  o.Nmax = r.pick({2, 8, 30});
  bool al = r.coin(0.6);
  o.maxcon = al ? 3 : 0;
  Setup s = random_setup(r, o, n, m);
  std::vector<std::shared_ptr<Spot>> spots;
  for (int k = 0; k <= s.N; ++k) {
    spots.push_back(std::make_shared<Spot>());
    s.costs[k] = std::make_shared<RCost>(s.costs[k]->data, spots[k]);
    if (k < s.N) s.models[k] = std::make_shared<RModel>(s.models[k]->data, spots[k]);
  }
  altro::SolverOptions opt;
  vary_options(r, &opt);
  opt.max_iterations_inner = std::min(opt.max_iterations_inner, 6);
  opt.max_iterations_outer = std::min(opt.max_iterations_outer, 3);
  auto rig = std::make_unique<Rig<n_, m_>>();
  rig->make(s, al);
  G().jitter.store(r.coin(0.8) ? r.next() | 1 : 0);
  G().max_in_user = 0;
  int rounds = r.integer(1, 3);
  long before = 0;
  for (int round = 0; round < rounds; ++round) {
    auto popt = opt;
    popt.nthreads = r.pick({1, 2, 3, 4, 6});
    popt.tasks_per_thread = r.pick({1, 1, 2, 4});
    if (r.coin(0.15)) popt.profiler_enable = true;
    rig->q().GetOptions() = popt;
    if (r.coin(0.3)) {
      std::vector<int> p{0};
      for (int k = 1; k <= s.N; ++k)
        if (r.coin(0.4)) p.push_back(k);
      p.push_back(s.N + 1);
      rig->q().SetTaskAssignment(p);
      ctx.count("custom_partitions");
    }
    if (r.coin(0.2)) {  // moving a solver whose pool has been used
      if (!al) {
        // a running pool may not be moved: the library stops it in the move
        auto moved = std::make_unique<iLQR<n_, m_>>(std::move(*rig->il));
        rig->il = std::move(moved);
        ctx.count("moved_solvers");
      }
    }
    s.fill(*rig->Z);
    rig->solve();
    // the effects of every user function call are visible here
    long sum = 0, scratch = 0;
    int width = 0;
    for (auto& sp : spots) {
      sum += sp->plain;
      for (double v : sp->scratch) scratch += static_cast<long>(v);
      width = std::max(width, __builtin_popcountll(sp->thread_mask));
    }
    ctx.check(sum == scratch && sum > before, "visibility", [&] { return mon::sf("%ld calls, %ld recorded, %ld before; ", sum, scratch, before) + s.describe(); });
    before = sum;
    // user functions may be called and replaced by the user between solves, without any synchronisation
    for (auto& c : s.costs) c->data.c += 1e-9;
    ctx.count("user_calls", sum);
    ctx.maximum("max_threads_seen_by_one_knot_point", width);
    ctx.count(popt.nthreads > 1 ? "parallel_solves" : "serial_solves");
  }
  long over = 0;
  for (auto& sp : spots) over += sp->overlaps.load();
  ctx.check(over == 0, "occupancy", [&] { return mon::sf("a knot point's functions ran in two threads at once %ld times; ", over) + s.describe(); });
  ctx.maximum("max_user_functions_in_parallel", G().max_in_user.load());
  if (G().max_in_user.load() > 1) ctx.count("solves_with_real_parallelism");
  uint64_t hh = mon::mix(before);
  for (auto& sp : spots) hh = mon::mix(hh ^ sp->thread_mask);  // which threads met which knot points: the schedule
  ctx.distinct(hh);
  G().jitter = 0;
}

static void pool(Rng& r, mon::Ctx& ctx) {
  auto p = std::make_unique<altro::ThreadPool>();
  int rounds = r.integer(1, 4);
  struct Cell { long a = 0; std::vector<int> v; };
  bool watch = r.coin(0.5);
  for (int round = 0; round < rounds; ++round) {
    int nt = r.integer(0, 60), threads = r.integer(1, 6);
    std::vector<Cell> cells(nt);
    long owner_data = 0;  // written by the owner before adding, read by every task
    auto add = [&](int from, int to) {
      owner_data += 1;
      for (int i = from; i < to; ++i)
        p->AddTask([&cells, &owner_data, i] {
          cells[i].a += owner_data;
          cells[i].v.push_back(i);
          if (i % 11 == 0) std::this_thread::yield();
        });
    };
    int split = nt ? r.integer(0, nt) : 0;
    if (!p->IsRunning()) {
      add(0, split);
      p->LaunchThreads(threads);
      if (r.coin()) {
        p->Wait();
        add(split, nt);
      } else {
        split = split;
        for (int i = split; i < nt; ++i) p->AddTask([&cells, i] { cells[i].a += 1; cells[i].v.push_back(i); });
      }
    } else {
      add(0, nt);
    }
    std::atomic<bool> stop{false};
    std::thread observer;
    if (watch) observer = std::thread([&] {
      size_t seen = 0;
      while (!stop.load(std::memory_order_relaxed)) seen += p->NumTasks() + p->IsRunning();
      (void)seen;
    });
    p->Wait();
    stop = true;
    if (observer.joinable()) observer.join();
    for (int i = 0; i < nt; ++i) ctx.check(cells[i].a >= 1 && cells[i].v.size() == 1, "pool-visibility", [&] { return mon::sf("task %d of %d ran %zu times", i, nt, cells[i].v.size()); });
    if (nt) ctx.check(owner_data >= 0, "never", "");
    ctx.count("pool_tasks", nt);
    if (r.coin(0.4)) {
      p->StopThreads();
      if (r.coin()) {
        auto q = std::make_unique<altro::ThreadPool>(std::move(*p));
        p = std::move(q);
      }
      ctx.count("pool_restarts");
    }
  }
}

// An element with plain data on the heap.
struct Item {
  int from = -1, seq = -1;
  std::unique_ptr<std::vector<int>> data;
};
static void queue(Rng& r, mon::Ctx& ctx) {
  altro::ThreadSafeQueue<Item> q;
  int producers = r.integer(1, 4), consumers = r.integer(1, 4), per = r.pick({1, 5, 50, 300});
  bool clears = r.coin(0.2);
  uint64_t seed = r.next();
  std::atomic<int> left{producers}, looks{0};
  std::vector<long> got(consumers);
  std::vector<std::thread> ts;
  for (int i = 0; i < producers; ++i)
    ts.emplace_back([&, i] {
      Rng pr(seed + i);
      for (int j = 0; j < per; ++j) {
        Item it;
        it.from = i;
        it.seq = j;
        it.data = std::make_unique<std::vector<int>>(3, j);
        q.Push(std::move(it));
        if (pr.coin(0.1)) std::this_thread::yield();
        if (pr.coin(0.05)) q.Size();
      }
      left.fetch_sub(1, std::memory_order_relaxed);
    });
  for (int i = 0; i < consumers; ++i)
    ts.emplace_back([&, i] {
      Rng pr(seed + 100 + i);
      for (;;) {
        bool last = left.load(std::memory_order_relaxed) == 0;
        Item it;
        if (q.TryPop(it)) {
          got[i] += (*it.data)[0] == it.seq && it.data->size() == 3;
          it.data->push_back(1);
        } else if (last) {
          break;
        } else if (pr.coin(0.3)) {
          q.IsEmpty();
        } else if (clears && pr.coin(0.05)) {
          q.Clear();
        } else {
          std::this_thread::yield();
        }
      }
    });
  // threads that only look
  int watchers = r.integer(0, 2);
  for (int i = 0; i < watchers; ++i)
    ts.emplace_back([&, i] {
      Rng pr(seed + 200 + i);
      long seen = 0;
      while (left.load(std::memory_order_relaxed) != 0) {
        seen += q.IsEmpty();
        if (pr.coin(0.3)) seen += q.Size();
        if (pr.coin(0.1)) std::this_thread::yield();
      }
      looks.fetch_add(seen >= 0 ? 1 : 0, std::memory_order_relaxed);
    });
  for (auto& t : ts) t.join();
  ctx.count("queue_watchers", looks.load());
  long n = 0;
  for (long g : got) n += g;
  Item it;
  while (q.TryPop(it)) ++n;
  ctx.check(clears ? n <= static_cast<long>(producers) * per : n == static_cast<long>(producers) * per, "queue-content", [&] { return mon::sf("%ld of %d elements received intact", n, producers * per); });
  ctx.count("queue_elements", n);
}
// Independent solvers share nothing: they may run in different threads.
static void separate(Rng& r, mon::Ctx& ctx) {
  GenOpt o;
  o.nonlin = true;
  o.cost = kQuad;
  o.Nmax = 8;
  o.maxcon = 2;
  int count = r.integer(2, 4);
  std::vector<Setup> setups;
  std::vector<std::unique_ptr<Rig<-1, -1>>> rigs;
  altro::SolverOptions opt;
  vary_options(r, &opt);
  opt.max_iterations_inner = std::min(opt.max_iterations_inner, 6);
  opt.max_iterations_outer = std::min(opt.max_iterations_outer, 3);
  opt.verbose = r.pick({altro::LogLevel::kSilent, altro::LogLevel::kInnerDebug});
  for (int i = 0; i < count; ++i) setups.push_back(random_setup(r, o, 0, 0));
  std::vector<Outcome> out(count), want(count);
  for (int pass = 0; pass < 2; ++pass) {
    rigs.clear();
    for (int i = 0; i < count; ++i) {
      rigs.push_back(std::make_unique<Rig<-1, -1>>());
      rigs[i]->make(setups[i], true);
      rigs[i]->q().GetOptions() = opt;
      rigs[i]->q().GetOptions().nthreads = 1 + i % 2;
    }
    std::vector<std::thread> ts;
    for (int i = 0; i < count; ++i) {
      if (pass == 0) want[i] = rigs[i]->solve();
      else ts.emplace_back([&, i] { out[i] = rigs[i]->solve(); });
    }
    for (auto& t : ts) t.join();
  }
  for (int i = 0; i < count; ++i) {
    std::string d = differ(want[i], out[i]);
    ctx.check(d.empty(), "separate", [&] { return "solving at the same time as other solvers changed the result: " + d; });
  }
  ctx.count("concurrent_solvers", count);
}
#if defined(BUNDLED_UNIT)
// Continuous models of the user and of the library, discretised by every integrator, one object per knot point; and the bundled
// problems with their costs and constraints.
template <int n_, int m_>
struct Swing : public altro::problem::ContinuousDynamics {
  static constexpr int NStates = n_;
  static constexpr int NControls = m_;
  int n, m;
  long calls = 0;  // plain
  Swing(int nn, int mm) : n(nn), m(mm) {}
  int StateDimension() const override { return n; }
  int ControlDimension() const override { return m; }
  bool HasHessian() const override { return false; }
  using ContinuousDynamics::Evaluate;
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, float t, Eigen::Ref<VectorXd> xd) override {
    ++calls;
    for (int i = 0; i < n; ++i) xd(i) = -std::sin(x(i)) + 0.3 * x((i + 1) % n) + u(i % m) + 0.1 * t;
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, float, Eigen::Ref<MatrixXd> jac) override {
    ++calls;
    jac.setZero();
    for (int i = 0; i < n; ++i) {
      jac(i, i) -= std::cos(x(i));
      jac(i, (i + 1) % n) += 0.3;
      jac(i, n + i % m) += 1;
    }
    (void)u;
  }
  void Hessian(const VectorXdRef&, const VectorXdRef&, float, const VectorXdRef&, Eigen::Ref<MatrixXd>) override {}
};
template <int n_, int m_>
static std::vector<double> numbers(const altro::Trajectory<n_, m_>& Z) {
  std::vector<double> v;
  for (int k = 0; k <= Z.NumSegments(); ++k) {
    for (int i = 0; i < Z.State(k).size(); ++i) v.push_back(Z.State(k)(i));
    for (int i = 0; k < Z.NumSegments() && i < Z.Control(k).size(); ++i) v.push_back(Z.Control(k)(i));
  }
  return v;
}
template <int n_, int m_>
static std::vector<double> solve_once(const altro::problem::Problem& prob, const altro::Trajectory<n_, m_>& Z0, bool al, int threads, int tasks, int rounds) {
  auto Z = std::make_shared<altro::Trajectory<n_, m_>>(Z0);
  auto options = [&](altro::SolverOptions& o) {
    o.nthreads = threads;
    o.tasks_per_thread = tasks;
    o.max_iterations_inner = 5;
    o.max_iterations_outer = 3;
  };
  if (al) {
    altro::augmented_lagrangian::AugmentedLagrangianiLQR<n_, m_> s(prob);
    s.SetTrajectory(Z);
    options(s.GetOptions());
    for (int i = 0; i < rounds; ++i) s.Solve();
  } else {
    altro::ilqr::iLQR<n_, m_> s(prob);
    s.SetTrajectory(Z);
    options(s.GetOptions());
    for (int i = 0; i < rounds; ++i) s.Solve();
  }
  return numbers(*Z);
}
template <int n_, int m_, class Integrator>
static std::function<altro::problem::Problem()> swings(Rng& r, int n, int m, int N) {
  using M = Swing<n_, m_>;
  VectorXd xf = rvec(r, n), x0 = rvec(r, n);
  return [=] {
    altro::problem::Problem p(N);
    std::vector<double> lo(m, -0.5), hi(m, 0.7);
    for (int k = 0; k <= N; ++k) {
      p.SetCostFunction(std::make_shared<altro::examples::QuadraticCost>(altro::examples::QuadraticCost::LQRCost(
                            MatrixXd::Identity(n, n), k < N ? MatrixXd(MatrixXd::Identity(m, m) * 0.1) : MatrixXd(MatrixXd::Zero(m, m)), xf, VectorXd::Zero(m), k == N)), k);
      if (k < N) p.SetDynamics(std::make_shared<altro::problem::DiscretizedModel<M, Integrator>>(M(n, m)), k);
      if (k < N) p.SetConstraint(std::make_shared<altro::examples::ControlBound>(lo, hi), k);
    }
    p.SetConstraint(std::make_shared<altro::examples::GoalConstraint>(xf), N);
    p.SetInitialState(x0);
    return p;
  };
}
void bundled_case(Rng& r, mon::Ctx& ctx) {
  int threads = r.integer(2, 6), tasks = r.pick({1, 1, 2}), rounds = r.integer(1, 2);
  bool al = r.coin(0.6);
  std::vector<double> serial, parallel;
  auto both = [&](const std::function<altro::problem::Problem()>& make, const auto& Z, const char* what) {
    serial = solve_once(make(), Z, al, 1, 1, rounds);
    parallel = solve_once(make(), Z, al, threads, tasks, rounds);
    bool same = serial.size() == parallel.size() && std::memcmp(serial.data(), parallel.data(), serial.size() * sizeof(double)) == 0;
    ctx.check(same, "bundled-result", [&] { return mon::sf("%s al=%d threads=%d tasks=%d: the parallel solve differs from the serial one", what, al, threads, tasks); });
    ctx.count("bundled_solves");
    if (r.coin(0.4)) {  // the same solve several times at once, in threads of the user, each with objects of its own
      const int count = r.integer(2, 3);
      std::vector<std::vector<double>> got(count);
      std::vector<altro::problem::Problem> probs;
      for (int i = 0; i < count; ++i) probs.push_back(make());
      std::vector<std::thread> ts;
      for (int i = 0; i < count; ++i) ts.emplace_back([&, i] { got[i] = solve_once(probs[i], Z, al, 1 + i % 2, tasks, rounds); });
      for (auto& t : ts) t.join();
      for (int i = 0; i < count; ++i) {
        same = serial.size() == got[i].size() && std::memcmp(serial.data(), got[i].data(), serial.size() * sizeof(double)) == 0;
        ctx.check(same, "bundled-separate", [&] { return mon::sf("%s al=%d: solving %d copies at the same time changed the result", what, al, count); });
      }
      ctx.count("bundled_concurrent", count);
    }
    uint64_t h = threads * 8 + tasks;
    for (double v : serial) { uint64_t b; std::memcpy(&b, &v, 8); h = mon::mix(h ^ b); }
    ctx.distinct(h);
  };
  const int kind = r.integer(0, 5);
  const int N = r.pick({3, 8, 20});
  if (kind <= 3) {
    const int n = kind == 2 ? 3 : r.integer(1, 6), m = kind == 2 ? 2 : r.integer(1, 3);
    auto start = [&](auto Z) {
      Z.SetUniformStep(0.1f);
      for (int k = 0; k < N; ++k) Z.Control(k) = VectorXd::Constant(m, 0.01 * (k % 7));
      return Z;
    };
    if (kind == 2) both(swings<3, 2, altro::problem::RungeKutta4<3, 2>>(r, n, m, N), start(altro::Trajectory<3, 2>(n, m, N)), "fixed-size rk4");
    else if (kind == 1) both(swings<-1, -1, altro::problem::ExplicitEuler>(r, n, m, N), start(altro::Trajectory<-1, -1>(n, m, N)), "euler");
    else both(swings<-1, -1, altro::problem::RungeKutta4<-1, -1>>(r, n, m, N), start(altro::Trajectory<-1, -1>(n, m, N)), "rk4");
  } else if (kind == 4) {
    altro::problems::UnicycleProblem up;
    up.N = N;
    if (r.coin()) up.SetScenario(altro::problems::UnicycleProblem::kThreeObstacles);
    up.MakeProblem();
    auto Z = up.InitialTrajectory();
    both([&] { return up.MakeProblem(); }, Z, "unicycle");
  } else {
    // the bundled builder leaves the reference control unset (a known finding): only the race detector and no comparison here
    altro::problems::TripleIntegratorProblem<2> tp;
    tp.N = N;
    auto Z = tp.InitialTrajectory();
    solve_once(r.coin() ? tp.MakeProblem(true) : tp.MakeProblem<altro::problem::ExplicitEuler>(true), Z, al, threads, tasks, rounds);
    ctx.count("bundled_solves");
  }
}
#elif defined(STATIC_UNIT)
void static_case(Rng& r, mon::Ctx& ctx) { solver<3, 2>(r, ctx, 3, 2); }
#else
void static_case(Rng& r, mon::Ctx& ctx);
void bundled_case(Rng& r, mon::Ctx& ctx);
static void run(Rng& r, mon::Ctx& ctx) {
  int k = r.integer(0, 99);
  if (k < 20) return pool(r, ctx);
  if (k < 40) return queue(r, ctx);
  if (k < 50) return static_case(r, ctx);
  if (k < 60) return separate(r, ctx);
  if (k < 72) return bundled_case(r, ctx);
  solver<-1, -1>(r, ctx);
}
MON_MAIN(run)
#endif
