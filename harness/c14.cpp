// C14: results and user function calls do not depend on threads, tasks per thread or the partition of the knot points.
#include <thread>
#include "rig.hpp"
using namespace gen;

// User functions that take a varying amount of time, so that blocks finish in varying orders.
inline std::atomic<uint64_t>& jitter() {
  static std::atomic<uint64_t> j{0};
  return j;
}
inline void delay() {
  uint64_t j = jitter().load(std::memory_order_relaxed);
  if (!j) return;
  static thread_local uint64_t local = 0;
  uint64_t h = mon::mix(j + (++local) + std::hash<std::thread::id>()(std::this_thread::get_id()));
  if (h % 61 == 0) std::this_thread::sleep_for(std::chrono::microseconds(1 + h / 61 % 60));
  else if (h % 5 == 0) std::this_thread::yield();
}
class JModel : public Discrete {
 public:
  using Discrete::Discrete;
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, float t, float h, Eigen::Ref<MatrixXd> jac) override {
    delay();
    who.push_back(std::this_thread::get_id());
    Discrete::Jacobian(x, u, t, h, jac);
  }
  std::vector<std::thread::id> who;  // which thread ran each call
};
class JCost : public Cost {
 public:
  using CostFunction::Gradient;
  using CostFunction::Hessian;
  using Cost::Cost;
  void Hessian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> xx, Eigen::Ref<MatrixXd> xu, Eigen::Ref<MatrixXd> uu) override {
    delay();
    Cost::Hessian(x, u, xx, xu, uu);
  }
};
struct Calls {
  std::vector<long> v;
  static Calls of(const Setup& s) {
    Calls c;
    for (auto& m : s.models) c.v.push_back(m->log.neval), c.v.push_back(m->log.njac);
    for (auto& m : s.costs) c.v.push_back(m->neval), c.v.push_back(m->ngrad), c.v.push_back(m->nhess);
    return c;
  }
  Calls operator-(const Calls& o) const {
    Calls c = *this;
    for (size_t i = 0; i < v.size(); ++i) c.v[i] -= o.v[i];
    return c;
  }
};
static std::vector<int> random_partition(Rng& r, int N) {
  std::vector<int> p{0};
  int tasks = r.integer(1, std::min(N + 1, 12));
  std::set<int> cuts;
  while (static_cast<int>(cuts.size()) < tasks - 1) cuts.insert(r.integer(1, N));
  for (int c : cuts) p.push_back(c);
  p.push_back(N + 1);
  return p;
}
static std::string show(const std::vector<int>& p) {
  std::string s;
  for (int i : p) s += std::to_string(i) + " ";
  return s;
}

static void partitions(Rng& r, mon::Ctx& ctx) {
  // the default partition, for many combinations
  for (int i = 0; i < 40; ++i) {
    int N = r.integer(1, 300);
    iLQR<-1, -1> q(N);
    int rounds = r.integer(1, 3);
    for (int j = 0; j < rounds; ++j) {
      int T = r.integer(-1, 40), tpt = r.integer(1, 9);
      if (T == 0) T = 1;
      if (T < 0) T = altro::kPickHardwareThreads;
      q.GetOptions().nthreads = T;
      q.GetOptions().tasks_per_thread = tpt;
      if (q.GetOptions().NumThreads() < 1) continue;
      std::vector<int> p = q.GetTaskAssignment();
      auto where = [&] { return mon::sf("N=%d threads=%d tasks per thread=%d: ", N, T, tpt) + show(p); };
      bool ok = p.size() >= 2 && p.front() == 0 && p.back() == N + 1;
      for (size_t k = 1; k < p.size(); ++k) ok = ok && p[k] >= p[k - 1];
      ctx.check(ok, "default-partition", where);
      ctx.check(q.NumTasks() == static_cast<int>(p.size()) - 1, "num-tasks", where);
      ctx.count("default_partitions");
    }
    std::vector<int> mine = random_partition(r, N);
    q.SetTaskAssignment(mine);
    q.GetOptions().nthreads = r.integer(1, 9);
    ctx.check(q.GetTaskAssignment() == mine && q.NumTasks() == static_cast<int>(mine.size()) - 1, "custom-kept", [&] { return "the user's partition " + show(mine) + "became " + show(q.GetTaskAssignment()); });
  }
  // invalid ones are rejected
  int N = r.integer(2, 30);
  std::vector<int> bad = random_partition(r, N);
  int kind = r.integer(0, 5);
  if (kind == 0) bad.front() = r.pick({1, -1});
  if (kind == 1) bad.back() = r.pick({N, N + 2, 2 * N});
  if (kind == 2) bad.insert(bad.begin() + 1, bad[r.integer(0, bad.size() - 1)]), std::sort(bad.begin(), bad.end());
  if (kind == 3) {
    bad = {0, r.integer(1, N), N + 1};
    bad.insert(bad.begin() + 2, r.integer(0, bad[1]));
  }
  if (kind == 4) bad = {0};
  if (kind == 5) bad = {N + 1};
  auto c = mon::in_child([&] {
    iLQR<-1, -1> q(N);
    q.SetTaskAssignment(bad);
    return 0;
  });
  ctx.check(c.aborted && c.err.find("Assert failed") != std::string::npos, "invalid-accepted", [&] { return mon::sf("N=%d: invalid partition accepted or crashed (signal %d): ", N, c.sig) + show(bad); });
  ctx.count("invalid_partitions");
}

template <int n_, int m_>
static void independence(Rng& r, mon::Ctx& ctx, int n = 0, int m = 0) {
  GenOpt o;
  o.nonlin = r.coin();
  o.cost = r.pick({kQuad, kSmooth, kNonconvex});
  o.Nmax = r.pick({3, 12, 40});
  bool al = r.coin(0.5);
  o.maxcon = al ? 2 : 0;
  o.affine_only = r.coin();
  Setup s = random_setup(r, o, n, m);
  for (int k = 0; k <= s.N; ++k) {
    s.costs[k] = std::make_shared<JCost>(s.costs[k]->data);
    if (k < s.N) s.models[k] = std::make_shared<JModel>(s.models[k]->data);
  }
  altro::SolverOptions opt;
  vary_options(r, &opt);
  opt.max_iterations_inner = std::min(opt.max_iterations_inner, 15);
  opt.max_iterations_outer = std::min(opt.max_iterations_outer, 5);
  if (r.coin(0.1)) opt.state_max = r.uni(0.5, 4);
  jitter() = 0;
  Rig<n_, m_> serial, par;
  serial.make(s, al);
  serial.q().GetOptions() = opt;
  Calls c0 = Calls::of(s);
  Outcome want = serial.solve();
  Calls serial_calls = Calls::of(s) - c0;
  if (want.Z.finite()) ctx.distinct(traj_hash(want.Z));
  // one expansion per knot point and iteration, everywhere
  for (int k = 0; k < s.N; ++k)
    ctx.check(serial_calls.v[2 * k + 1] == serial_calls.v[1], "serial-calls", [&] { return mon::sf("%ld Jacobians at %d, %ld at 0", serial_calls.v[2 * k + 1], k, serial_calls.v[1]); });
  par.make(s, al);
  if (r.coin(0.8)) jitter() = r.next() | 1;
  std::vector<int> custom;
  int rounds = r.integer(1, 3);
  for (int round = 0; round < rounds; ++round) {
    auto popt = opt;
    popt.nthreads = r.pick({1, 2, 2, 3, 4, 5, 8});
    popt.tasks_per_thread = r.pick({1, 1, 2, 5});
    par.q().GetOptions() = popt;
    if (r.coin(0.4)) {
      custom = random_partition(r, s.N);
      par.q().SetTaskAssignment(custom);
      ctx.count("custom_partitions");
    }
    if (r.coin(0.2)) par.q().GetTaskAssignment();
    s.fill(*par.Z);
    Calls c1 = Calls::of(s);
    for (auto& mo : s.models) static_cast<JModel&>(*mo).who.clear();
    Outcome got = par.solve();
    Calls calls = Calls::of(s) - c1;
    auto where = [&] {
      return mon::sf("%d threads, %d tasks per thread, partition %s; ", popt.nthreads, popt.tasks_per_thread, show(par.q().GetTaskAssignment()).c_str()) + s.describe();
    };
    std::string diff = differ(want, got);
    ctx.check(diff.empty(), "result", [&] { return "differs from the single-threaded solve: " + diff + "; " + where(); });
    for (size_t i = 0; i < calls.v.size(); ++i)
      ctx.check(calls.v[i] == serial_calls.v[i], "calls", [&] {
        return mon::sf("user function %zu was called %ld times, single-threaded %ld times; ", i, calls.v[i], serial_calls.v[i]) + where();
      });
    if (!custom.empty() && popt.nthreads > 1) {  // one task is run by one thread
      for (size_t b = 1; b < custom.size(); ++b)
        for (int k = custom[b - 1] + 1; k < std::min(custom[b], s.N); ++k) {
          auto &w0 = static_cast<JModel&>(*s.models[custom[b - 1]]).who, &w = static_cast<JModel&>(*s.models[k]).who;
          ctx.check(w == w0, "task-split", [&] { return mon::sf("knot points %d and %d belong to one task but were run by different threads; ", custom[b - 1], k) + where(); });
          ctx.count("task_members_compared");
        }
    }
    if (!custom.empty())
      ctx.check(par.q().GetTaskAssignment() == custom, "custom-honoured", where);
    if (popt.nthreads > 1) ctx.check(par.q().NumThreads() == static_cast<size_t>(popt.nthreads), "threads", [&] { return mon::sf("%zu threads running; ", par.q().NumThreads()) + where(); });
    ctx.count(popt.nthreads > 1 ? "parallel_solves" : "serial_solves");
    ctx.count("iterations", got.total);
  }
  jitter() = 0;
  if (ctx.want_sample()) ctx.sample(s.describe() + mon::sf(": %s after %d iterations", status_name(want.status), want.total));
}
#ifdef STATIC_UNIT
void static_case(Rng& r, mon::Ctx& ctx) { independence<3, 2>(r, ctx, 3, 2); }
#else
void static_case(Rng& r, mon::Ctx& ctx);
static void run(Rng& r, mon::Ctx& ctx) {
  if (r.coin(0.2)) partitions(r, ctx);
  if (r.coin(0.15)) return static_case(r, ctx);
  independence<-1, -1>(r, ctx);
}
MON_MAIN(run)
#endif
