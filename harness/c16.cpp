// C16: every task runs exactly once, waiting is a barrier, stopping joins, and all this across restarts, moves and exceptions.
#include <dirent.h>
#include <thread>
#include "altro/common/threadpool.hpp"
#include "mon.hpp"
using altro::ThreadPool;
using mon::Rng;

struct Task {
  std::atomic<int> runs{0}, done{0};
  int payload = 0;  // plain: written by the task, read by the owner after a wait
  std::thread::id by;
  bool throws = false;
  int pause = 0;  // microseconds; -1: yield; -2: spin
  int before = 0;
};
static int count_threads() {
  int n = 0;
  DIR* d = opendir("/proc/self/task");
  while (dirent* e = readdir(d)) n += e->d_name[0] != '.';
  closedir(d);
  return n;
}
static const int g_base = count_threads();  // before any test
// A joined thread can stay visible in /proc for a moment.
static int os_threads(int expected = -1) {
  int n = 0;
  for (int i = 0; i < 20000; ++i) {
    n = count_threads();
    if (expected < 0 || n == expected) break;
    std::this_thread::sleep_for(std::chrono::microseconds(500));
  }
  return n;
}
struct Functor {  // state is copied into the pool, larger than any small-object buffer
  std::shared_ptr<Task> t;
  std::vector<int> big;
  std::shared_ptr<int> alive;
  void operator()() {
    t->runs.fetch_add(1);
    if (t->pause > 0) std::this_thread::sleep_for(std::chrono::microseconds(t->pause));
    if (t->pause == -1) std::this_thread::yield();
    if (t->pause == -2)
      for (volatile int i = 0; i < 20000; i = i + 1) {
      }
    t->by = std::this_thread::get_id();
    t->payload = big.size() == 40 ? big[7] + t->before : -1;
    t->done.fetch_add(1);
    if (t->throws) throw std::runtime_error("task failed");
  }
};
static std::atomic<int> g_plain_calls{0};
static void plain_function() { g_plain_calls.fetch_add(1); }

struct Model {
  std::vector<std::shared_ptr<Task>> all;   // every task ever added
  size_t waited = 0;                        // all[0..waited) are known to be finished
  std::shared_ptr<int> alive = std::make_shared<int>(0);
  int plain_expected = 0;
};

static void script(Rng& r, mon::Ctx& ctx) {
  const int base = g_base;
  g_plain_calls = 0;
  Model m;
  auto pool = std::make_unique<ThreadPool>();
  std::vector<std::string> log;
  bool running = false;
  int threads = 0;
  std::set<std::thread::id> ids;  // threads seen since launch
  size_t launch_mark = 0;
  auto where = [&] {
    std::string s = mon::sf("%zu tasks; ops:", m.all.size());
    for (auto& l : log) s += " " + l;
    return s;
  };
  auto add = [&](int n) {
    for (int i = 0; i < n; ++i) {
      auto t = std::make_shared<Task>();
      t->throws = r.coin(0.07);
      t->pause = r.pick({0, 0, 0, 0, -1, -2, 50, 400});
      t->before = static_cast<int>(m.all.size());
      Functor f{t, std::vector<int>(40, 3), m.alive};
      int form = r.integer(0, 2);
      if (form == 0) pool->AddTask(f);
      else if (form == 1) pool->AddTask(std::function<void()>(f));
      else pool->AddTask([f]() mutable { f(); });
      m.all.push_back(t);
      if (r.coin(0.05)) pool->AddTask(plain_function), ++m.plain_expected;
    }
    log.push_back(mon::sf("add%d", n));
    ctx.count("tasks", n);
  };
  auto state = [&] {
    ctx.check(pool->IsRunning() == running, "is-running", where);
    ctx.check(pool->NumThreads() == static_cast<size_t>(running ? threads : 0), "num-threads", [&] { return mon::sf("%zu threads instead of %d; ", pool->NumThreads(), running ? threads : 0) + where(); });
    int now = os_threads(base + (running ? threads : 0)) - base;
    ctx.check(now == (running ? threads : 0), "os-threads", [&] { return mon::sf("%d extra OS threads; ", now) + where(); });
    if (!running) {
      size_t pending = m.plain_expected - g_plain_calls;
      for (auto& t : m.all) pending += t->runs == 0;
      ctx.check(pool->NumTasks() == pending, "num-tasks", [&] { return mon::sf("%zu tasks reported, %zu pending; ", pool->NumTasks(), pending) + where(); });
    } else {
      ctx.check(pool->NumTasks() <= m.all.size() + m.plain_expected, "num-tasks-range", [&] { return mon::sf("%zu tasks reported; ", pool->NumTasks()) + where(); });
    }
  };
  auto once = [&] {
    for (auto& t : m.all) {
      int n = t->runs;
      if (n > 1) ctx.fail("twice", mon::sf("a task ran %d times; ", n) + where());
    }
    ctx.check(true, "once", "");
  };
  auto wait = [&] {
    log.push_back("wait");
    pool->Wait();
    for (size_t i = m.waited; i < m.all.size(); ++i) {
      auto& t = *m.all[i];
      bool ok = t.done == 1 && t.runs == 1 && t.payload == 3 + t.before && t.by != std::this_thread::get_id();
      ctx.check(ok, "barrier", [&] { return mon::sf("after a wait, task %zu ran %d times, finished %d times, wrote %d; ", i, t.runs.load(), t.done.load(), t.payload) + where(); });
      ids.insert(t.by);
    }
    ctx.check(g_plain_calls == m.plain_expected, "barrier-plain", where);
    size_t fresh = 0;
    std::set<std::thread::id> now;
    for (size_t i = launch_mark; i < m.all.size(); ++i) now.insert(m.all[i]->by), ++fresh;
    ctx.check(now.size() <= static_cast<size_t>(threads), "too-many-threads", [&] { return mon::sf("%zu threads ran tasks, %d launched; ", now.size(), threads) + where(); });
    ctx.maximum("max_threads_used", now.size());
    m.waited = m.all.size();
    ctx.check(pool->NumTasks() == 0, "num-tasks-after-wait", where);
    ctx.count("waits");
    uint64_t h = 0;
    int idx = 0;
    std::map<std::thread::id, int> name;
    for (size_t i = launch_mark; i < m.all.size(); ++i) {
      auto it = name.emplace(m.all[i]->by, idx);
      if (it.second) ++idx;
      h = mon::mix(h + it.first->second);
    }
    if (fresh) ctx.distinct(h);
  };
  int steps = r.integer(3, 14);
  for (int i = 0; i < steps; ++i) {
    int op = r.integer(0, 9);
    if (op <= 3) add(r.pick({0, 1, 2, 7, 30, 150}));
    else if (op <= 5 && (running || m.waited == m.all.size())) {
      if (running || (m.waited == m.all.size() && m.plain_expected == g_plain_calls)) wait();
    } else if (op == 6 && !running) {
      threads = r.pick({1, 1, 2, 3, 5, 8});
      launch_mark = m.waited;  // tasks run from now on are run by the new threads
      for (size_t j = m.waited; j < m.all.size() && m.all[j]->runs; ++j) launch_mark = j + 1;
      pool->LaunchThreads(threads);
      running = true;
      log.push_back(mon::sf("launch%d", threads));
      ctx.count("launches");
    } else if (op == 7 && running) {
      pool->StopThreads();
      running = false;
      log.push_back("stop");
      std::vector<int> snap;
      for (auto& t : m.all) {
        snap.push_back(t->runs);
        ctx.check(t->runs == t->done, "stop-joins", [&] { return "a task is still being executed after stopping; " + where(); });
      }
      if (r.coin(0.3)) std::this_thread::sleep_for(std::chrono::microseconds(300));
      for (size_t j = 0; j < m.all.size(); ++j) ctx.check(m.all[j]->runs == snap[j], "runs-when-stopped", where);
      ctx.count("stops");
    } else if (op == 8 && !running) {
      if (r.coin()) {
        pool = std::make_unique<ThreadPool>(std::move(*pool));
        log.push_back("move");
      } else {
        auto other = std::make_unique<ThreadPool>();
        std::shared_ptr<int> marker = std::make_shared<int>(1);
        if (r.coin()) {
          other->AddTask([marker] { *marker += 1; });  // replaced by the assignment, never run
          ctx.count("assigned_over_pending");
        }
        *other = std::move(*pool);
        pool = std::move(other);
        ctx.check(*marker == 1, "replaced-task-ran", where);
        log.push_back("assign");
      }
      ctx.count("moves");
    } else if (op == 9 && running) {
      wait();
    }
    state();
    once();
  }
  bool finish = r.coin(0.6);
  if (finish) {
    if (!running) {
      threads = r.integer(1, 4);
      launch_mark = m.waited;
      for (size_t j = m.waited; j < m.all.size() && m.all[j]->runs; ++j) launch_mark = j + 1;
      pool->LaunchThreads(threads);
      running = true;
      log.push_back(mon::sf("launch%d", threads));
    }
    wait();
    if (r.coin()) pool->StopThreads(), log.push_back("stop");
  } else {
    ctx.count("destroyed_with_pending");
  }
  log.push_back("destroy");
  pool.reset();
  once();
  for (auto& t : m.all) ctx.check(t->runs == t->done, "destruction-joins", where);
  ctx.check(os_threads(base) == base, "threads-left", [&] { return mon::sf("%d OS threads left; ", os_threads() - base) + where(); });
  ctx.check(m.alive.use_count() == 1, "tasks-left", [&] { return mon::sf("%ld task objects still alive; ", m.alive.use_count() - 1) + where(); });
  if (ctx.want_sample()) ctx.sample(where());
}

// k tasks that need each other to be running at the same time.
static void rendezvous(Rng& r, mon::Ctx& ctx) {
  int k = r.integer(2, 8), extra = r.integer(0, 3);
  ThreadPool p;
  std::atomic<int> here{0};
  std::atomic<int> gave_up{0};
  auto task = [&here, &gave_up, k] {
    here.fetch_add(1);
    auto end = std::chrono::steady_clock::now() + std::chrono::seconds(60);
    while (here < k) {
      if (gave_up || std::chrono::steady_clock::now() > end) {
        ++gave_up;
        return;
      }
      std::this_thread::yield();
    }
  };
  p.SetTimeoutPerTask(std::chrono::minutes(10));
  bool early = r.coin();
  if (early)
    for (int i = 0; i < k; ++i) p.AddTask(task);
  p.LaunchThreads(k + extra);
  if (!early)
    for (int i = 0; i < k; ++i) p.AddTask(task);
  p.Wait();
  ctx.check(gave_up == 0 && here == k, "parallelism", [&] { return mon::sf("only %d of %d tasks were running together on %d threads", here.load(), k, k + extra); });
  ctx.count("rendezvous");
  // a long task: still a barrier
  if (r.coin(0.05)) {
    std::atomic<int> done{0};
    ThreadPool q;
    q.LaunchThreads(1);
    q.AddTask([&done] {
      std::this_thread::sleep_for(std::chrono::milliseconds(1200));
      done = 1;
    });
    q.Wait();
    ctx.check(done == 1, "long-task", "a wait returned before a task of 1.2 s had finished");
    ctx.count("long_tasks");
  }
}
// A task that does not finish within the timeout set by the user: the wait returns, and the task is still run to its end.
static void timeouts(Rng& r, mon::Ctx& ctx) {
  std::atomic<bool> release{false};
  std::atomic<int> done{0};
  {
    ThreadPool p;
    p.SetTimeoutPerTask(std::chrono::milliseconds(r.integer(1, 5)));
    p.LaunchThreads(r.integer(1, 3));
    int n = r.integer(1, 4);
    for (int i = 0; i < n; ++i)
      p.AddTask([&] {
        while (!release) std::this_thread::yield();
        ++done;
      });
    p.Wait();
    ctx.check(done == 0, "timeout", "");
    release = true;
    while (done < n) std::this_thread::yield();
    std::atomic<int> more{0};
    p.SetTimeoutPerTask(std::chrono::minutes(10));
    p.AddTask([&] { ++more; });
    p.Wait();
    ctx.check(more == 1 && done == n, "after-timeout", "tasks after a timed-out wait were not run exactly once");
  }
  ctx.count("timeouts");
}
static void misuse(Rng& r, mon::Ctx& ctx) {
  int kind = r.integer(0, 3);
  auto c = mon::in_child([&] {
    ThreadPool p;
    p.LaunchThreads(2);
    if (kind == 0) p.LaunchThreads(2);
    if (kind == 1) ThreadPool q(std::move(p));
    if (kind == 3) {
      ThreadPool q;
      p = std::move(q);
    }
    if (kind == 2) {
      ThreadPool q;
      q = std::move(p);
    }
    return 0;
  });
  ctx.check(c.aborted && c.err.find("Assert failed") != std::string::npos, "misuse", [&] { return mon::sf("misuse %d was not rejected (signal %d)", kind, c.sig); });
  ctx.count("misuse");
}
static void run(Rng& r, mon::Ctx& ctx) {
  int k = r.integer(0, 99);
  if (k < 8) return rendezvous(r, ctx);
  if (k < 12) return timeouts(r, ctx);
  if (k < 14) return misuse(r, ctx);
  script(r, ctx);
}
MON_MAIN(run)
