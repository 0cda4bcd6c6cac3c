// C26: the profiler attributes every timed interval to the right place, and writes to the chosen output completely.
#include <dirent.h>
#include "altro/common/timer.hpp"
#include "capture.hpp"
#include "solve.hpp"
using namespace gen;
using altro::Stopwatch;
using altro::Timer;
using altro::augmented_lagrangian::AugmentedLagrangianiLQR;
using altro::ilqr::iLQR;
using Clock = std::chrono::high_resolution_clock;

static int open_fds() {
  int n = 0;
  DIR* d = opendir("/proc/self/fd");
  while (readdir(d)) ++n;
  closedir(d);
  return n;
}
static std::string slurp(const std::string& f) {
  std::string s;
  FILE* io = fopen(f.c_str(), "r");
  if (!io) return "<missing>";
  char buf[4096];
  size_t n;
  while ((n = fread(buf, 1, sizeof buf, io)) > 0) s.append(buf, n);
  fclose(io);
  return s;
}

// ---- printed summaries -------------------------------------------------------------------------
struct Row {
  int indent;
  std::string name;
  long long us, total, parent;
};
struct Summary {
  std::vector<Row> rows;
};
// False if the text is anything else than a sequence of complete summaries.
static bool parse(const std::string& text, std::vector<Summary>* out, std::string* why) {
  size_t pos = 0;
  int expect = 0;  // 1: a rule comes next
  while (pos < text.size()) {
    size_t e = text.find('\n', pos);
    if (e == std::string::npos) return *why = "the last line is incomplete: " + text.substr(pos), false;
    std::string line = text.substr(pos, e - pos);
    pos = e + 1;
    if (line.compare(0, 11, "Description") == 0) {
      if (expect) return *why = "two headers", false;
      out->emplace_back();
      expect = 1;
      continue;
    }
    if (expect) {
      if (line.empty() || line.find_first_not_of('-') != std::string::npos) return *why = "no rule after the header: " + line, false;
      expect = 0;
      continue;
    }
    if (out->empty()) return *why = "text before the header: " + line, false;
    Row r;
    char name[256];
    int used = 0;
    r.indent = line.find_first_not_of(' ');
    if (sscanf(line.c_str(), " %255s %lld %lld %lld%n", name, &r.us, &r.total, &r.parent, &used) != 4 || used != static_cast<int>(line.size()))
      return *why = "not a row: " + line, false;
    r.name = name;
    out->back().rows.push_back(r);
  }
  if (expect) return *why = "a header without a rule", false;
  return true;
}
struct Bound {
  long long lo = 0, hi = 0;  // what the recorded time of a path can be
};
using Paths = std::map<std::vector<std::string>, Bound>;
static std::string join(const std::vector<std::string>& p) {
  std::string s;
  for (auto& x : p) s += "/" + x;
  return s;
}
// One summary against the intervals that were recorded when it was printed.
static std::string judge(const Summary& s, const Paths& want) {
  if (s.rows.size() != want.size()) {
    std::string names;
    for (auto& r : s.rows) names += std::string(r.indent, ' ') + r.name + ";";
    std::string exp;
    for (auto& w : want) exp += join(w.first) + ";";
    return mon::sf("%zu entries instead of %zu: ", s.rows.size(), want.size()) + names + " instead of " + exp;
  }
  std::map<std::vector<std::string>, long long> time;
  size_t i = 0;
  for (auto& w : want) time[w.first] = s.rows[i++].us;
  auto parent = [&](std::vector<std::string> p) {
    for (p.pop_back(); !p.empty(); p.pop_back())
      if (time.count(p)) return p;
    return p;
  };
  long long total = 0;
  for (auto& t : time)
    if (parent(t.first).empty()) total += t.second;
  i = 0;
  for (auto& w : want) {
    const Row& r = s.rows[i++];
    int indent = 0;
    for (size_t k = 0; k + 1 < w.first.size(); ++k) indent += w.first[k].size();
    if (r.name != w.first.back() || r.indent != indent) return "row \"" + std::string(r.indent, ' ') + r.name + "\" instead of " + join(w.first);
    // another clock may run at a slightly different rate
    if (r.us < w.second.lo - w.second.lo / 500 - (w.second.lo > 50) || r.us > w.second.hi + w.second.hi / 500 + (w.second.hi > 50))
      return mon::sf("%s has %lld us, the intervals took between %lld and %lld", join(w.first).c_str(), r.us, w.second.lo, w.second.hi);
    auto p = parent(w.first);
    long long pt = p.empty() ? total : time[p];
    long long ptot = total == 0 ? -1 : 100 * r.us / total, ppar = pt == 0 ? -1 : 100 * r.us / pt;
    if (r.total != ptot) return mon::sf("%s: %lld%% of the total, should be %lld%%", join(w.first).c_str(), r.total, ptot);
    if (r.parent != ppar) return mon::sf("%s: %lld%% of its parent, should be %lld%%", join(w.first).c_str(), r.parent, ppar);
  }
  return "";
}

// ---- a timer by itself -------------------------------------------------------------------------
struct Sink {
  std::string file;          // empty: standard output
  FILE* user = nullptr;      // owned by the harness
  std::vector<Paths> want;
};
struct Unit {
  Rng& r;
  mon::Ctx& ctx;
  altro::TimerPtr timer = Timer::MakeShared();
  bool active = false;
  std::vector<std::string> stack;
  Paths done;
  std::vector<Sink> sinks;
  int current = 0;
  bool printed = false;
  int budget;
  std::string log;
  std::vector<Paths> snapshots;

  explicit Unit(Rng& rr, mon::Ctx& c) : r(rr), ctx(c), budget(rr.integer(3, 60)) {}
  void work() {
    int us = r.coin(0.3) ? r.integer(1, 60) : 0;
    auto t0 = Clock::now();
    while (std::chrono::duration_cast<std::chrono::microseconds>(Clock::now() - t0).count() < us) {
    }
  }
  void print() {
    timer->PrintSummary();
    sinks[current].want.push_back(done);
    printed = true;
    log += 'P';
    ctx.count("summaries");
    if (!stack.empty()) ctx.count("summaries_inside");
  }
  void output() {
    int k = r.integer(0, 5);
    if (k == 0) {
      current = 0;
      timer->SetOutput(stdout);
      log += "s";
    } else if (k <= 2) {  // a named file, maybe one used before
      int i = r.integer(1, 3);
      log += mon::sf("f%d", i);
      timer->SetOutput(sinks[i].file);
      sinks[i].want.clear();  // starts again
      if (current == i) ctx.count("same_file_again");
      current = i;
      ctx.count("files");
    } else if (k == 3) {
      int i = r.integer(4, 5);
      log += mon::sf("u%d", i);
      timer->SetOutput(sinks[i].user);
      current = i;
      ctx.count("user_files");
    } else if (k == 4) {
      bool thrown = false;
      try {
        timer->SetOutput("no/such/directory/file.out");
      } catch (const std::runtime_error&) {
        thrown = true;
      }
      ctx.check(thrown, "bad-file", "an output that cannot be opened was accepted");
      log += "x";
    }
  }
  void toggle() {
    active = r.coin(0.7);
    if (active) timer->Activate();
    else timer->Deactivate();
    ctx.check(timer->IsActive() == active, "active", "IsActive is wrong");
    log += active ? 'A' : 'D';
  }
  void scope(int depth) {
    static const char* names[] = {"a", "bb", "al", "ilqr", "cost_eval", "x1"};
    std::string name = names[r.integer(0, 5)];
    bool on = active;
    bool thrown = r.coin(0.1);
    auto before = Clock::now();
    Clock::time_point in, out;
    std::vector<std::string> path;
    log += '(';
    try {
      Stopwatch sw = timer->Start(name);
      in = Clock::now();
      if (on) stack.push_back(name), path = stack;
      body(depth + 1);
      out = Clock::now();
      if (thrown) throw 1;
    } catch (int) {
      ctx.count("exceptions");
    }
    auto after = Clock::now();
    log += ')';
    if (on) {
      auto us = [](Clock::duration d) { return std::chrono::duration_cast<std::chrono::microseconds>(d).count(); };
      Bound& b = done[path];
      b.lo += us(out - in), b.hi += us(after - before);
      stack.pop_back();
      ctx.count("intervals");
    } else {
      ctx.count("inactive_intervals");
    }
  }
  void body(int depth) {
    while (budget > 0 && (depth == 0 || r.coin(0.6))) {
      --budget;
      int k = r.integer(0, 99);
      if (k < 60 && depth < 6) scope(depth);
      else if (k < 75) work();
      else if (k < 85) output();
      else if (k < 91) toggle();
      else if (k < 95) print();
    }
  }
};
static void unit(Rng& r, mon::Ctx& ctx) {
  int fds = open_fds();
  std::string ops;
  std::vector<Sink> sinks(6);
  auto text0 = mon::capture([&] {
    auto u = std::make_unique<Unit>(r, ctx);
    u->sinks.resize(6);
    for (int i = 1; i <= 5; ++i) u->sinks[i].file = mon::sf("prof_%d_%d.txt", getpid(), i), unlink(u->sinks[i].file.c_str());
    for (int i = 4; i <= 5; ++i) u->sinks[i].user = fopen(u->sinks[i].file.c_str(), "w");
    u->active = r.coin(0.85);
    if (u->active) u->timer->Activate();
    u->body(0);
    // destroying the timer prints what has not been printed
    if (!u->printed && u->active) u->sinks[u->current].want.push_back(u->done), ctx.count("final_summaries");
    u->timer.reset();
    for (int i = 4; i <= 5; ++i) {
      ctx.check(fputs("", u->sinks[i].user) >= 0 && fclose(u->sinks[i].user) == 0, "user-file", "an output owned by the user was closed");
    }
    sinks = u->sinks;
    ops = u->log;
  });
  ctx.check(open_fds() == fds, "leak", [&] { return "files were left open or closed twice after " + ops; });
  for (int i = 0; i <= 5; ++i) {
    std::string text = i == 0 ? text0 : slurp(sinks[i].file);
    if (i && text == "<missing>") {
      ctx.check(sinks[i].want.empty(), "missing", "an output file does not exist");
      continue;
    }
    std::vector<Summary> got;
    std::string why;
    if (!ctx.check(parse(text, &got, &why), "garbled", [&] { return mon::sf("output %d after %s: ", i, ops.c_str()) + why; })) continue;
    if (!ctx.check(got.size() == sinks[i].want.size(), "summaries", [&] {
          return mon::sf("%zu summaries in output %d instead of %zu after %s", got.size(), i, sinks[i].want.size(), ops.c_str());
        })) continue;
    for (size_t k = 0; k < got.size(); ++k) {
      auto bad = judge(got[k], sinks[i].want[k]);
      ctx.check(bad.empty(), "summary", [&] { return mon::sf("summary %zu of output %d after %s: ", k, i, ops.c_str()) + bad; });
      ctx.count("entries", got[k].rows.size());
    }
    if (i) unlink(sinks[i].file.c_str());
  }
  ctx.distinct(mon::hash_bytes(ops.data(), ops.size()));
  if (ctx.want_sample()) ctx.sample(ops);
}

// ---- summaries of given times ------------------------------------------------------------------
static void given(Rng& r, mon::Ctx& ctx) {
  std::map<std::string, std::chrono::microseconds> times;
  Paths want;
  static const char* names[] = {"a", "b", "init", "cost", "forward_pass", "z"};
  int n = r.integer(0, 14);
  std::vector<std::vector<std::string>> paths;
  for (int i = 0; i < n; ++i) {
    std::vector<std::string> p;
    if (!paths.empty() && r.coin(0.6)) p = paths[r.integer(0, paths.size() - 1)];
    int more = r.coin(0.2) ? 2 : 1;  // with 2 an ancestor may be missing
    for (int k = 0; k < more; ++k) p.push_back(names[r.integer(0, 5)]);
    if (p.size() > 6) continue;
    paths.push_back(p);
  }
  int scale = r.integer(0, 13);
  for (auto& p : paths) {
    std::string full = join(p).substr(1);
    long long us = r.coin(0.2) ? 0 : static_cast<long long>(r.uni() * std::pow(10.0, scale));
    times[full] = std::chrono::microseconds(us);
    want[p].lo = want[p].hi = us;
  }
  auto t = Timer::MakeShared();
  auto copy = times;
  std::string text = mon::capture([&] { t->PrintSummary(&times); });
  ctx.check(times == copy, "given-changed", "printing changed the times");
  std::vector<Summary> got;
  std::string why;
  if (!ctx.check(parse(text, &got, &why) && got.size() == 1, "garbled", [&] { return "given times: " + why; })) return;
  auto bad = judge(got[0], want);
  ctx.check(bad.empty(), "given", [&] { return "given times: " + bad; });
  ctx.count("given_summaries");
  ctx.count("entries", n);
}

// ---- a profiled solve --------------------------------------------------------------------------
struct SlowCost : public Cost {
  using CostFunction::Gradient;
  using CostFunction::Hessian;
  using Cost::Cost;
  long long* spent = nullptr;
  long* calls = nullptr;
  long throw_at = -1;
  double Evaluate(const VectorXdRef& x, const VectorXdRef& u) override {
    auto t0 = Clock::now();
    if (calls && ++*calls == throw_at) throw std::string("user");
    double J = Cost::Evaluate(x, u);
    if (spent && *calls < 400) {
      while (Clock::now() - t0 < std::chrono::microseconds(3)) {
      }
      *spent += std::chrono::duration_cast<std::chrono::nanoseconds>(Clock::now() - t0).count();
    }
    return J;
  }
};
static void solved(Rng& r, mon::Ctx& ctx) {
  uint64_t seed = r.next();
  bool al = r.coin();
  bool twice = r.coin(), move = r.coin(0.4), copy_stats = r.coin(0.3), fails = r.coin(0.15), throws = r.coin(0.2), tofile = r.coin(0.7);
  bool print = r.coin(0.3);
  std::string file = mon::sf("solve_%d.prof", getpid());
  unlink(file.c_str());
  uint64_t hash[2];
  std::string what = mon::sf("%s%s%s%s%s%s%s", al ? "AL" : "iLQR", twice ? " twice" : "", move ? " moved" : "", copy_stats ? " copied" : "", fails ? " failing" : "",
                             throws ? " throwing" : "", tofile ? " to a file" : "");
  for (int on = 0; on < 2; ++on) {
    Rng q(seed);
    int fds = open_fds();
    long long spent = 0, outside = 0;
    long calls = 0;
    int summaries = 0;
    hash[on] = 5;
    std::string text = mon::capture([&] {
      GenOpt o;
      o.nonlin = q.coin();
      o.cost = fails ? kNonconvex : kSmooth;
      o.Nmax = 8;
      o.maxcon = al ? 2 : 0;
      Setup s = random_setup(q, o);
      long throw_at = throws ? q.integer(1, 60) : -1;
      for (auto& c : s.costs) {
        auto h = std::make_shared<SlowCost>(c->data);
        h->spent = &spent, h->calls = &calls, h->throw_at = throw_at;
        if (fails) h->data.R -= 9 * MatrixXd::Identity(s.m, s.m);
        c = h;
      }
      s.build();
      std::unique_ptr<iLQR<-1, -1>> il;
      std::unique_ptr<AugmentedLagrangianiLQR<-1, -1>> as;
      if (al) as = std::make_unique<AugmentedLagrangianiLQR<-1, -1>>(*s.prob);
      else il = std::make_unique<iLQR<-1, -1>>(*s.prob);
      auto& opt = al ? as->GetOptions() : il->GetOptions();
      if (fails) opt.bp_reg_max = 0.01, opt.bp_reg_fail_threshold = 2;
      opt.max_iterations_inner = 15;
      opt.max_iterations_outer = 6;
      opt.profiler_enable = on;
      opt.profiler_output_to_file = tofile;
      opt.log_directory = ".";
      opt.profile_filename = file;
      if (!al) il->GetStats().Reset();  // the plain solver takes the output from the options here
      auto Z = s.guess<-1, -1>();
      if (al) as->SetTrajectory(Z);
      else il->SetTrajectory(Z);
      std::unique_ptr<altro::SolverStats> kept;
      for (int k = 0; k < (twice ? 2 : 1); ++k) {
        auto t0 = Clock::now();
        try {
          if (al) as->Solve();
          else il->Solve();
        } catch (const std::string&) {
          if (on) ctx.count("thrown");
        }
        outside += std::chrono::duration_cast<std::chrono::nanoseconds>(Clock::now() - t0).count();
        if (k == 0 && print && on) {
          (al ? as->GetStats() : il->GetStats()).GetTimer()->PrintSummary();
          ++summaries;
          if (al && twice && tofile) summaries = 0;  // the file is opened again by the next solve
        }
        if (k == 0 && move) {
          if (al) as = std::make_unique<AugmentedLagrangianiLQR<-1, -1>>(std::move(*as));
          else il = std::make_unique<iLQR<-1, -1>>(std::move(*il));
        }
        if (k == 0 && copy_stats) kept = std::make_unique<altro::SolverStats>(al ? as->GetStats() : il->GetStats());
      }
      if (on && !print) ++summaries;
      for (int k = 0; k <= s.N; ++k) {
        VectorXd x = Z->State(k), u = Z->Control(k);
        hash[on] = mon::hash_bytes(x.data(), x.size() * 8, hash[on]);
        hash[on] = mon::hash_bytes(u.data(), u.size() * 8, hash[on]);
      }
      as.reset();
      il.reset();
      kept.reset();
    });
    ctx.check(open_fds() == fds, "leak", [&] { return "a profiled solve left files open or closed one twice: " + what; });
    std::string filetext = tofile ? slurp(file) : "";
    if (filetext == "<missing>") filetext = "";
    if (tofile) ctx.check(text.empty(), "stdout", [&] { return "profile printed to standard output instead of the file: " + what; });
    std::string& all = tofile ? filetext : text;
    if (!on) {
      ctx.check(all.empty(), "inactive", [&] { return "an inactive profiler printed something: " + what; });
      continue;
    }
    std::vector<Summary> got;
    std::string why;
    if (!ctx.check(parse(all, &got, &why), "garbled", [&] { return what + ": " + why; })) continue;
    if (!ctx.check(static_cast<int>(got.size()) == summaries, "summaries", [&] { return mon::sf("%zu summaries instead of %d: ", got.size(), summaries) + what; })) continue;
    for (auto& g : got) {
      // rebuild the tree from the order and the indentation of the rows
      std::vector<std::string> path;
      std::vector<int> at;
      std::map<std::vector<std::string>, long long> time;
      long long total = 0;
      int roots = 0;
      for (auto& row : g.rows) {
        while (!at.empty() && at.back() >= row.indent) at.pop_back(), path.pop_back();
        int want = 0;
        for (auto& p : path) want += p.size();
        ctx.check(row.indent == want, "indent", [&] { return mon::sf("row %s is indented by %d instead of %d: ", row.name.c_str(), row.indent, want) + what; });
        at.push_back(row.indent);
        path.push_back(row.name);
        ctx.check(!time.count(path), "duplicate", [&] { return "two rows for " + join(path) + ": " + what; });
        time[path] = row.us;
        if (path.size() == 1) total += row.us, ++roots;
      }
      ctx.check(roots == 1, "roots", [&] { return mon::sf("%d top-level entries for calls of Solve only: ", roots) + what; });
      std::map<std::vector<std::string>, long long> children;
      for (auto& t : time) {
        auto p = t.first;
        p.pop_back();
        if (!p.empty()) children[p] += t.second;
      }
      size_t i = 0;
      for (auto& t : time) {
        ctx.check(children[t.first] <= t.second, "children", [&] { return mon::sf("%s took %lld us, its parts %lld: ", join(t.first).c_str(), t.second, children[t.first]) + what; });
        const Row& row = g.rows[i++];
        auto p = t.first;
        p.pop_back();
        long long pt = p.empty() ? total : time[p];
        ctx.check(row.total == (total ? 100 * t.second / total : -1) && row.parent == (pt ? 100 * t.second / pt : -1), "percentages", [&] {
          return mon::sf("%s: %lld us, %lld%% of the total, %lld%% of the parent: ", join(t.first).c_str(), t.second, row.total, row.parent) + what;
        });
      }
      ctx.check(total * 998 <= outside, "too-long", [&] { return mon::sf("%lld us recorded, all solves took %lld us: ", total, outside / 1000) + what; });
      if (!print) ctx.check(total * 1002 + 3000 >= spent, "too-short", [&] { return mon::sf("%lld us recorded, the user's functions alone took %lld us: ", total, spent / 1000) + what; });
      ctx.count("entries", g.rows.size());
      ctx.count("solve_summaries");
    }
    ctx.count("profiled_solves");
  }
  unlink(file.c_str());
  ctx.check(hash[0] == hash[1], "profiling-matters", [&] { return "the result depends on the profiler: " + what; });
}
static void run(Rng& r, mon::Ctx& ctx) {
  for (int i = 0; i < 6; ++i) unit(r, ctx);
  for (int i = 0; i < 6; ++i) given(r, ctx);
  for (int i = 0; i < 2; ++i) solved(r, ctx);
}
MON_MAIN(run)
