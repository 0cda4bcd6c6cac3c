// Monitor runtime shared by all harnesses: PRNG, violation reporter, coverage counters, driver.
#pragma once
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <csignal>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace mon {

inline uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
  uint64_t next() { return mix(s += 0x632be59bd9b4e019ULL); }
  double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * uni(); }
  int integer(int a, int b) { return a + static_cast<int>(next() % static_cast<uint64_t>(b - a + 1)); }
  bool coin(double p = 0.5) { return uni() < p; }
  double gauss() {
    double u = uni(), v = uni();
    return std::sqrt(-2 * std::log(u + 1e-300)) * std::cos(6.283185307179586 * v);
  }
  template <class T>
  T pick(std::initializer_list<T> l) {
    return *(l.begin() + next() % l.size());
  }
};

inline std::string sf(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string sf(const char* f, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ULL;
  return h;
}

// Collects what a shard observed. Thread-safe.
class Ctx {
 public:
  uint64_t case_id = 0;
  bool thorough = false;
  int workload = 0;  // optional selector

  void fail(const std::string& key, const std::string& msg) {
    std::lock_guard<std::mutex> g(m_);
    ++nviol_;
    if (per_key_[key]++ < 3) {
      std::string one = msg;
      for (char& c : one)
        if (c == '\n' || c == '\t') c = ' ';
      fprintf(out_, "V\t%s\t%llu\t%s\n", key.c_str(), static_cast<unsigned long long>(case_id), one.c_str());
      fflush(out_);
    }
  }
  // The fundamental monitor call: one evaluated check.
  bool check(bool ok, const char* key, const std::string& msg) {
    checks_.fetch_add(1);
    if (!ok) fail(key, msg);
    return ok;
  }
  template <class F>
  bool check(bool ok, const char* key, F&& msg, decltype(std::declval<F>()()) * = nullptr) {
    checks_.fetch_add(1);
    if (!ok) fail(key, msg());
    return ok;
  }
  void count(const std::string& name, long n = 1) {
    std::lock_guard<std::mutex> g(m_);
    counters_[name] += n;
  }
  void maximum(const std::string& name, long v) {  // name starts with "max_"
    std::lock_guard<std::mutex> g(m_);
    long& c = counters_[name];
    c = std::max(c, v);
  }
  void distinct(uint64_t h) {
    std::lock_guard<std::mutex> g(m_);
    if (distinct_.size() < 2000000) distinct_.insert(h);
  }
  void evaluation(long n = 1) { evals_ += n; }
  void sample(const std::string& s) {
    std::lock_guard<std::mutex> g(m_);
    if (samples_.size() < 3) samples_.push_back(s);
  }
  bool want_sample() { return samples_.size() < 3; }
  void begin_case(uint64_t id, long index, int fd) {
    case_id = id;
    char buf[64];
    int n = snprintf(buf, sizeof buf, "%020llu %012ld\n", static_cast<unsigned long long>(id), index);
    if (fd >= 0 && pwrite(fd, buf, n, 0) < 0) abort();
  }
  void finish() {
    for (auto& kv : counters_) fprintf(out_, "C\t%s\t%ld\n", kv.first.c_str(), kv.second);
    for (auto& s : samples_) {
      std::string one = s;
      for (char& c : one)
        if (c == '\n' || c == '\t') c = ' ';
      fprintf(out_, "S\t%s\n", one.c_str());
    }
    for (uint64_t h : distinct_) fprintf(out_, "H\t%016llx\n", static_cast<unsigned long long>(h));
    fprintf(out_, "E\t%ld\t%ld\t%ld\n", evals_.load(), checks_.load(), nviol_);
    fprintf(out_, "DONE\n");
    fflush(out_);
  }
  void set_out(FILE* f) { out_ = f; }
  long violations() const { return nviol_; }

 private:
  FILE* out_ = stdout;
  std::mutex m_;
  std::map<std::string, long> per_key_, counters_;
  std::unordered_set<uint64_t> distinct_;
  std::vector<std::string> samples_;
  std::atomic<long> evals_{0}, checks_{0};
  long nviol_ = 0;
};

// Runs f in a child process and classifies how it ended. Used where an abort is an expected outcome.
struct ChildResult {
  bool aborted = false;   // SIGABRT
  bool exited = false;    // normal exit
  int code = 0;           // exit code
  int sig = 0;            // terminating signal
  std::string err;        // stderr text
};
inline ChildResult in_child(const std::function<int()>& f) {
  int p[2];
  if (pipe(p) != 0) abort();
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    dup2(p[1], 2);
    int devnull = open("/dev/null", O_WRONLY);
    dup2(devnull, 1);
    signal(SIGABRT, SIG_DFL);
    _exit(f());
  }
  close(p[1]);
  ChildResult r;
  char buf[4096];
  ssize_t n;
  while ((n = read(p[0], buf, sizeof buf)) > 0)
    if (r.err.size() < 100000) r.err.append(buf, n);
  close(p[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFEXITED(st)) {
    r.exited = true;
    r.code = WEXITSTATUS(st);
  } else if (WIFSIGNALED(st)) {
    r.sig = WTERMSIG(st);
    r.aborted = r.sig == SIGABRT;
  }
  return r;
}

using CaseFn = void (*)(Rng&, Ctx&);

// argv: --seed S --shard I --cases N [--start K] [--case ID] [--out FILE] [--cur FILE] [--thorough]
inline int drive(int argc, char** argv, CaseFn fn) {
  uint64_t seed = 1, one = 0;
  bool single = false;
  int shard = 0;
  long cases = 10, start = 0;
  static Ctx ctx;
  int fd = -1;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--shard") shard = atoi(val().c_str());
    else if (a == "--cases") cases = atol(val().c_str());
    else if (a == "--start") start = atol(val().c_str());
    else if (a == "--workload") ctx.workload = atoi(val().c_str());
    else if (a == "--case") { single = true; one = strtoull(val().c_str(), nullptr, 10); }
    else if (a == "--thorough") ctx.thorough = true;
    else if (a == "--out") ctx.set_out(fopen(val().c_str(), "w"));
    else if (a == "--cur") fd = open(val().c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 3; }
  }
  if (single) {
    ctx.begin_case(one, 0, fd);
    Rng r(one);
    fn(r, ctx);
    ctx.evaluation();
  } else {
    for (long i = start; i < cases; ++i) {
      uint64_t id = mix(mix(seed * 1000003ULL + shard) + static_cast<uint64_t>(i)) >> 1;
      ctx.begin_case(id, i, fd);
      Rng r(id);
      fn(r, ctx);
      ctx.evaluation();
    }
  }
  ctx.finish();
  fflush(nullptr);
  return ctx.violations() ? 1 : 0;
}

}  // namespace mon

#define MON_MAIN(fn) \
  int main(int argc, char** argv) { return mon::drive(argc, argv, fn); }
