// C17: recorded histories of the concurrent queue are linearizable to a sequential FIFO queue.
#include <deque>
#include <thread>
#include "altro/common/threadsafe_queue.hpp"
#include "mon.hpp"
using altro::ThreadSafeQueue;
using mon::Rng;

inline std::atomic<long>& live() {
  static std::atomic<long> n{0};
  return n;
}
static std::atomic<uint64_t> g_delay{0};
static void delay() {
  uint64_t d = g_delay.load(std::memory_order_relaxed);
  if (!d) return;
  static thread_local uint64_t c = 0;
  uint64_t h = mon::mix(d + ++c + std::hash<std::thread::id>()(std::this_thread::get_id()));
  if (h % 13 == 0) std::this_thread::yield();
  if (h % 101 == 0) std::this_thread::sleep_for(std::chrono::microseconds(h % 30));
}
// A movable element that knows whether it is whole; its moves take time, also inside the queue's critical sections.
struct Elem {
  long id = -1;
  std::unique_ptr<long> body;
  Elem() { ++live(); }
  explicit Elem(long i) : id(i), body(std::make_unique<long>(i)) { ++live(); }
  Elem(Elem&& o) noexcept : id(o.id), body(std::move(o.body)) {
    o.id = -2;
    delay();
    ++live();
  }
  Elem& operator=(Elem&& o) noexcept {
    delay();
    id = o.id;
    body = std::move(o.body);
    o.id = -2;
    return *this;
  }
  ~Elem() { --live(); }
  bool whole() const { return body && *body == id; }
};
enum Kind { kPush, kPop, kEmpty, kSize, kClear };
struct Op {
  Kind kind;
  long value = 0;    // pushed / popped element, or size
  bool ok = false;   // pop succeeded / queue was empty
  uint64_t begin = 0, end = 0;
  int thread = 0;
};
static std::string show(const std::vector<Op>& h) {
  std::string s;
  for (auto& o : h) {
    const char* n[] = {"push", "pop", "empty", "size", "clear"};
    s += mon::sf("T%d:%s", o.thread, n[o.kind]);
    if (o.kind == kPush) s += mon::sf("(%ld)", o.value);
    if (o.kind == kPop) s += o.ok ? mon::sf("->%ld", o.value) : "->none";
    if (o.kind == kEmpty) s += o.ok ? "->yes" : "->no";
    if (o.kind == kSize) s += mon::sf("->%ld", o.value);
    s += mon::sf("[%llu,%llu] ", (unsigned long long)o.begin, (unsigned long long)o.end);
  }
  return s.size() > 2500 ? s.substr(0, 2500) : s;
}

// Wing & Gong search for one equivalent sequential history; 1 yes, 0 no, -1 gave up.
struct Search {
  const std::vector<Op>& h;
  std::set<std::pair<uint64_t, std::vector<long>>> seen;
  long budget = 200000;
  explicit Search(const std::vector<Op>& hist) : h(hist) {}
  int go(uint64_t done, std::vector<long>& q) {
    if (done == (1ull << h.size()) - 1) return 1;
    if (--budget < 0) return -1;
    if (!seen.insert({done, q}).second) return 0;
    uint64_t first_end = ~0ull;
    for (size_t i = 0; i < h.size(); ++i)
      if (!(done >> i & 1)) first_end = std::min(first_end, h[i].end);
    for (size_t i = 0; i < h.size(); ++i) {
      if ((done >> i & 1) || h[i].begin > first_end) continue;
      const Op& o = h[i];
      std::vector<long> next = q;
      if (o.kind == kPush) next.push_back(o.value);
      if (o.kind == kPop) {
        if (o.ok != !q.empty()) continue;
        if (o.ok) {
          if (q.front() != o.value) continue;
          next.erase(next.begin());
        }
      }
      if (o.kind == kEmpty && o.ok != q.empty()) continue;
      if (o.kind == kSize && o.value != static_cast<long>(q.size())) continue;
      if (o.kind == kClear) next.clear();
      int v = go(done | 1ull << i, next);
      if (v != 0) return v;
    }
    return 0;
  }
};

// Necessary conditions for histories of any length (all values distinct).
static std::string patterns(const std::vector<Op>& h, bool drained) {
  std::map<long, const Op*> push, pop;
  for (auto& o : h) {
    if (o.kind == kPush) push[o.value] = &o;
    if (o.kind == kPop && o.ok)
      if (!pop.emplace(o.value, &o).second) return mon::sf("element %ld was popped twice", o.value);
  }
  for (auto& p : pop) {
    auto it = push.find(p.first);
    if (it == push.end()) return mon::sf("element %ld was popped but never pushed", p.first);
    if (p.second->end < it->second->begin) return mon::sf("element %ld was popped before it was pushed", p.first);
  }
  if (drained && pop.size() != push.size()) return mon::sf("%zu elements pushed, %zu popped", push.size(), pop.size());
  // order: push(a) before push(b) in time, and pop(b) before pop(a) in time. Sweep over pops by the time b's pop ends.
  std::vector<std::pair<const Op*, const Op*>> el;  // push, pop (or null)
  for (auto& p : push) el.emplace_back(p.second, pop.count(p.first) ? pop[p.first] : nullptr);
  std::sort(el.begin(), el.end(), [](const std::pair<const Op*, const Op*>& a, const std::pair<const Op*, const Op*>& b) { return a.first->end < b.first->end; });
  // among elements whose push ended before b's push began, the latest pop begin must not be after b's pop end
  std::vector<std::pair<uint64_t, long>> best;  // prefix maximum of pop begin
  for (auto& e : el) {
    uint64_t pb = e.second ? e.second->begin : ~0ull;
    if (!best.empty() && best.back().first >= pb) best.push_back(best.back());
    else best.emplace_back(pb, e.first->value);
  }
  for (auto& b : el) {
    if (!b.second) continue;
    auto it = std::lower_bound(el.begin(), el.end(), b.first->begin, [](const std::pair<const Op*, const Op*>& a, uint64_t t) { return a.first->end < t; });
    size_t k = it - el.begin();
    if (k > 0 && best[k - 1].first > b.second->end) return mon::sf("element %ld was pushed before %ld but popped after it (or never)", best[k - 1].second, b.first->value);
  }
  // failed pops and emptiness need a moment at which the queue may have been empty
  std::vector<std::pair<uint64_t, uint64_t>> in;  // surely inside
  for (auto& e : el) {
    uint64_t out = e.second ? e.second->begin : ~0ull;
    if (e.first->end < out) in.emplace_back(e.first->end, out);
  }
  std::sort(in.begin(), in.end());
  std::vector<std::pair<uint64_t, uint64_t>> cover;
  for (auto& i : in) {
    if (!cover.empty() && i.first <= cover.back().second) cover.back().second = std::max(cover.back().second, i.second);
    else cover.push_back(i);
  }
  std::vector<uint64_t> pb, pe, qb, qe;
  for (auto& e : el) {
    pb.push_back(e.first->begin), pe.push_back(e.first->end);
    if (e.second) qb.push_back(e.second->begin), qe.push_back(e.second->end);
  }
  for (auto* v : {&pb, &pe, &qb, &qe}) std::sort(v->begin(), v->end());
  auto before = [](const std::vector<uint64_t>& v, uint64_t t) { return static_cast<long>(std::lower_bound(v.begin(), v.end(), t) - v.begin()); };
  for (auto& o : h) {
    bool says_empty = (o.kind == kPop && !o.ok) || (o.kind == kEmpty && o.ok);
    if (says_empty) {
      auto it = std::upper_bound(cover.begin(), cover.end(), std::pair<uint64_t, uint64_t>(o.begin, ~0ull));
      if (it != cover.begin() && (--it)->first <= o.begin && it->second >= o.end) return mon::sf("T%d was told the queue is empty during [%llu,%llu], while it never was", o.thread, (unsigned long long)o.begin, (unsigned long long)o.end);
    }
    long most = before(pb, o.end) - before(qe, o.begin), least = before(pe, o.begin) - before(qb, o.end);
    if (o.kind == kEmpty && !o.ok && most <= 0) return mon::sf("T%d was told the queue is not empty during [%llu,%llu], while it was", o.thread, (unsigned long long)o.begin, (unsigned long long)o.end);
    if (o.kind == kSize && (o.value > most || o.value < least)) return mon::sf("T%d got size %ld, possible are %ld to %ld", o.thread, o.value, least, most);
  }
  return "";
}

struct Recorder {
  ThreadSafeQueue<Elem>& q;
  std::atomic<uint64_t>& clock;
  int thread;
  std::vector<Op> ops;
  bool broken = false;
  void run(Kind k, long value) {
    Op o;
    o.kind = k;
    o.thread = thread;
    o.value = value;
    Elem e;
    if (k == kPush) e = Elem(value);
    o.begin = clock.fetch_add(1);
    switch (k) {
      case kPush: q.Push(std::move(e)); break;
      case kPop:
        o.ok = q.TryPop(e);
        o.value = e.id;
        break;
      case kEmpty: o.ok = q.IsEmpty(); break;
      case kSize: o.value = static_cast<long>(q.Size()); break;
      case kClear: q.Clear(); break;
    }
    o.end = clock.fetch_add(1);
    if (k == kPop && o.ok && !e.whole()) broken = true;
    if (k == kPop && !o.ok && e.id != -1) broken = true;  // a failed pop leaves the argument alone
    ops.push_back(o);
  }
};
static void concurrent(Rng& r, mon::Ctx& ctx, bool small) {
  int T = r.integer(2, small ? 4 : 6);
  int rounds = small ? r.integer(10, 40) : 1;
  long before = live();
  g_delay = r.coin(0.7) ? r.next() | 1 : 0;
  // one set of threads runs all rounds
  std::vector<std::unique_ptr<ThreadSafeQueue<Elem>>> qs(rounds);
  std::vector<std::vector<std::vector<Op>>> hist(rounds, std::vector<std::vector<Op>>(T));
  std::vector<std::vector<std::vector<Kind>>> plan(rounds, std::vector<std::vector<Kind>>(T));
  std::vector<int> prefill(rounds);
  std::vector<char> with_clear(rounds);
  std::atomic<uint64_t> clock{1};
  std::atomic<int> arrived{0}, broken{0};
  for (int j = 0; j < rounds; ++j) {
    qs[j] = std::make_unique<ThreadSafeQueue<Elem>>();
    prefill[j] = r.pick({0, 0, 1, 2});
    with_clear[j] = small && r.coin(0.2);
    int style = r.integer(0, 2);
    for (int t = 0; t < T; ++t) {
      int n = small ? r.integer(1, 5) : r.pick({50, 400, 1500});
      for (int i = 0; i < n; ++i) {
        int k = r.integer(0, 99);
        int pushes = style == 0 ? 40 : style == 1 ? (t % 2 ? 80 : 10) : 50;
        Kind kind = k < pushes ? kPush : k < 90 ? kPop : k < 95 ? kEmpty : kSize;
        if (with_clear[j] && k >= 92) kind = kClear;
        plan[j][t].push_back(kind);
      }
    }
  }
  std::vector<std::thread> ts;
  for (int t = 0; t < T; ++t)
    ts.emplace_back([&, t] {
      for (int j = 0; j < rounds; ++j) {
        Recorder rec{*qs[j], clock, t, {}};
        if (t == 0)
          for (int i = 0; i < prefill[j]; ++i) rec.run(kPush, 1000000 + i);
        arrived.fetch_add(1);
        while (arrived < T * (j + 1)) std::this_thread::yield();
        long next = t * 10000;
        for (Kind k : plan[j][t]) rec.run(k, k == kPush ? next++ : 0);
        hist[j][t] = std::move(rec.ops);
        if (rec.broken) ++broken;
      }
    });
  for (auto& t : ts) t.join();
  g_delay = 0;
  for (int j = 0; j < rounds; ++j) {
    std::vector<Op> h;
    for (auto& v : hist[j]) h.insert(h.end(), v.begin(), v.end());
    size_t counted = h.size();
    // drain
    Recorder rec{*qs[j], clock, T, {}};
    rec.run(kSize, 0);
    rec.run(kEmpty, 0);
    long size = rec.ops[0].value, drained = 0;
    while (true) {
      rec.run(kPop, 0);
      if (!rec.ops.back().ok) break;
      ++drained;
    }
    rec.run(kSize, 0);
    if (rec.broken) ++broken;
    h.insert(h.end(), rec.ops.begin(), rec.ops.end());
    std::sort(h.begin(), h.end(), [](const Op& a, const Op& b) { return a.begin < b.begin; });
    ctx.check(size == drained && rec.ops.back().value == 0, "quiescent-size", [&] { return mon::sf("size %ld, but %ld elements; ", size, drained) + show(h); });
    long overlapping = 0;
    for (size_t i = 1; i < h.size(); ++i) overlapping += h[i].begin < h[i - 1].end;
    ctx.count("operations", counted);
    ctx.count("overlapping_operations", overlapping);
    uint64_t sig = T;
    for (auto& o : h) sig = mon::mix(sig ^ (o.kind * 31 + o.thread * 7 + o.value * 1009 + o.ok));
    if (overlapping) ctx.distinct(sig);
    if (!with_clear[j]) {
      std::string p = patterns(h, true);
      ctx.check(p.empty(), "fifo", [&] { return p + "; " + show(h); });
      ctx.count("histories_by_pattern");
    }
    if (small && h.size() <= 40) {
      std::vector<Op> hh = h;
      if (with_clear[j]) hh.erase(std::remove_if(hh.begin(), hh.end(), [](const Op& o) { return o.kind == kSize; }), hh.end());  // clearing is not atomic for the size
      Search s(hh);
      std::vector<long> q;
      int v = s.go(0, q);
      ctx.check(v != 0, "not-linearizable", [&] { return "no sequential order explains " + show(hh); });
      ctx.count(v < 0 ? "histories_undecided" : "histories_linearized");
      if (with_clear[j]) ctx.count("histories_with_clear");
    }
  }
  ctx.check(broken == 0, "torn", "a popped element was not whole, or a failed pop touched its argument");
  qs.clear();
  ctx.check(live() == before, "elements-left", [&] { return mon::sf("%ld elements were never destroyed (or destroyed twice)", live() - before); });
}
static void sequential(Rng& r, mon::Ctx& ctx) {
  long before = live();
  {
    auto q = std::make_unique<ThreadSafeQueue<Elem>>();
    std::deque<long> model;
    long next = 0;
    std::string log;
    int n = r.pick({5, 30, 200});
    for (int i = 0; i < n; ++i) {
      int op = r.integer(0, 99);
      if (op < 45) {
        q->Push(Elem(next));
        model.push_back(next++);
        log += "push ";
      } else if (op < 80) {
        Elem e;
        bool ok = q->TryPop(e);
        ctx.check(ok == !model.empty() && (!ok || (e.id == model.front() && e.whole())), "pop", [&] { return mon::sf("popped %ld; ", e.id) + log; });
        if (!model.empty()) model.pop_front();
        log += "pop ";
      } else if (op < 84) {
        q->Clear();
        model.clear();
        log += "clear ";
        ctx.count("clears");
      } else if (op < 88) {
        q = std::make_unique<ThreadSafeQueue<Elem>>(std::move(*q));
        log += "move ";
        ctx.count("moves");
      } else if (op < 92) {
        auto o = std::make_unique<ThreadSafeQueue<Elem>>();
        int extra = r.integer(0, 3);
        for (int j = 0; j < extra; ++j) o->Push(Elem(-50 - j));
        *o = std::move(*q);
        q = std::move(o);
        log += "assign ";
        ctx.count("moves");
      }
      ctx.check(q->Size() == model.size() && q->IsEmpty() == model.empty(), "size", [&] { return mon::sf("size %zu of %zu, empty %d; ", q->Size(), model.size(), q->IsEmpty()) + log; });
      ctx.check(live() - before == static_cast<long>(model.size()), "alive", [&] { return mon::sf("%ld elements alive, %zu in the queue; ", live() - before, model.size()) + log; });
    }
    if (r.coin())
      while (!model.empty()) {
        Elem e;
        q->TryPop(e);
        ctx.check(e.id == model.front(), "drain", log);
        model.pop_front();
      }
    ctx.count("sequential_operations", n);
  }
  ctx.check(live() == before, "elements-left-seq", "");
}
static void longq(Rng& r, mon::Ctx& ctx) {
  long n = r.pick({20000, 100000, 300000});
  auto q = std::make_unique<ThreadSafeQueue<int>>();
  for (long i = 0; i < n; ++i) q->Push(static_cast<int>(i));
  int kind = r.integer(0, 3);
  if (kind == 1) q->Clear();
  if (kind == 2) q = std::make_unique<ThreadSafeQueue<int>>(std::move(*q));
  if (kind == 3) {
    ThreadSafeQueue<int> o;
    o.Push(1);
    o = std::move(*q);
  }
  ctx.check(kind == 3 || q->Size() == (kind == 1 ? 0u : static_cast<size_t>(n)), "long", "");
  q.reset();
  ctx.count("long_queues");
}
static void run(Rng& r, mon::Ctx& ctx) {
  int k = r.integer(0, 99);
  if (k < 20) return sequential(r, ctx);
  if (k < 22) return longq(r, ctx);
  concurrent(r, ctx, k < 80);
}
MON_MAIN(run)
