// C29: benchmark helpers call the function the promised number of times and summarise exactly what was recorded.
#include "altro/utils/benchmarking.hpp"

#include <thread>

#include "capture.hpp"
#include "gen.hpp"
using namespace gen;
using altro::utils::Benchmark;
using altro::utils::BenchmarkResults;

template <class D>
static std::string unit();
template <> std::string unit<std::chrono::nanoseconds>() { return "ns"; }
template <> std::string unit<std::chrono::microseconds>() { return "\xc2\xb5s"; }
template <> std::string unit<std::chrono::milliseconds>() { return "ms"; }
template <> std::string unit<std::chrono::seconds>() { return "s"; }

struct Own {
  double mean, median, std, max, min;
};
static Own own(std::vector<double> v) {
  // the k-th smallest by counting, long double sums in index order
  size_t n = v.size();
  Own o;
  auto kth = [&](size_t k) {
    for (double x : v) {
      size_t less = 0, equal = 0;
      for (double y : v) less += y < x, equal += y == x;
      if (less <= k && k < less + equal) return x;
    }
    return static_cast<double>(NAN);
  };
  long double s = 0, q = 0;
  for (double x : v) s += x;
  long double mean = s / n;
  for (double x : v) q += (x - mean) * (x - mean);
  o.mean = static_cast<double>(mean);
  o.std = static_cast<double>(std::sqrt(q / n));
  o.min = kth(0);
  o.max = kth(n - 1);
  o.median = n % 2 ? kth(n / 2) : 0.5 * (kth(n / 2 - 1) + kth(n / 2));
  return o;
}

template <class D>
static void calculated(Rng& r, mon::Ctx& ctx) {
  using R = BenchmarkResults<D>;
  using time_t = typename R::time_t;
  int n = r.coin(0.3) ? r.integer(1, 4) : r.integer(1, 120);
  int shape = r.integer(0, 6);
  std::vector<double> v;
  double scale = std::pow(10.0, r.uni(-3, 6));
  for (int i = 0; i < n; ++i) {
    double x;
    switch (shape) {
      case 0: x = scale * r.uni(); break;                              // random order
      case 1: x = scale * (i + 1); break;                              // increasing
      case 2: x = scale * (n - i); break;                              // decreasing
      case 3: x = r.integer(0, 3); break;                              // many equal
      case 4: x = scale; break;                                        // all equal
      case 5: x = r.coin(0.1) ? 1000 * scale : scale * (1 + 0.01 * r.uni()); break;  // outliers
      default: x = r.coin(0.2) ? 0.0 : scale * r.uni(); break;         // zeros
    }
    v.push_back(x);
  }
  std::vector<time_t> t;
  for (double x : v) t.emplace_back(x);
  std::vector<time_t> given = t;
  R res = R::Calculate(t);
  Own o = own(v);
  double tol = 1e-12 * (std::abs(o.max) + 1e-300) * n;
  auto where = [&] { return mon::sf("n=%d shape=%d unit=%s first=%.9g: got mean %.17g median %.17g std %.17g max %.17g min %.17g, samples give %.17g %.17g %.17g %.17g %.17g", n, shape, unit<D>().c_str(), v[0],
                                    res.mean.count(), res.median.count(), res.std.count(), res.max.count(), res.min.count(), o.mean, o.median, o.std, o.max, o.min); };
  ctx.check(std::abs(res.mean.count() - o.mean) <= tol, "mean", where);
  ctx.check(std::abs(res.median.count() - o.median) <= 1e-15 * std::abs(o.median), "median", where);
  ctx.check(std::abs(res.std.count() - o.std) <= 1e-7 * o.max / std::max(1, n) + tol && (o.std <= 1e-6 * o.max || std::abs(res.std.count() - o.std) <= 1e-8 * o.std), "std", where);
  ctx.check(res.max.count() == o.max, "max", where);
  ctx.check(res.min.count() == o.min, "min", where);
  ctx.check(res.samples == n, "samples", where);
  // the samples themselves are still there (possibly in another order)
  auto sorted = [](std::vector<time_t> x) { std::sort(x.begin(), x.end()); return x; };
  ctx.check(sorted(t) == sorted(given), "samples-kept", [&] { return "the recorded samples were changed: " + where(); });
  // the printed summary
  std::string out = mon::capture([&] { res.Print(); });
  std::map<std::string, double> shown;
  size_t pos = 0;
  int lines = 0;
  while (pos < out.size()) {
    size_t end = out.find('\n', pos);
    if (end == std::string::npos) break;
    std::string line = out.substr(pos, end - pos);
    pos = end + 1;
    ++lines;
    size_t colon = line.find(':');
    if (colon == std::string::npos) continue;
    std::string name = line.substr(0, colon);
    char* rest = nullptr;
    shown[name] = strtod(line.c_str() + colon + 1, &rest);
    if (name != "Samples") ctx.check(std::string(rest) == unit<D>(), "print-unit", [&] { return "printed '" + line + "'"; });
  }
  auto shows = [&](const char* name, double x) {
    ctx.check(shown.count(name) == 1 && std::abs(shown[name] - x) <= 1e-5 * std::abs(x), "print", [&] { return mon::sf("%s is %.9g but the summary says: ", name, x) + out; });
  };
  shows("Mean", res.mean.count()), shows("Median", res.median.count()), shows("Std", res.std.count()), shows("Max", res.max.count()), shows("Min", res.min.count()), shows("Samples", n);
  ctx.check(lines == 6, "print-lines", [&] { return "unexpected lines: " + out; });
  ctx.count("calculated");
  ctx.count(n % 2 ? "odd" : "even");
  if (n == 1) ctx.count("single");
  ctx.distinct(mon::hash_bytes(v.data(), v.size() * sizeof(double)));
  if (ctx.want_sample()) ctx.sample(where());
}

template <class D>
static void measured(Rng& r, mon::Ctx& ctx) {
  using Clock = std::chrono::high_resolution_clock;
  using time_t = typename BenchmarkResults<D>::time_t;
  bool def = r.coin(0.15);
  int n = r.coin(0.2) ? 1 : r.integer(1, 40);
  long calls = 0;
  // inner[i]: time spent inside call i, which a recorded sample can't be shorter than;
  // outer[i]: time between the ends of the neighbouring calls, which it can't exceed
  std::vector<double> inner;
  std::vector<Clock::time_point> starts, stops;
  auto slow = [&] {
    starts.push_back(Clock::now());
    volatile double x = 1;
    for (int i = 0, k = r.integer(0, 20000); i < k; ++i) x = x * 1.0000001;
    ++calls;
    stops.push_back(Clock::now());
  };
  Clock::time_point before = Clock::now();
  BenchmarkResults<D> res = def ? Benchmark<D>(slow) : Benchmark<D>(slow, n);
  Clock::time_point after = Clock::now();
  if (def) n = altro::utils::kDefaultSamples;
  ctx.check(calls == n, "calls", [&] { return mon::sf("the function was called %ld times instead of %d", calls, n); });
  ctx.check(res.samples == n, "calls-samples", [&] { return mon::sf("%d samples of %d calls", res.samples, n); });
  if (calls != n) return;
  auto in_unit = [](Clock::duration d) { return std::chrono::duration_cast<time_t>(d).count(); };
  std::vector<double> lo, hi;
  for (int i = 0; i < n; ++i) {
    lo.push_back(in_unit(stops[i] - starts[i]));
    hi.push_back(in_unit((i + 1 < n ? starts[i + 1] : after) - (i ? stops[i - 1] : before)));
  }
  // mean, median, minimum and maximum are monotone in every sample
  Own l = own(lo), h = own(hi);
  auto where = [&] { return mon::sf("n=%d unit=%s: reported mean %.9g median %.9g max %.9g min %.9g std %.9g outside of what the calls took [%.9g %.9g %.9g %.9g] .. [%.9g %.9g %.9g %.9g]", n, unit<D>().c_str(), res.mean.count(),
                                    res.median.count(), res.max.count(), res.min.count(), res.std.count(), l.mean, l.median, l.max, l.min, h.mean, h.median, h.max, h.min); };
  // some slack, in case the helper reads another clock than this monitor
  double us = time_t(std::chrono::duration_cast<time_t>(std::chrono::microseconds(2))).count();
  auto within = [&](double v, double a, double b) { return v >= a * 0.99 - us && v <= b * 1.01 + us; };
  ctx.check(within(res.mean.count(), l.mean, h.mean), "measured-mean", where);
  ctx.check(within(res.median.count(), l.median, h.median), "measured-median", where);
  ctx.check(within(res.max.count(), l.max, h.max), "measured-max", where);
  ctx.check(within(res.min.count(), l.min, h.min), "measured-min", where);
  double range = res.max.count() - res.min.count();
  ctx.check(res.std.count() >= 0 && res.std.count() <= range / 2 * (1 + 1e-9) + 1e-12, "measured-std", where);
  ctx.check(res.min <= res.median && res.median <= res.max && res.min.count() <= res.mean.count() * (1 + 1e-9) && res.mean.count() <= res.max.count() * (1 + 1e-9), "measured-order", where);
  ctx.count("measured");
  if (def) ctx.count("default_samples");
}

static void exceptions(Rng& r, mon::Ctx& ctx) {
  int at = r.integer(1, 10), calls = 0;
  bool thrown = false;
  try {
    Benchmark<std::chrono::microseconds>([&] { if (++calls == at) throw std::runtime_error("x"); }, 10);
  } catch (const std::runtime_error&) {
    thrown = true;
  }
  ctx.check(thrown && calls == at, "exception", [&] { return mon::sf("an exception of call %d did not end the benchmark (%d calls)", at, calls); });
  ctx.count("exceptions");
}

template <class D>
static void with(Rng& r, mon::Ctx& ctx) {
  for (int i = 0; i < 20; ++i) calculated<D>(r, ctx);
  measured<D>(r, ctx);
}
static void one_case(Rng& r, mon::Ctx& ctx) {
  switch (r.integer(0, 3)) {
    case 0: with<std::chrono::nanoseconds>(r, ctx); break;
    case 1: with<std::chrono::microseconds>(r, ctx); break;
    case 2: with<std::chrono::milliseconds>(r, ctx); break;
    case 3: with<std::chrono::seconds>(r, ctx); break;
  }
  exceptions(r, ctx);
}
MON_MAIN(one_case)
