// C27: trajectories store what is set and keep consistent times.
#include "altro/common/trajectory.hpp"
#include "capture.hpp"
#include "gen.hpp"
using namespace gen;
using altro::KnotPoint;
using altro::Trajectory;

struct Knot {
  VectorXd x, u;
  float t = 0, h = 0;
};
static bool same(double a, double b) { return memcmp(&a, &b, 8) == 0 || (std::isnan(a) && std::isnan(b)); }
static bool same(const VectorXd& a, const VectorXd& b) {
  if (a.size() != b.size()) return false;
  for (int i = 0; i < a.size(); ++i)
    if (!same(a(i), b(i))) return false;
  return true;
}
static bool samef(float a, float b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static VectorXd vec(Rng& r, int n) {
  VectorXd v(n);
  int style = r.integer(0, 9);
  for (int i = 0; i < n; ++i) v(i) = style == 0 ? r.pick({double(NAN), double(INFINITY), -0.0, 1e300, 1e-310}) : r.gauss() * std::pow(10.0, r.integer(-3, 3));
  return v;
}
static float tm(Rng& r) { return r.coin(0.05) ? r.pick({1e30f, -1e-30f, 0.0f}) : static_cast<float>(r.uni(-2, 20)); }
static float st(Rng& r) { return r.coin(0.15) ? 0.0f : static_cast<float>(r.uni(0.001, 1)); }

template <int n_, int m_>
struct Case {
  Rng& r;
  mon::Ctx& ctx;
  using Traj = Trajectory<n_, m_>;
  using KP = KnotPoint<n_, m_>;
  std::unique_ptr<Traj> z;
  std::vector<Knot> ref;
  std::string ops;

  KP make(const Knot& k) { return KP(k.x, k.u, k.t, k.h); }
  Knot knot(int n, int m) {
    Knot k;
    k.x = vec(r, n), k.u = vec(r, m), k.t = tm(r), k.h = st(r);
    return k;
  }
  static Knot read(const KP& p) {
    Knot k;
    k.x = p.State(), k.u = p.Control(), k.t = p.GetTime(), k.h = p.GetStep();
    return k;
  }
  bool equal(const Knot& a, const Knot& b) { return same(a.x, b.x) && same(a.u, b.u) && samef(a.t, b.t) && samef(a.h, b.h); }
  std::string show(const Knot& k) { return "x=" + str(k.x) + mon::sf(" u=") + str(k.u) + mon::sf(" t=%.9g h=%.9g", k.t, k.h); }

  bool compare(Traj& Z, const std::vector<Knot>& want, const char* key) {
    int N = want.size() - 1;
    if (!ctx.check(Z.NumSegments() == N, "segments", [&] { return mon::sf("%d segments instead of %d after ", Z.NumSegments(), N) + ops; })) return false;
    const Traj& C = Z;
    bool ok = true;
    int how = r.integer(0, 3);
    auto it = Z.begin();
    auto cit = C.begin();
    for (int k = 0; k <= N; ++k, ++it, ++cit) {
      Knot got;
      if (how == 0) got.x = Z.State(k), got.u = Z.Control(k), got.t = Z.GetTime(k), got.h = Z.GetStep(k);
      if (how == 1) got.x = C.State(k), got.u = C.Control(k), got.t = C.GetTime(k), got.h = C.GetStep(k);
      if (how == 2) got = read(r.coin() ? Z.GetKnotPoint(k) : C.GetKnotPoint(k));
      if (how == 3) got = read(r.coin() ? *it : *cit);
      ok = ctx.check(equal(got, want[k]), key, [&] { return mon::sf("knot point %d of %d is ", k, N) + show(got) + " instead of " + show(want[k]) + " after " + ops; }) && ok;
      ctx.check(Z.StateDimension(k) == want[k].x.size() && Z.ControlDimension(k) == want[k].u.size(), "dimensions", "wrong dimensions");
      VectorXd joint(want[k].x.size() + want[k].u.size());
      joint << want[k].x, want[k].u;
      ctx.check(same(VectorXd(Z[k].GetStateControl()), joint), "joint", "the joint vector is not state and control");
      ctx.check(Z[k].IsTerminal() == (want[k].h == 0), "terminal", [&] { return mon::sf("IsTerminal with step %g", want[k].h); });
    }
    ctx.check(it == Z.end() && cit == C.end(), "range", "the iterators do not span the trajectory");
    return ok;
  }
  void times() {
    // a consistent trajectory with exactly representable times, then one inconsistency
    int N = ref.size() - 1;
    bool uniform = r.coin();
    float h = r.integer(1, 64) / 64.0f;
    if (uniform) {
      z->SetUniformStep(h);
      for (int k = 0; k <= N; ++k) ref[k].t = k * h, ref[k].h = k < N ? h : 0;
    } else {
      float t = r.integer(-64, 64) / 32.0f;
      for (int k = 0; k <= N; ++k) {
        ref[k].t = t;
        ref[k].h = k < N ? r.integer(1, 64) / 64.0f : 0;
        z->SetTime(k, ref[k].t);
        z->SetStep(k, ref[k].h);
        t += ref[k].h;
      }
    }
    double eps = r.pick({1e-6, 1e-3, 0.05, 0.0});
    bool verbose = r.coin(0.3);
    bool res;
    std::string out = mon::capture([&] { res = eps == 1e-6 && !verbose ? z->CheckTimeConsistency() : z->CheckTimeConsistency(eps, verbose); });
    ctx.check(res && out.empty(), "consistent-rejected", [&] { return mon::sf("consistent times of %d steps were rejected (eps %g)", N, eps); });
    ctx.count("consistent");
    if (N == 0) return;
    int k = r.integer(0, N);
    bool step = r.coin() && k < N;
    double by = std::max(eps, 1e-5) * r.uni(1.5, 10) * (r.coin() ? 1 : -1);
    bool undef = r.coin(0.1);
    if (r.coin(0.4) && eps > 1e-4) by = eps * r.uni(-0.9, 0.9);  // within the tolerance
    float nt = undef ? NAN : static_cast<float>(ref[k].t + by), nh = undef ? NAN : static_cast<float>(ref[k].h + by);
    if (step) ref[k].h = nh, z->SetStep(k, nh);
    else ref[k].t = nt, z->SetTime(k, nt);
    double worst = 0, least = 1e300;
    for (int i = 0; i < N; ++i) {
      double e = std::abs((static_cast<double>(ref[i + 1].t) - ref[i].t) - ref[i].h);
      if (std::isnan(e)) e = 1e9;
      worst = std::max(worst, e);
    }
    (void)least;
    mon::capture([&] { res = z->CheckTimeConsistency(eps, verbose); });
    if (worst > eps * 1.01 + 5e-6) {
      ctx.check(!res, "inconsistent-accepted", [&] { return mon::sf("times off by %g at %d of %d were accepted (eps %g)%s", worst, k, N, eps, undef ? " (undefined)" : ""); });
      ctx.count(undef ? "undefined" : "inconsistent");
    } else if (worst < eps * 0.99 - 5e-6) {
      ctx.check(res, "tolerated-rejected", [&] { return mon::sf("times off by %g at %d of %d were rejected (eps %g)", worst, k, N, eps); });
      ctx.count("tolerated");
    }
  }
  void uniform() {
    int N = ref.size() - 1;
    float h = r.coin(0.1) ? static_cast<float>(r.integer(1, 9)) : static_cast<float>(r.uni(1e-4, 1.5));
    z->SetUniformStep(h);
    for (int k = 0; k <= N; ++k) {
      float t = z->GetTime(k), s = z->GetStep(k);
      double e = 1.2e-7 * std::abs(k * static_cast<double>(h));
      ctx.check(s == (k < N ? h : 0.0f), "uniform-step", [&] { return mon::sf("step %d of %d is %.9g with a uniform step of %.9g", k, N, s, h); });
      ctx.check(std::abs(t - k * static_cast<double>(h)) <= e, "uniform-time", [&] { return mon::sf("time %d of %d is %.9g with a uniform step of %.9g", k, N, t, h); });
      if (k > 0) {
        double d = static_cast<double>(t) - ref[k - 1].t;
        ctx.check(std::abs(d - h) <= 3 * e, "uniform-difference", [&] { return mon::sf("times %d and %d are %.9g apart with a uniform step of %.9g", k - 1, k, d, h); });
      }
      ref[k].t = t, ref[k].h = s;
    }
    ctx.count("uniform");
  }
  void build(int n, int m, int N) {
    int how = r.integer(0, n_ > 0 && m_ > 0 ? 3 : 2);
    ref.assign(N + 1, Knot());
    if (how == 0) {
      z = std::make_unique<Traj>(n, m, N);
      for (auto& k : ref) k.x = VectorXd::Zero(n), k.u = VectorXd::Zero(m);
      ops += "zeros";
    } else if (how == 1) {
      std::vector<KP> zs;
      for (auto& k : ref) {
        bool vary = r.coin(0.3);  // dynamic dimensions may differ between knot points
        k = knot(n_ > 0 ? n : vary ? r.integer(1, 5) : n, m_ > 0 ? m : vary ? r.integer(0, 3) : m);
        zs.push_back(make(k));
      }
      z = std::make_unique<Traj>(zs);
      ops += "knots";
    } else if (how == 2) {
      std::vector<altro::VectorN<n_>> X;
      std::vector<altro::VectorN<m_>> U;
      std::vector<float> t;
      float now = tm(r);
      for (int k = 0; k <= N; ++k) {
        ref[k] = knot(n, m);
        ref[k].t = now;
        X.push_back(ref[k].x), t.push_back(now);
        if (k < N) U.push_back(ref[k].u), now = static_cast<float>(now + r.uni(0.001, 1));
      }
      for (int k = 0; k < N; ++k) ref[k].h = t[k + 1] - t[k];
      ref[N].u = VectorXd::Zero(N == 0 && m_ < 0 ? 0 : m);
      ref[N].h = 0;
      z = std::make_unique<Traj>(X, U, t);
      ops += "vectors";
      ctx.count(N ? "from_vectors" : "from_one_state");
    } else {
      fixed(std::integral_constant<bool, (n_ > 0 && m_ > 0)>(), N);
      for (auto& k : ref) k.x = VectorXd::Zero(n), k.u = VectorXd::Zero(m);
      ops += "static";
    }
  }
  void fixed(std::true_type, int N) { z = std::make_unique<Traj>(N); }
  void fixed(std::false_type, int) {}
  template <int n2, int m2>
  void convert(const Knot& k) {
    KnotPoint<n2, m2> other(k.x, k.u, k.t, k.h);
    KP mine(other);
    ctx.check(equal(read(mine), k) && mine.StateDimension() == k.x.size() && mine.ControlDimension() == k.u.size(), "conversion", "a converted knot point differs");
    KnotPoint<n2, m2> back(mine);
    ctx.check(same(VectorXd(back.State()), k.x) && same(VectorXd(back.Control()), k.u) && samef(back.GetTime(), k.t) && samef(back.GetStep(), k.h), "conversion",
              "a knot point converted back differs");
    ctx.count("conversions");
  }
  void points(int n, int m) {
    Knot k = knot(n, m);
    KP p = make(k), q = make(knot(n, m));
    q = p;
    ctx.check(equal(read(q), k) && equal(read(p), k), "point-assign", "an assigned knot point differs");
    q.State()(0) = 7;
    q.SetTime(1.5f);
    ctx.check(equal(read(p), k), "point-alias", "changing a copy of a knot point changed the original");
    KP moved(std::move(p));
    ctx.check(equal(read(moved), k) && moved.StateDimension() == n && moved.ControlDimension() == m, "point-move", "a moved knot point differs");
    p = make(k);
    moved.SetTerminal();
    Knot e = k;
    e.u.setZero(), e.h = 0;
    ctx.check(equal(read(moved), e) && moved.IsTerminal(), "set-terminal", "a terminal knot point keeps its state and time, and has no control and step");
    KP zero(n, m);
    ctx.check(same(VectorXd(zero.State()), VectorXd::Zero(n)) && same(VectorXd(zero.Control()), VectorXd::Zero(m)) && zero.GetTime() == 0 && zero.GetStep() == 0, "point-zero",
              "a new knot point is not zero");
    convert<Eigen::Dynamic, Eigen::Dynamic>(k);
    KP rnd = KP::Random(n, m);
    ctx.check(rnd.State().size() == n && rnd.Control().size() == m && rnd.StateDimension() == n && rnd.ControlDimension() == m, "point-random", "a random knot point has other sizes");
    // the printed form names every entry
    if (k.x.allFinite() && k.u.allFinite()) {
      int w = r.integer(0, 14);
      std::string s = p.ToString(w);
      std::vector<double> nums;
      const char* c = s.c_str();
      while (*c) {
        char* end;
        if ((isdigit(*c) || *c == '-' || *c == '+') && (c == s.c_str() || !isalpha(c[-1]))) {
          nums.push_back(strtod(c, &end));
          c = end > c ? end : c + 1;
        } else {
          ++c;
        }
      }
      bool ok = static_cast<int>(nums.size()) == n + m + 2;
      for (int i = 0; ok && i < n + m; ++i) {
        double v = i < n ? k.x(i) : k.u(i - n);
        ok = std::abs(nums[i] - v) <= 0.006 * std::abs(v);
      }
      ctx.check(ok, "point-string", [&] { return "printed as \"" + s + "\": " + show(k); });
      ctx.count("printed");
    }
  }
  void go() {
    int n = n_ > 0 ? n_ : r.integer(1, 6), m = m_ > 0 ? m_ : r.integer(1, 4);
    int N = r.coin(0.1) ? 0 : r.coin(0.1) ? r.integer(30, 120) : r.integer(1, 12);
    build(n, m, N);
    if (!compare(*z, ref, "built")) return;
    int steps = r.integer(1, 25);
    for (int i = 0; i < steps; ++i) {
      N = ref.size() - 1;
      int k = r.integer(0, N), what = r.integer(0, 15);
      Knot& K = ref[k];
      ops += mon::sf(" %d@%d", what, k);
      switch (what) {
        case 0: K.x = vec(r, K.x.size()); z->State(k) = K.x; break;
        case 1: if (K.u.size()) { K.u = vec(r, K.u.size()); z->Control(k) = K.u; } break;
        case 2: { int j = r.integer(0, K.x.size() - 1); K.x(j) = r.gauss(); z->State(k)(j) = K.x(j); break; }
        case 3: if (K.u.size()) { int j = r.integer(0, K.u.size() - 1); K.u(j) = r.gauss(); z->Control(k)(j) = K.u(j); } break;
        case 4: K.t = tm(r); z->SetTime(k, K.t); break;
        case 5: K.h = st(r); z->SetStep(k, K.h); break;
        case 6: K = knot(K.x.size(), K.u.size()); z->GetKnotPoint(k) = make(K); break;
        case 7: K = knot(n_ > 0 ? n_ : r.integer(1, 5), m_ > 0 ? m_ : r.integer(1, 3)); (*z)[k] = make(K); break;
        case 8: {  // through an iterator
          K.x = vec(r, K.x.size());
          auto it = z->begin();
          for (int j = 0; j < k; ++j) ++it;
          it->State() = K.x;
          break;
        }
        case 9:
          z->SetZero();
          for (auto& q : ref) q.x.setZero(), q.u.setZero();
          ctx.count("zeroed");
          break;
        case 10: {  // a copy is independent
          auto c = std::make_unique<Traj>(*z);
          auto before = ref;
          c->State(k).setConstant(3);
          c->SetTime(k, 99);
          if (!compare(*z, ref, "copy-changed-source")) return;
          if (r.coin()) {
            K.x.setConstant(3), K.t = 99;
            z = std::move(c);
          }
          ctx.count("copies");
          break;
        }
        case 11: {
          auto c = std::make_unique<Traj>(std::move(*z));
          z = std::move(c);
          ctx.count("moves");
          break;
        }
        case 12: {  // assignment to a trajectory of another length
          int N2 = r.integer(0, 8);
          auto c = std::make_unique<Traj>(n, m, N2);
          for (int j = 0; j <= N2; ++j) c->SetTime(j, 5);
          if (r.coin()) *c = *z;
          else *c = std::move(*z);
          z = std::move(c);
          ctx.count("assignments");
          break;
        }
        case 13: { Traj& self = *z; *z = self; break; }
        case 14: times(); break;
        case 15: uniform(); break;
      }
      if (!compare(*z, ref, "stored")) return;
      ctx.count("operations");
    }
    points(n, m);
    ctx.distinct(mon::hash_bytes(ref[0].x.data(), ref[0].x.size() * 8, mon::mix(ref.size())));
    if (ctx.want_sample()) ctx.sample(ops);
  }
};
template <int n_, int m_>
static void one(Rng& r, mon::Ctx& ctx) {
  Case<n_, m_> c{r, ctx, nullptr, {}, ""};
  c.go();
}
static void misuse(Rng& r, mon::Ctx& ctx) {
  int k = r.integer(0, 1), N = r.integer(1, 4), by = r.pick({-1, 1});
  auto c = mon::in_child([&] {
    std::vector<VectorXd> X(N + 1 + (k == 0 ? by : 0), VectorXd::Ones(2)), U(N, VectorXd::Ones(1));
    std::vector<float> t(N + 1 + by, 0.0f);
    Trajectory<-1, -1> z(X, U, t);
    return 0;
  });
  ctx.check(c.aborted && c.err.find("Assert failed") != std::string::npos, "misuse", "vectors of different lengths were accepted");
  ctx.count("misuses");
}
static void run(Rng& r, mon::Ctx& ctx) {
  for (int i = 0; i < 6; ++i) {
    switch (r.integer(0, 5)) {
      case 0: one<3, 2>(r, ctx); break;
      case 1: one<1, 1>(r, ctx); break;
      case 2: one<4, Eigen::Dynamic>(r, ctx); break;
      case 3: one<Eigen::Dynamic, 2>(r, ctx); break;
      default: one<Eigen::Dynamic, Eigen::Dynamic>(r, ctx);
    }
  }
  if (r.coin(0.1)) misuse(r, ctx);
}
MON_MAIN(run)
