// C10: constraint counts, reports and violation queries are complete and exact.
#include "solve.hpp"
#include <sstream>
using namespace gen;
using altro::augmented_lagrangian::AugmentedLagrangianiLQR;
using namespace altro::constraints;

template <class Type>
class Plain : public Con<Type> {  // keeps the library's default label
 public:
  using Con<Type>::Con;
  std::string GetLabel() const override { return altro::constraints::Constraint<Type>::GetLabel(); }
};
struct Entry {
  int k;
  ConData d;
  std::string label;
};
static double pnorm(const std::vector<double>& v, double p) {
  double a = 0;
  for (double x : v) {
    if (std::isnan(x)) return NAN;
    a = p == 0 ? std::max(a, std::abs(x)) : a + std::pow(std::abs(x), p);
  }
  return p == 0 ? a : std::pow(a, 1 / p);
}

template <int n_, int m_>
static void books(Rng& r, mon::Ctx& ctx, int n = 0, int m = 0) {
  using AL = AugmentedLagrangianiLQR<n_, m_>;
  GenOpt o;
  o.nonlin = r.coin(0.3);
  o.Nmax = 12;
  o.Nmin = 1;
  o.maxcon = r.integer(0, 4);
  o.eq_prob = r.pick({0.0, 0.3, 0.7});
  o.affine_only = r.coin();
  o.feasible = r.coin();
  Setup s = random_setup(r, o, n, m);
  // add them in any order over knot points; within a knot point and type the order counts
  std::vector<Entry> all;
  for (int k = 0; k <= s.N; ++k)
    for (auto& d : s.cons[k]) all.push_back({k, d, d.label});
  for (size_t i = all.size(); i > 1; --i) std::swap(all[i - 1], all[r.integer(0, i - 1)]);
  auto prob = std::make_shared<altro::problem::Problem>(s.N);
  for (int k = 0; k < s.N; ++k) prob->SetDynamics(s.models[k], k);
  for (int k = 0; k <= s.N; ++k) prob->SetCostFunction(s.costs[k], k);
  prob->SetInitialState(s.x0);
  for (auto& e : all) {
    bool plain = r.coin(0.3);
    if (r.coin(0.2)) e.d.label = e.label = "duplicate label";
    if (plain) e.label = e.d.eq ? "Equality Constraint" : "Inequality Constraint";
    using E = Equality;
    using I = Inequality;
    if (e.d.eq && plain) prob->SetConstraint(std::make_shared<Plain<E>>(e.d), e.k);
    else if (e.d.eq) prob->SetConstraint(std::make_shared<Con<E>>(e.d), e.k);
    else if (plain) prob->SetConstraint(std::make_shared<Plain<I>>(e.d), e.k);
    else prob->SetConstraint(std::make_shared<Con<I>>(e.d), e.k);
  }
  // expected order of the reports: knot point, then equalities before inequalities, then insertion order
  std::vector<Entry> want;
  for (int k = 0; k <= s.N; ++k)
    for (int pass = 0; pass < 2; ++pass)
      for (auto& e : all)
        if (e.k == k && e.d.eq == (pass == 0)) want.push_back(e);
  AL al(*prob);
  int total = 0;
  for (int k = 0; k <= s.N; ++k) {
    int c = 0;
    for (auto& e : all)
      if (e.k == k) c += e.d.p;
    total += c;
    ctx.check(al.NumConstraints(k) == c && prob->NumConstraints(k) == c && al.GetALCost(k)->NumConstraints() == c, "count-at", [&] {
      return mon::sf("%d/%d/%d constraints reported at %d, the user added %d", al.NumConstraints(k), prob->NumConstraints(k), al.GetALCost(k)->NumConstraints(), k, c);
    });
  }
  ctx.check(al.NumConstraints() == total && prob->NumConstraints() == total, "count", [&] { return mon::sf("%d constraints reported, the user added %d", al.NumConstraints(), total); });
  ctx.count("constraints", total);
  if (total == 0) ctx.count("unconstrained");

  auto Z = s.guess<n_, m_>();
  al.SetTrajectory(Z);
  al.GetOptions().constraint_tolerance = r.pick({1e-4, 1e-2});
  al.GetOptions().max_iterations_outer = r.integer(1, 12);
  al.GetOptions().max_iterations_inner = r.integer(1, 30);
  bool nan = r.coin(0.1);
  auto randomize = [&](altro::Trajectory<n_, m_>& Y) {
    double sc = r.pick({0.1, 1.0, 10.0});
    for (int k = 0; k <= s.N; ++k) {
      Y.State(k) = rvec(r, s.n, sc);
      Y.Control(k) = rvec(r, s.m, sc);
      if (nan && r.coin(0.2)) Y.State(k)(0) = NAN;
      if (r.coin(0.05)) Y.State(k)(r.integer(0, s.n - 1)) = r.pick({1e12, -1e12});
    }
  };
  auto viol = [&](const altro::Trajectory<n_, m_>& Y) {
    std::vector<double> v;
    for (auto& e : want) {
      VectorXd w = e.d.violation(Y.State(e.k), Y.Control(e.k));
      for (int i = 0; i < w.size(); ++i) v.push_back(w(i));
    }
    return v;
  };
  int rounds = r.integer(2, 6);
  for (int round = 0; round < rounds; ++round) {
    altro::Trajectory<n_, m_> Y(*Z);
    int how = r.integer(0, 2);
    const altro::Trajectory<n_, m_>* cur = nullptr;
    bool direct = true;
    auto agree = [&](double got, double want_v, const char* key, const char* what) {
      ctx.check(gen::close(got, want_v, 1e-9, 1e-12), key, [&] { return mon::sf("%s: %.12g, the user's constraints give %.12g; %s", what, got, want_v, s.describe().c_str()); });
      ctx.count("violations_compared");
    };
    if (how == 0) {  // another trajectory
      randomize(Y);
      cur = &Y;
      auto v = viol(Y);
      agree(al.MaxViolation(Y), pnorm(v, 0), "max-given", "MaxViolation(Z)");
      if (r.coin()) agree(al.template MaxViolation<2>(Y), pnorm(v, 2), "2norm-given", "MaxViolation<2>(Z)");
      if (r.coin()) agree(al.template MaxViolation<1>(Y), pnorm(v, 1), "1norm-given", "MaxViolation<1>(Z)");
    } else if (how == 1) {  // its own trajectory
      randomize(*Z);
      cur = Z.get();
      auto v = viol(*Z);
      agree(al.MaxViolation(), pnorm(v, 0), "max-own", "MaxViolation()");
      if (r.coin()) agree(al.template MaxViolation<2>(), pnorm(v, 2), "2norm-own", "MaxViolation<2>()");
      if (r.coin()) agree(al.template MaxViolation<1>(), pnorm(v, 1), "1norm-own", "MaxViolation<1>()");
    } else {
      s.fill(*Z);
      al.Solve();
      cur = Z.get();
      ctx.count("solves");
      direct = Snapshot::of(*Z).finite();
    }
    if (!direct) continue;
    auto v = viol(*cur);
    agree(al.GetMaxViolation(), pnorm(v, 0), "max-stored", "GetMaxViolation()");
    agree(al.template GetMaxViolation<2>(), pnorm(v, 2), "2norm-stored", "GetMaxViolation<2>()");
    agree(al.template GetMaxViolation<1>(), pnorm(v, 1), "1norm-stored", "GetMaxViolation<1>()");
    for (int k = 0; k <= s.N; ++k) {
      std::vector<double> vk;
      for (auto& e : want)
        if (e.k == k) {
          VectorXd w = e.d.violation(cur->State(k), cur->Control(k));
          for (int i = 0; i < w.size(); ++i) vk.push_back(w(i));
        }
      agree(al.GetALCost(k)->MaxViolation(), pnorm(vk, 0), "max-knotpoint", "violation at one knot point");
      agree(al.GetALCost(k)->template MaxViolation<2>(), pnorm(vk, 2), "2norm-knotpoint", "2-norm of the violation at one knot point");
    }
    auto matches = [&](const ConstraintInfo& i, const Entry& e) {
      return i.index == e.k && i.label == e.label && i.type == (e.d.eq ? "Equality Constraint" : "Inequality Constraint") &&
             mclose(i.violation, e.d.violation(cur->State(e.k), cur->Control(e.k)), 1e-9, 1e-12);
    };
    auto info = al.GetConstraintInfo();
    if (ctx.check(info.size() == want.size(), "report-count", [&] { return mon::sf("%zu reports for %zu constraints", info.size(), want.size()); }))
      for (size_t i = 0; i < info.size(); ++i)
        ctx.check(matches(info[i], want[i]), "report", [&] {
          return mon::sf("report %zu is '%s' (%s) at %d with %s, expected '%s' at %d with %s", i, info[i].label.c_str(), info[i].type.c_str(), info[i].index,
                         str(info[i].violation).c_str(), want[i].label.c_str(), want[i].k,
                         str(want[i].d.violation(cur->State(want[i].k), cur->Control(want[i].k))).c_str());
        });
    ctx.count("reports", info.size());
    // sorted: the same reports, by decreasing maximum violation (undefined ones may be anywhere consistent)
    auto sorted = al.GetConstraintInfo(true);
    ctx.check(sorted.size() == want.size(), "sorted-count", "sorting changes the number of reports");
    std::vector<bool> used(want.size(), false);
    double last = INFINITY;
    for (auto& i : sorted) {
      bool found = false;
      for (size_t j = 0; j < want.size() && !found; ++j)
        if (!used[j] && matches(i, want[j])) found = used[j] = true;
      ctx.check(found, "sorted-report", [&] { return mon::sf("sorted report '%s' at %d with %s does not belong to a constraint", i.label.c_str(), i.index, str(i.violation).c_str()); });
      double x = 0;
      bool undef = false;
      for (int j = 0; j < i.violation.size(); ++j) {
        undef = undef || std::isnan(i.violation(j));
        x = std::max(x, std::abs(i.violation(j)));
      }
      if (!undef) {
        ctx.check(x <= last, "sort-order", [&] { return mon::sf("a violation of %.9g comes after one of %.9g", x, last); });
        last = x;
      } else {
        ctx.count("undefined_reports");
      }
    }
    // the printed form names the constraint, its knot point and every component
    for (size_t i = 0; i < info.size() && i < 3; ++i) {
      int prec = r.integer(3, 9);
      std::string t = info[i].ToString(prec);
      std::ostringstream os;
      os << info[i];
      ctx.check(os.str() == info[i].ToString(), "print", "printing a report differs from its string");
      std::string head = info[i].label + " at index " + std::to_string(info[i].index) + ": [";
      bool ok = t.compare(0, head.size(), head) == 0 && t.back() == ']';
      std::string body = ok ? t.substr(head.size(), t.size() - head.size() - 1) : "";
      std::vector<double> nums;
      for (char* p = &body[0]; ok && *p;) {
        char* e;
        double x = strtod(p, &e);
        if (e == p) break;
        nums.push_back(x);
        p = e;
        while (*p == ',' || *p == ' ') ++p;
      }
      ok = ok && static_cast<int>(nums.size()) == info[i].violation.size();
      for (size_t j = 0; ok && j < nums.size(); ++j) ok = gen::close(nums[j], info[i].violation(j), 2 * std::pow(10, 1 - prec), 1e-300);
      ctx.check(ok, "string", [&] { return "the printed report is '" + t + "', the violation " + str(info[i].violation); });
    }
    ctx.distinct(traj_hash(*cur));
  }
  if (ctx.want_sample()) ctx.sample(mon::sf("%s, %zu constraint functions", s.describe().c_str(), want.size()));
}
#ifdef STATIC_UNIT
void static_case(Rng& r, mon::Ctx& ctx) { books<3, 2>(r, ctx, 3, 2); }
#else
void static_case(Rng& r, mon::Ctx& ctx);
static void run(Rng& r, mon::Ctx& ctx) {
  if (r.coin(0.15)) return static_case(r, ctx);
  books<-1, -1>(r, ctx);
}
MON_MAIN(run)
#endif
