// C30: solvers built from one problem do not influence each other, nor the problem.
// A script interleaves operations of several solvers and edits of the problem. Afterwards every solver's own
// part of the script is replayed alone, on a fresh problem, and must show exactly the same at every step.
#include "capture.hpp"
#include "altro/problem/discretized_model.hpp"
#include "soltext.hpp"
using namespace gen;
using altro::LogLevel;
using altro::problem::Problem;

namespace {
struct Continuous : altro::problem::ContinuousDynamics {  // x' = (f(x,u,t,1) - x)
  explicit Continuous(ModelData d) : data(std::move(d)) {}
  using altro::problem::ContinuousDynamics::Evaluate;
  int StateDimension() const override { return data.n; }
  int ControlDimension() const override { return data.m; }
  bool HasHessian() const override { return false; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, float t, Eigen::Ref<VectorXd> xdot) override {
    VectorXd o;
    data.f(x, u, t, 1.0, &o);
    xdot = o - x;
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, float t, Eigen::Ref<MatrixXd> jac) override {
    MatrixXd o;
    data.jac(x, u, t, 1.0, &o);
    for (int i = 0; i < data.n; ++i) o(i, i) -= 1;
    for (int i = 0; i < o.rows(); ++i)
      for (int j = 0; j < o.cols(); ++j)
        if (o(i, j) != 0) jac(i, j) = o(i, j);
  }
  void Hessian(const VectorXdRef&, const VectorXdRef&, float, const VectorXdRef&, Eigen::Ref<MatrixXd>) override {}
  ModelData data;
};
enum Kind { kBuild, kDestroy, kMove, kSolve, kOptions, kPartition, kSetup, kExpand, kBackward, kForward, kPenalty, kDuals, kGuess, kQuery,
            kTrajectory, kInitial, kEditCost, kEditModel, kEditCon, kCopyProblem };
struct Op {
  Kind kind;
  int slot;
  uint64_t seed;
};
struct Def {  // how the problem starts
  Setup s;
  int disc = 0;  // 0 discrete user models, 1 RK4, 2 Euler, 3 one RK4 object for all knot points
};
std::shared_ptr<altro::problem::DiscreteDynamics> wrap(const Def& d, const ModelData& data) {
  using namespace altro::problem;
  if (d.disc == 0) return std::make_shared<Discrete>(data);
  if (d.disc == 2) return std::make_shared<DiscretizedModel<Continuous, ExplicitEuler>>(Continuous(data));
  return std::make_shared<DiscretizedModel<Continuous>>(Continuous(data));
}
std::shared_ptr<Problem> make_problem(const Def& d) {  // with its own user objects
  auto p = std::make_shared<Problem>(d.s.N);
  std::shared_ptr<altro::problem::DiscreteDynamics> one;
  for (int k = 0; k < d.s.N; ++k) {
    if (d.disc == 3) {
      if (!one) one = wrap(d, d.s.models[0]->data);
      p->SetDynamics(one, k);
    } else {
      p->SetDynamics(wrap(d, d.s.models[k]->data), k);
    }
  }
  for (int k = 0; k <= d.s.N; ++k) p->SetCostFunction(std::make_shared<Cost>(d.s.costs[k]->data), k);
  for (int k = 0; k <= d.s.N; ++k)
    for (auto& c : d.s.cons[k]) {
      if (c.eq) p->SetConstraint(std::make_shared<Con<altro::constraints::Equality>>(c), k);
      else p->SetConstraint(std::make_shared<Con<altro::constraints::Inequality>>(c), k);
    }
  p->SetInitialState(d.s.x0);
  return p;
}
// What the problem consists of.
std::string pieces(Problem& p) {
  std::string t = str(p.GetInitialState());
  for (int k = 0; k <= p.NumSegments(); ++k) {
    t += mon::sf(" %p %p %d:", static_cast<void*>(p.GetCostFunction(k).get()), static_cast<void*>(p.GetDynamics(k).get()), p.NumConstraints(k));
    for (auto& c : p.GetEqualityConstraints().at(k)) t += mon::sf("%p ", static_cast<void*>(c.get()));
    for (auto& c : p.GetInequalityConstraints().at(k)) t += mon::sf("%p ", static_cast<void*>(c.get()));
  }
  return t;
}
bool edits(Kind k) { return k == kEditCost || k == kEditModel || k == kEditCon || k == kCopyProblem; }
void edit(const Def& d, Problem& p, const Op& op) {
  Rng r(op.seed);
  int k = r.integer(0, d.s.N);
  if (op.kind == kInitial) p.SetInitialState(d.s.x0 + rvec(r, d.s.n, 1.0));
  if (op.kind == kEditCost) p.SetCostFunction(std::make_shared<Cost>(random_cost(r, d.s.n, d.s.m, kQuad, k == d.s.N)), k);
  if (op.kind == kEditModel) p.SetDynamics(wrap(d, random_model(r, d.s.n, d.s.m, true, true)), std::min(k, d.s.N - 1));
  if (op.kind == kEditCon) {
    ConData c;
    c.n = d.s.n;
    c.m = d.s.m;
    c.p = r.integer(1, 2);
    c.A = rmat(r, c.p, c.n);
    c.B = k == d.s.N ? MatrixXd::Zero(c.p, c.m) : rmat(r, c.p, c.m);
    c.e = VectorXd::Constant(c.p, 0.5);
    c.label = "added";
    p.SetConstraint(std::make_shared<Con<altro::constraints::Inequality>>(c), k);
  }
  if (op.kind == kCopyProblem) {  // a copy that goes its own way
    Problem q(p);
    q.SetInitialState(rvec(r, d.s.n, 5));
    q.SetCostFunction(std::make_shared<Cost>(random_cost(r, d.s.n, d.s.m, kQuad, false)), 0);
    iLQR<-1, -1> other(q);
    other.SetTrajectory(d.s.guess<-1, -1>());
    other.GetOptions().max_iterations_inner = 2;
    other.Solve();
  }
}

struct Slot {
  virtual ~Slot() {}
  virtual std::string exec(const Op& op, bool alone) = 0;
  virtual std::string text() = 0;
  virtual VectorXd initial() = 0;
};
template <int n_, int m_>
struct SlotT : Slot {
  Rig<n_, m_> g;
  bool ready = false, expanded = false, gains = false, tried = false;
  SlotT(const Def& d, Problem& p, bool al, uint64_t seed, bool alone) {
    Rng r(seed);
    g.s = d.s;
    g.al = al;
    int how = alone ? 0 : r.integer(0, 2);  // the ways to build a solver make no difference
    int N = d.s.N;
    if (al) {
      if (how == 0) g.as = std::make_unique<AugmentedLagrangianiLQR<n_, m_>>(p);
      else {
        g.as = std::make_unique<AugmentedLagrangianiLQR<n_, m_>>(N);
        g.as->InitializeFromProblem(p);
      }
    } else {
      if (how == 0) g.il = std::make_unique<iLQR<n_, m_>>(p);
      else {
        g.il = std::make_unique<iLQR<n_, m_>>(N);
        if (how == 1) {
          g.il->InitializeFromProblem(p);
        } else {
          int cut = r.integer(0, N);
          g.il->CopyFromProblem(p, 0, cut);
          g.il->CopyFromProblem(p, cut, N + 1);
        }
      }
    }
    g.Z = g.s.template guess<n_, m_>();
    set();
  }
  void set() {
    if (g.al) g.as->SetTrajectory(g.Z);
    else g.il->SetTrajectory(g.Z);
  }
  VectorXd initial() override { return *g.q().GetInitialState(); }
  std::string text() override {
    std::string t = state_text(g, false);
    uint64_t h = traj_hash(*g.Z);
    auto mix = [&h](const MatrixXd& M) { h = mon::hash_bytes(M.data(), sizeof(double) * M.size(), h); };
    for (int k = 0; k <= g.s.N; ++k) {
      auto& f = g.q().GetKnotPointFunction(k);
      if (expanded) {
        auto& c = f.GetCostExpansion();
        mix(c.dx());
        mix(c.du());
        mix(c.dxdx());
        mix(c.dxdu());
        mix(c.dudu());
        if (k < g.s.N) mix(f.GetDynamicsExpansion().GetA()), mix(f.GetDynamicsExpansion().GetB());
      }
      if (gains) {
        mix(f.GetCostToGoHessian());
        mix(f.GetCostToGoGradient());
        if (k < g.s.N) mix(f.GetFeedbackGain()), mix(f.GetFeedforwardGain());
      }
    }
    return t + mon::sf("\nbits %016llx", static_cast<unsigned long long>(h));
  }
  std::string exec(const Op& op, bool alone) override {
    Rng r(op.seed);
    auto& q = g.q();
    std::string note;
    switch (op.kind) {
      case kSolve:
        if (r.coin(0.5)) q.GetStats().Reset();
        if (r.coin(0.6)) g.s.fill(*g.Z);
        if (g.al) g.as->Solve();
        else g.il->Solve();
        ready = expanded = true;
        gains = q.GetStatus() != SolverStatus::kBackwardPassRegularizationFailed;
        break;
      case kOptions: {
        altro::SolverOptions o;
        vary_options(r, &o);
        o.max_iterations_inner = std::min(o.max_iterations_inner, 8);
        o.max_iterations_outer = std::min(o.max_iterations_outer, 4);
        o.nthreads = r.pick({1, 1, 1, 2});
        if (r.coin(0.15)) o.state_max = r.uni(1, 4);
        o.verbose = r.pick({LogLevel::kSilent, LogLevel::kOuter, LogLevel::kInner, LogLevel::kDebug});
        o.header_frequency = r.integer(0, 4);
        o.reset_duals = r.coin();
        q.GetOptions() = o;
        break;
      }
      case kPartition: {
        std::vector<int> c = {0};
        for (int k = 1; k <= g.s.N; ++k)
          if (r.coin(0.4)) c.push_back(k);
        c.push_back(g.s.N + 1);
        q.SetTaskAssignment(c);
        break;
      }
      case kSetup: q.SolveSetup(); q.Rollout(); note = mon::sf("%.17g", q.Cost()); ready = true; break;
      case kExpand:
        if (ready) q.UpdateExpansions(), expanded = true;
        break;
      case kBackward:
        if (expanded) q.BackwardPass(), gains = q.GetStatus() != SolverStatus::kBackwardPassRegularizationFailed;
        break;
      case kForward:
        if (gains) q.ForwardPass();
        break;
      case kPenalty:
        if (g.al) g.as->SetPenalty(r.pick({2.0, 50.0})), g.as->SetPenaltyScaling(r.pick({3.0, 20.0}));
        break;
      case kDuals:
        if (g.al && ready) g.as->MaxViolation(), g.as->UpdateDuals(), g.as->UpdatePenalties();
        break;
      case kGuess:
        g.s.fill(*g.Z);
        for (int k = 0; k < g.s.N; ++k) g.Z->Control(k) = rvec(r, g.s.m, 1.0);
        break;
      case kQuery:
        note = mon::sf("%.17g", q.Cost());
        if (g.al) {
          note += mon::sf(" %.17g", g.as->MaxViolation());
          g.as->PrintViolations(r.coin());
        }
        ready = true;
        break;
      case kTrajectory: g.Z = g.s.template guess<n_, m_>(); set(); break;
      case kMove:
        if (alone) break;
        if (g.al) {
          auto f = std::make_unique<AugmentedLagrangianiLQR<n_, m_>>(std::move(*g.as));
          g.as = std::move(f);
        } else {
          auto f = std::make_unique<iLQR<n_, m_>>(std::move(*g.il));
          g.il = std::move(f);
        }
        break;
      default: break;
    }
    return note;
  }
};
std::string label(const Op& op) {
  static const char* const n[] = {"build", "destroy", "move", "solve", "options", "partition", "setup", "expand", "backward", "forward", "penalty",
                                  "duals", "guess", "query", "trajectory", "initial", "cost!", "model!", "constraint!", "copy"};
  return op.slot < 0 ? n[op.kind] : mon::sf("%d:%s", op.slot, n[op.kind]);
}

template <int n_, int m_>
void solvers(Rng& r, mon::Ctx& ctx, int n = 0, int m = 0) {
  Def d;
  GenOpt o;
  o.nonlin = r.coin();
  o.cost = r.pick({kQuad, kSmooth, kNonconvex});
  o.Nmax = r.pick({3, 8});
  o.maxcon = r.coin(0.7) ? 2 : 0;
  o.affine_only = r.coin();
  d.s = random_setup(r, o, n, m);
  if (r.coin(0.4))  // backward passes and line searches that fail
    for (int k = 0; k < d.s.N; ++k)
      if (r.coin(0.4)) d.s.costs[k]->data.R -= r.uni(0.5, 2) * MatrixXd::Identity(d.s.m, d.s.m);
  d.disc = r.pick({0, 0, 1, 2, 3});
  const bool threads = d.disc != 3;  // a shared discretized model has shared temporaries, as documented
  int nslots = r.integer(2, 4);
  std::vector<int> type(nslots), born(nslots, -1), died(nslots, -1);
  for (int i = 0; i < nslots; ++i) type[i] = r.integer(0, 3);  // bit 0: constrained, bit 1: sizes known at compile time
  auto build = [&](const Op& op, Problem& p, bool alone) -> std::unique_ptr<Slot> {
    bool al = type[op.slot] & 1;
    if (type[op.slot] & 2) return std::make_unique<SlotT<n_, m_>>(d, p, al, op.seed, alone);
    return std::make_unique<SlotT<-1, -1>>(d, p, al, op.seed, alone);
  };
  // all together
  auto P = make_problem(d);
  std::vector<std::unique_ptr<Slot>> slots(nslots);
  std::vector<std::string> last(nslots);
  std::vector<Op> script;
  std::vector<std::vector<std::pair<size_t, std::string>>> seen(nslots);  // (operation, everything shown after it)
  std::string log;
  auto where = [&] { return mon::sf(" disc=%d after: ", d.disc) + log + "; " + d.s.describe(); };
  auto step = [&](Op op) {
    script.push_back(op);
    log += label(op) + " ";
    std::string before = pieces(*P), note, out;
    if (op.slot < 0) {
      edit(d, *P, op);
      ctx.count(op.kind == kInitial ? "initial_states" : "problem_edits");
      if (op.kind == kCopyProblem) ctx.check(pieces(*P) == before, "copy", [&] { return "changing a copy of the problem changed the problem" + where(); });
    } else {
      out = mon::capture([&] {
        if (op.kind == kBuild) slots[op.slot] = build(op, *P, false), born[op.slot] = script.size() - 1;
        else if (op.kind == kDestroy) slots[op.slot].reset(), died[op.slot] = script.size() - 1;
        else note = slots[op.slot]->exec(op, false);
      });
      ctx.check(pieces(*P) == before, "problem", [&] { return "an operation of a solver changed the problem: " + first_difference(pieces(*P), before) + where(); });
      if (slots[op.slot]) {
        std::string t = slots[op.slot]->text();
        seen[op.slot].emplace_back(script.size() - 1, note + "|" + out + "|" + t);
        last[op.slot] = t;
        ctx.distinct(mon::hash_bytes(t.data(), t.size()));
        ctx.count("solver_operations");
      }
    }
    for (int i = 0; i < nslots; ++i) {
      if (!slots[i]) continue;
      if (op.kind == kInitial) {
        ctx.check(bits(slots[i]->initial(), P->GetInitialState()), "initial-state", [&] { return mon::sf("solver %d does not have the new initial state", i) + where(); });
        last[i] = slots[i]->text();
      } else if (i != op.slot) {
        std::string t = slots[i]->text();
        ctx.check(t == last[i], "bystander", [&] { return mon::sf("solver %d changed without being used: ", i) + first_difference(last[i], t) + where(); });
        ctx.count("bystanders");
      }
    }
  };
  step({kBuild, 0, r.next()});
  int steps = r.integer(8, 24);
  for (int i = 0; i < steps; ++i) {
    int j = r.integer(0, nslots - 1);
    Op op{kSolve, j, r.next()};
    if (!slots[j]) {
      if (died[j] >= 0) continue;
      op.kind = kBuild;
    } else if (r.coin(0.18)) {
      op = {r.pick({kInitial, kInitial, kInitial, kEditCost, kEditModel, kEditCon, kCopyProblem}), -1, r.next()};
      if (op.kind == kEditModel && d.disc == 3) op.kind = kInitial;
    } else if (r.coin(0.04)) {
      op.kind = kDestroy;
    } else {
      op.kind = r.pick({kSolve, kSolve, kSolve, kOptions, kOptions, kPartition, kSetup, kExpand, kExpand, kBackward, kBackward, kForward, kForward, kPenalty, kDuals, kGuess, kQuery, kTrajectory, kMove});
      if (op.kind == kOptions && !threads) op.kind = kExpand;
    }
    step(op);
  }
  for (int i = 0; i < nslots; ++i)
    if (slots[i]) step({kSolve, i, r.next()});
  for (auto& s : slots) s.reset();
  // each alone
  for (int i = 0; i < nslots; ++i) {
    if (born[i] < 0) continue;
    auto Q = make_problem(d);
    std::unique_ptr<Slot> alone;
    size_t next = 0;
    for (size_t j = 0; j < script.size() && next < seen[i].size(); ++j) {
      const Op& op = script[j];
      if (op.slot < 0) {
        if (op.kind == kInitial || (static_cast<int>(j) < born[i] && op.kind != kCopyProblem)) edit(d, *Q, op);  // later edits are not the solver's business
        continue;
      }
      if (op.slot != i) continue;
      std::string note;
      std::string out = mon::capture([&] {
        if (op.kind == kBuild) alone = build(op, *Q, true);
        else note = alone->exec(op, true);
      });
      std::string t = note + "|" + out + "|" + alone->text();
      ctx.check(seen[i][next].first == j && t == seen[i][next].second, "independence", [&] {
        return mon::sf("solver %d (type %d) shows something else at step %zu (%s) than alone: ", i, type[i], j, label(op).c_str()) + first_difference(seen[i][next].second, t) + where();
      });
      ++next;
      ctx.count("replayed");
    }
    ctx.count("solvers");
    ctx.count(mon::sf("solvers_type_%d", type[i]));
  }
  if (ctx.want_sample()) ctx.sample(log + d.s.describe());
}
}  // namespace
#ifdef STATIC_UNIT
void static_case(Rng& r, mon::Ctx& ctx) { solvers<3, 2>(r, ctx, 3, 2); }
#else
void static_case(Rng& r, mon::Ctx& ctx);
static void run(Rng& r, mon::Ctx& ctx) {
  if (r.coin(0.4)) return static_case(r, ctx);
  solvers<-1, -1>(r, ctx);
}
MON_MAIN(run)
#endif
