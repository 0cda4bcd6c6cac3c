// Helpers for harnesses that drive the two solvers.
#pragma once
#include "altro/augmented_lagrangian/al_solver.hpp"
#include "altro/ilqr/ilqr.hpp"
#include "gen.hpp"

namespace gen {
using altro::SolverOptions;
using altro::SolverStatus;

inline const char* status_name(SolverStatus s) {
  switch (s) {
    case SolverStatus::kSolved: return "solved";
    case SolverStatus::kUnsolved: return "unsolved";
    case SolverStatus::kStateLimit: return "state_limit";
    case SolverStatus::kControlLimit: return "control_limit";
    case SolverStatus::kCostIncrease: return "cost_increase";
    case SolverStatus::kMaxIterations: return "max_iterations";
    case SolverStatus::kMaxOuterIterations: return "max_outer";
    case SolverStatus::kMaxInnerIterations: return "max_inner";
    case SolverStatus::kMaxPenalty: return "max_penalty";
    case SolverStatus::kBackwardPassRegularizationFailed: return "bp_failed";
  }
  return "?";
}

// Independent augmented Lagrangian of one constraint (value), for c(x,u) in its cone.
inline double al_term(const ConData& d, const VectorXd& lambda, double rho, const VectorXd& x, const VectorXd& u) {
  VectorXd c = d.val(x, u);
  double J = 0;
  for (int i = 0; i < d.p; ++i) {
    double l = lambda(i) - rho * c(i);
    if (!d.eq) l = std::min(0.0, l);
    J += l * l - lambda(i) * lambda(i);
  }
  return J / (2 * rho);
}

// The dual and penalty values the solver holds, in Setup::cons order.
template <class AL>
void read_duals(AL& al, int N, std::vector<std::vector<VectorXd>>* lam, std::vector<std::vector<VectorXd>>* pen) {
  lam->assign(N + 1, {});
  pen->assign(N + 1, {});
  for (int k = 0; k <= N; ++k) {
    auto c = al.GetALCost(k);
    for (auto& v : c->GetEqualityConstraints()) {
      (*lam)[k].push_back(v->GetDuals());
      (*pen)[k].push_back(v->GetPenalty());
    }
    for (auto& v : c->GetInequalityConstraints()) {
      (*lam)[k].push_back(v->GetDuals());
      (*pen)[k].push_back(v->GetPenalty());
    }
  }
}

// Options that vary the path through the solver but not what it promises.
inline void vary_options(Rng& r, SolverOptions* o) {
  if (r.coin(0.3)) o->line_search_decrease_factor = r.pick({1.5, 2.0, 3.0});
  if (r.coin(0.2)) o->line_search_max_iterations = r.pick({1, 2, 5, 30});
  if (r.coin(0.2)) o->bp_reg_initial = r.pick({1e-6, 1e-2, 1.0});
  if (r.coin(0.2)) o->bp_reg_increase_factor = r.pick({1.3, 2.0, 5.0});
  if (r.coin(0.3)) o->cost_tolerance = r.pick({1e-8, 1e-2});
  if (r.coin(0.3)) o->gradient_tolerance = r.pick({1e-6, 1e-1});
  if (r.coin(0.25)) o->max_iterations_inner = r.pick({1, 2, 5});
  if (r.coin(0.25)) o->max_iterations_outer = r.pick({1, 2, 4});
  if (r.coin(0.15)) o->max_iterations_total = r.pick({1, 3, 10});
  if (r.coin(0.3)) o->initial_penalty = r.pick({0.1, 10.0, 1000.0});
  if (r.coin(0.15)) o->maximum_penalty = r.pick({50.0, 1e4});
}

// Sees every iteration of a solve from inside, through the solver's violation callback.
template <int n_, int m_>
struct Watch {
  std::function<void()> on_iteration;
  bool first = false;  // is this the first iteration of an inner solve?
  int last = -1;
  void call(const altro::SolverStats& st) {
    // whether the counter is raised before or after the callback does not matter here
    first = last < 0 || st.iterations_inner <= last;
    last = st.iterations_inner;
    if (on_iteration) on_iteration();
  }
  void attach(altro::ilqr::iLQR<n_, m_>& s) {
    s.SetConstraintCallback([this, &s]() {
      call(s.GetStats());
      return 0.0;
    });
  }
  void attach(altro::augmented_lagrangian::AugmentedLagrangianiLQR<n_, m_>& s) {
    s.GetiLQRSolver().SetConstraintCallback([this, &s]() {
      call(s.GetStats());
      return s.GetMaxViolation();
    });
  }
};
}  // namespace gen
