// Everything a solver shows through its getters, as text for exact comparison.
#pragma once
#include "rig.hpp"
namespace gen {
using altro::SolverStats;
inline std::string options_text(const altro::SolverOptions& o) {
  return mon::sf("%d %d %d %.17g %.17g %.17g %d %.17g %.17g %.17g %d %d %.17g %.17g %d %.17g %.17g %.17g %.17g %.17g %.17g %d %d %d %d %d %s %s %d %d",
                 o.max_iterations_total, o.max_iterations_outer, o.max_iterations_inner, o.cost_tolerance, o.gradient_tolerance, o.bp_reg_increase_factor, o.bp_reg_enable, o.bp_reg_initial,
                 o.bp_reg_max, o.bp_reg_min, o.bp_reg_fail_threshold, o.check_forwardpass_bounds, o.state_max, o.control_max, o.line_search_max_iterations, o.line_search_lower_bound,
                 o.line_search_upper_bound, o.line_search_decrease_factor, o.constraint_tolerance, o.maximum_penalty, o.initial_penalty, o.reset_duals, o.header_frequency, static_cast<int>(o.verbose),
                 o.profiler_enable, o.profiler_output_to_file, o.log_directory.c_str(), o.profile_filename.c_str(), o.nthreads, o.tasks_per_thread);
}
inline std::string hist_text(const SolverStats& s) {
  std::string t = mon::sf("%d/%d/%d %.17g ", s.iterations_inner, s.iterations_outer, s.iterations_total, s.initial_cost);
  for (auto* v : {&s.cost, &s.alpha, &s.improvement_ratio, &s.gradient, &s.cost_decrease, &s.regularization, &s.violations, &s.max_penalty}) {
    t += "| ";
    for (double x : *v) t += mon::sf("%.17g ", x);
  }
  return t;
}

template <int n_, int m_>
std::string state_text(Rig<n_, m_>& g, bool calls) {
  std::string t = options_text(g.q().GetOptions()) + "\n" + hist_text(g.q().GetStats());
  t += mon::sf("\nstatus %d rho %.17g N %d", static_cast<int>(g.q().GetStatus()), g.q().GetRegularization(), g.q().NumSegments());
  t += "\ncosts " + str(g.q().GetCosts()) + " x0 " + str(*g.q().GetInitialState());
  for (int k = 0; k <= g.s.N; ++k) t += "\n" + str(g.Z->State(k)) + str(g.Z->Control(k));
  if (g.q().GetTrajectory() != g.Z) t += " other trajectory";
  t += mon::sf("\nverbosity %d", static_cast<int>(g.q().GetStats().GetVerbosity()));
  if (g.al) {
    t += mon::sf("\nAL status %d viol %.17g pen %.17g ncon %d", static_cast<int>(g.as->GetStatus()), g.as->GetMaxViolation(), g.as->GetMaxPenalty(), g.as->NumConstraints());
    std::vector<std::vector<VectorXd>> lam, pen;
    read_duals(*g.as, g.s.N, &lam, &pen);
    for (auto& k : lam)
      for (auto& v : k) t += str(v);
    for (auto& k : pen)
      for (auto& v : k) t += str(v);
    for (auto& c : g.as->GetConstraintInfo(calls)) t += c.ToString(12) + "; ";
  }
  return t;
}
inline std::string first_difference(const std::string& a, const std::string& b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  size_t from = i > 60 ? i - 60 : 0;
  return "..." + a.substr(from, 140) + "... vs ..." + b.substr(from, 140);
}

}  // namespace gen
