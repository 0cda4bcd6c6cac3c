// A solver of either kind with its problem, and the complete outcome of a solve for bitwise comparison.
#pragma once
#include "solve.hpp"
namespace gen {
using altro::augmented_lagrangian::AugmentedLagrangianiLQR;
using altro::ilqr::iLQR;
struct Outcome {
  Snapshot Z;
  SolverStatus status = SolverStatus::kUnsolved, inner = SolverStatus::kUnsolved;
  std::vector<std::vector<double>> hist;
  double initial_cost = 0;
  int inner_its = 0, outer = 0, total = 0;
  std::vector<VectorXd> d, Sx;
  std::vector<MatrixXd> K, Sxx;
  std::vector<std::vector<VectorXd>> lam, pen;
  double viol = 0;
};
static const char* const names[] = {"cost", "alpha", "improvement_ratio", "gradient", "cost_decrease", "regularization", "violations", "max_penalty"};

template <int n_, int m_>
struct Rig {
  Setup s;
  bool al = false;
  std::unique_ptr<iLQR<n_, m_>> il;
  std::unique_ptr<AugmentedLagrangianiLQR<n_, m_>> as;
  std::shared_ptr<altro::Trajectory<n_, m_>> Z;
  iLQR<n_, m_>& q() { return al ? as->GetiLQRSolver() : *il; }
  void make(const Setup& from, bool constrained) {
    s = from;
    al = constrained;
    s.build();
    if (al) as = std::make_unique<AugmentedLagrangianiLQR<n_, m_>>(*s.prob);
    else il = std::make_unique<iLQR<n_, m_>>(*s.prob);
    Z = s.template guess<n_, m_>();
    if (al) as->SetTrajectory(Z);
    else il->SetTrajectory(Z);
  }
  Outcome solve() {
    q().GetStats().Reset();
    if (al) as->Solve();
    else il->Solve();
    Outcome o;
    o.Z = Snapshot::of(*Z);
    auto& st = q().GetStats();
    o.status = al ? as->GetStatus() : il->GetStatus();
    o.inner = q().GetStatus();
    o.hist = {st.cost, st.alpha, st.improvement_ratio, st.gradient, st.cost_decrease, st.regularization, st.violations, st.max_penalty};
    o.initial_cost = st.initial_cost;
    o.inner_its = st.iterations_inner;
    o.outer = st.iterations_outer;
    o.total = st.iterations_total;
    for (int k = 0; k <= s.N; ++k) {
      auto& f = q().GetKnotPointFunction(k);
      if (k < s.N && o.total > 0) {
        o.d.push_back(f.GetFeedforwardGain());
        o.K.push_back(f.GetFeedbackGain());
      }
      if (o.total > 0) {
        o.Sx.push_back(f.GetCostToGoGradient());
        o.Sxx.push_back(f.GetCostToGoHessian());
      }
    }
    if (al) {
      read_duals(*as, s.N, &o.lam, &o.pen);
      o.viol = as->GetMaxViolation();
    }
    return o;
  }
};
// Names the first difference, or "".
inline std::string differ(const Outcome& a, const Outcome& b) {
  if (a.status != b.status) return mon::sf("status %s vs %s", status_name(a.status), status_name(b.status));
  if (a.inner != b.inner) return mon::sf("inner status %s vs %s", status_name(a.inner), status_name(b.inner));
  if (a.total != b.total || a.inner_its != b.inner_its || a.outer != b.outer)
    return mon::sf("iterations %d/%d/%d vs %d/%d/%d", a.outer, a.inner_its, a.total, b.outer, b.inner_its, b.total);
  auto eq = [](double x, double y) { return x == y || (std::isnan(x) && std::isnan(y)); };
  if (!eq(a.initial_cost, b.initial_cost)) return mon::sf("initial cost %.17g vs %.17g", a.initial_cost, b.initial_cost);
  for (size_t i = 0; i < a.hist.size(); ++i) {
    if (a.hist[i].size() != b.hist[i].size()) return mon::sf("length of %s: %zu vs %zu", names[i], a.hist[i].size(), b.hist[i].size());
    for (size_t j = 0; j < a.hist[i].size(); ++j)
      if (!eq(a.hist[i][j], b.hist[i][j])) return mon::sf("%s[%zu] = %.17g vs %.17g", names[i], j, a.hist[i][j], b.hist[i][j]);
  }
  for (size_t k = 0; k < a.Z.X.size(); ++k) {
    if (!bits(a.Z.X[k], b.Z.X[k])) return mon::sf("state %zu: ", k) + str(a.Z.X[k]) + " vs " + str(b.Z.X[k]);
    if (!bits(a.Z.U[k], b.Z.U[k])) return mon::sf("control %zu: ", k) + str(a.Z.U[k]) + " vs " + str(b.Z.U[k]);
  }
  if (!a.Z.same(b.Z)) return "times";
  for (size_t k = 0; k < a.d.size() && k < b.d.size(); ++k)
    if (!bits(a.d[k], b.d[k]) || !bits(a.K[k], b.K[k])) return mon::sf("gains at %zu", k);
  for (size_t k = 0; k < a.Sx.size() && k < b.Sx.size(); ++k)
    if (!bits(a.Sx[k], b.Sx[k]) || !bits(a.Sxx[k], b.Sxx[k])) return mon::sf("cost-to-go at %zu", k);
  for (size_t k = 0; k < a.lam.size(); ++k)
    for (size_t i = 0; i < a.lam[k].size(); ++i)
      if (!bits(a.lam[k][i], b.lam[k][i]) || !bits(a.pen[k][i], b.pen[k][i]))
        return mon::sf("multipliers at %zu: ", k) + str(a.lam[k][i]) + " vs " + str(b.lam[k][i]);
  if (!eq(a.viol, b.viol)) return mon::sf("violation %.17g vs %.17g", a.viol, b.viol);
  return "";
}
}  // namespace gen
