// C23: after the loss of component grids the new coefficients are a valid combination of the grids that are left.
#include <algorithm>
#include <set>
#include "common.hpp"
#include "combischeme/CombiMinMaxScheme.hpp"
#include "manager/CombiParameters.hpp"
#include "manager/ProcessGroupManager.hpp"
#include "manager/ProcessGroupWorker.hpp"
#include "manager/ProcessManager.hpp"
#include "utils/BoostExports.hpp"
using namespace combigrid;
using namespace vfh;
static int sumOf(const LevelVector& l) { int s = 0; for (auto x : l) s += x; return s; }
static bool above(const LevelVector& a, const LevelVector& b) { bool r = true; for (size_t d = 0; d < a.size(); ++d) r &= a[d] >= b[d]; return r; }
// the best value a combination without the lost grids can have: sum of 4^-|k| over the subspaces it represents
struct Best {
  std::vector<LevelVector> top, second; std::set<LevelVector> lost; std::vector<LevelVector> lostSecond; std::map<LevelVector, int> fixed; double best = -1, base = 0; int topSum;
  void go(size_t i, double val) {
    if (i == lostSecond.size()) { for (auto& t : top) { auto it = fixed.find(t); val += (it == fixed.end() ? 1 : it->second) * std::pow(4., -topSum); } best = std::max(best, val); return; }
    std::vector<LevelVector> up; for (auto& t : top) if (above(t, lostSecond[i])) up.push_back(t);
    for (int k = -1; k < (int)up.size(); ++k) { auto saved = fixed; bool ok = true; for (int q = 0; q < (int)up.size(); ++q) { int v = q == k; auto r = fixed.insert({up[q], v}); ok &= r.first->second == v; } if (ok) go(i + 1, val + (k >= 0 ? std::pow(4., 1 - topSum) : 0)); fixed = saved; }
  }
};
void vf_main() {
  MPI_Init(nullptr, nullptr);
  const int dim = cfg("dim", 2); LevelVector lmin(dim), lmax(dim); for (int d = 0; d < dim; ++d) { lmin[d] = (LevelType)cfgi("lmin", d, 1); lmax[d] = (LevelType)cfgi("lmax", d, 3); }
  CombiMinMaxScheme s((DimType)dim, lmin, lmax); s.createAdaptiveCombischeme(); s.makeFaultTolerant(); auto levels = s.getCombiSpaces(); auto coeffs = s.getCoeffs(); const int n = (int)levels.size();
  // each grid is listed once
  for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) vf_assert(levels[i] != levels[j], "C23: every grid is listed once");
  // the lost grids: a number of them, in any order
  std::vector<size_t> faults; const int F = choicei("faults", 0, cfg("flo", 1), cfg("fhi", 2)); std::set<int> used;
  for (int i = 0; i < F; ++i) { int f = cfg("special", 0) ? i : cfgi("f", i, -1); if (f < 0) f = choicei("f", i, 0, n - 1); if (!used.insert(f).second) vf_stop(); if (!cfg("anyorder", 0) && i && f < (int)faults.back()) vf_stop(); faults.push_back((size_t)f); }
  // three grids of the second diagonal that need three grids of the first in pairs, and the other neighbours of these
  if (cfg("special", 0)) { faults.clear(); for (auto l : {LevelVector{3, 1, 1}, LevelVector{2, 2, 1}, LevelVector{2, 1, 2}, LevelVector{4, 1, 1}, LevelVector{2, 3, 1}, LevelVector{2, 1, 3}}) faults.push_back(std::find(levels.begin(), levels.end(), l) - levels.begin()); }
  std::vector<size_t> ids; for (int i = 0; i < n; ++i) ids.push_back(i);
  CombiParameters params((DimType)dim, lmin, lmax, std::vector<BoundaryType>(dim, 1), levels, coeffs, std::vector<bool>(dim, false), ids, 1, 1, CombinationVariant::sparseGridReduce, LevelVector(dim, 0), LevelVector(dim, 0), 16, false);
  theMPISystem()->initWorldReusable(MPI_COMM_WORLD, 1, 1, true, false);
  // a group with one process receives the parameters of the manager and reports them
  if (theMPISystem()->getWorldRank() == 0) {
    ProcessGroupWorker<double> pg; SignalType sig = -1; std::vector<double> c(n);
    while (sig != EXIT) {
      sig = pg.wait(); if (sig != UPDATE_COMBI_PARAMETERS) continue;
      auto& p = pg.getCombiParameters(); vf_assert_eq_i((int64_t)p.getNumLevels(), n, "C23: number of grids");
      for (int i = 0; i < n; ++i) { vf_assert(p.getLevel(i) == levels[i], "C23: the grids keep their numbers"); c[i] = p.getCoeff(i); }
      MPI_Send(c.data(), n, MPI_DOUBLE, 1, 1234, MPI_COMM_WORLD);
    }
    MPI_Finalize(); return;
  }
  ProcessGroupManagerContainer<double> groups; groups.push_back(std::make_shared<ProcessGroupManager<double>>(0)); TaskContainer<double> tasks;
  std::vector<double> c(n), old(n); ProcessManager<double> pm(groups, tasks, params, nullptr); MPI_Recv(old.data(), n, MPI_DOUBLE, 0, 1234, MPI_COMM_WORLD, MPI_STATUS_IGNORE);  // the manager starts by sending them
  std::vector<size_t> lost = faults, redistribute, recompute;
  pm.recomputeOptimumCoefficients("vf", lost, redistribute, recompute);
  pm.updateCombiParameters(); MPI_Recv(c.data(), n, MPI_DOUBLE, 0, 1234, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
  pm.restoreCombischeme(); MPI_Recv(old.data(), n, MPI_DOUBLE, 0, 1234, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
  for (int i = 0; i < n; ++i) vf_assert(old[i] == coeffs[i], "C23: the original coefficients come back");
  pm.exit();
  for (size_t f : faults) {
    const int again = (int)std::count(recompute.begin(), recompute.end(), f), moved = (int)std::count(redistribute.begin(), redistribute.end(), f);
    vf_assert(again + moved == 1, "C23: every lost grid is either recomputed or handed out again");
    vf_assert((again == 1) == (c[f] != 0), "C23: a lost grid enters the combination only if it is recomputed");
  }
  vf_assert_eq_i((int64_t)(redistribute.size() + recompute.size()), (int64_t)faults.size(), "C23: no other grid is recomputed or handed out");
  // the coefficients represent every subspace once or not at all, and the coarsest one once
  const int diff = [&] { int m = 0; for (int d = 0; d < dim; ++d) m = std::max(m, (int)(lmax[d] - lmin[d])); return m; }(); const int topSum = sumOf(lmin) + diff;
  Best b; b.topSum = topSum; std::vector<LevelVector> set; LevelVector k = lmin;
  for (bool more = true; more;) { bool in = sumOf(k) <= topSum && above(lmax, k); if (in) set.push_back(k); more = false; for (int d = 0; d < dim; ++d) { if (++k[d] <= lmax[d]) { more = true; break; } k[d] = lmin[d]; } }
  double got = 0;
  for (auto& q : set) { double v = 0; for (int i = 0; i < n; ++i) if (above(levels[i], q)) v += c[i]; vf_assert(v == 0 || v == 1, "C23: every subspace is represented once or not at all"); if (q == lmin) vf_assert(v == 1, "C23: the coarsest subspace is represented"); got += v * std::pow(4., -sumOf(q)); if (sumOf(q) == topSum) b.top.push_back(q); else if (sumOf(q) == topSum - 1) b.second.push_back(q); else b.base += std::pow(4., -sumOf(q)); }
  for (size_t f : faults) { b.lost.insert(levels[f]); if (sumOf(levels[f]) == topSum) b.fixed[levels[f]] = 0; }
  for (auto& q : b.second) if (b.lost.count(q)) b.lostSecond.push_back(q); else b.base += std::pow(4., 1 - topSum);
  b.go(0, b.base); vf_assert(got == b.best, "C23: as much as possible is kept of the combination");
  vf_cover("C23 faults");
  MPI_Finalize();
}
