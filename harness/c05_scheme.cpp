// C05: combination schemes (classical, adaptive, fault tolerant extension): distinct grids within bounds, every covered
// subspace counted exactly once, exactly the subspaces the scheme stands for are covered.
#include "common.hpp"
#include "combischeme/CombiMinMaxScheme.hpp"
using namespace combigrid;
using namespace vfh;
static bool leq(const LevelVector& a, const LevelVector& b) { for (size_t i = 0; i < a.size(); ++i) if (a[i] > b[i]) return false; return true; }
static void run() {
  const int dim = cfg("dim", 2), kind = cfg("kind", 0);  // kind 0: classical, 1: adaptive
  LevelVector lmin(dim), lmax(dim), diff(dim); int M = 0, m = 1 << 20; bool dummy = false;
  for (int d = 0; d < dim; ++d) {
    lmin[d] = (LevelType)choicei("lmin", d, cfg("lminlo", 1), cfg("lminhi", 2));
    diff[d] = (LevelType)(cfg("equal", 0) && d ? diff[0] : choicei("diff", d, cfg("difflo", 0), cfg("diffhi", 3)));
    lmax[d] = (LevelType)(lmin[d] + diff[d]); M = std::max(M, (int)diff[d]); if (diff[d] > 0) m = std::min(m, (int)diff[d]); else dummy = true;
  }
  if (M == 0) m = 0;
  CombiMinMaxScheme s((DimType)dim, lmin, lmax);
  if (kind == 0) s.createClassicalCombischeme(); else s.createAdaptiveCombischeme();
  int ft = cfg("ft", 0) ? vf_choice("ft", 0, 1) : 0;
  auto before = s.getCombiSpaces(); auto cbefore = s.getCoeffs();
  if (ft) s.makeFaultTolerant();
  const auto& G = s.getCombiSpaces(); const auto& C = s.getCoeffs();
  vf_assert_eq_i((int64_t)G.size(), (int64_t)C.size(), "C05: one coefficient per grid");
  if (G.size() != C.size()) return;
  vf_assert(!G.empty(), "C05: the scheme is not empty");
  // the minimum level that applies: classical raises it to the common refinement depth
  std::vector<int> lo(dim), depth(dim);
  const int n = kind == 0 ? m : M;
  for (int d = 0; d < dim; ++d) lo[d] = kind == 0 ? (diff[d] ? lmax[d] - m : lmax[d]) : lmin[d];
  for (size_t i = 0; i < G.size(); ++i) {
    vf_assert_eq_i((int64_t)G[i].size(), dim, "C05: dimension of a grid");
    bool in = leq(G[i], lmax); for (int d = 0; d < dim; ++d) in = in && G[i][d] >= lmin[d] && G[i][d] >= (ft ? 1 : lo[d]);
    vf_assert(in, "C05: grid between minimum and maximum level");
    for (size_t j = 0; j < i; ++j) vf_assert(!(G[i] == G[j]), "C05: grids are distinct");
    vf_assert_eq_i((int64_t)C[i], (int64_t)(C[i] >= 0 ? C[i] + 0.25 : C[i] - 0.25), "C05: integer coefficient");
    if (!ft) vf_assert(C[i] != 0., "C05: no grid without contribution");
  }
  if (ft) for (size_t i = 0; i < before.size(); ++i) vf_assert(G[i] == before[i] && C[i] == cbefore[i], "C05: fault tolerance keeps the scheme");
  if (ft) for (size_t i = before.size(); i < G.size(); ++i) vf_assert(C[i] == 0., "C05: fault tolerance grids have no weight yet");
  // any subspace (symbolic level vector; evaluated without branches so that the solver decides it for all of them at once)
  std::vector<int> L(dim); for (int d = 0; d < dim; ++d) L[d] = vf_int(nm("L", d).c_str(), 1, lmax[d] + 1);
  auto below = [&](const LevelVector& g) { int in = 1; for (int d = 0; d < dim; ++d) in &= (int)(L[d] <= g[d]); return in; };
  int ex = 0; for (int d = 0; d < dim; ++d) { int t = L[d] - lo[d]; ex += t & ~(t >> 31); }
  const int expect = (int)(ex <= n) & below(lmax);
  int sum = 0, cov = 0;
  for (size_t i = 0; i < G.size(); ++i) { int in = below(G[i]); sum += in * (int)C[i]; cov |= in & (int)(C[i] != 0.); }
  vf_assert_eq_i(cov, expect, "C05: exactly the subspaces of the scheme are covered");
  vf_assert_eq_i(sum, expect, "C05: coefficients of the grids containing a subspace sum to one");
  // the set of covered subspaces as reported
  auto check = [&](const std::vector<LevelVector>& D) {
    int mem = 0;
    for (size_t i = 0; i < D.size(); ++i) {
      vf_assert((int)D[i].size() == dim, "C05: dimension of a subspace in the down set");
      int eq = 1; for (int d = 0; d < dim; ++d) eq &= (int)(L[d] == D[i][d]);
      mem |= eq;
      bool in = leq(D[i], lmax); for (int d = 0; d < dim; ++d) in = in && D[i][d] >= 1; vf_assert(in, "C05: down set within the bounds");
      if (i) vf_assert(std::lexicographical_compare(D[i - 1].begin(), D[i - 1].end(), D[i].begin(), D[i].end()), "C05: down set sorted and distinct");
    }
    vf_assert_eq_i(mem, expect, "C05: down set holds exactly the covered subspaces");
  };
  check(s.getDownSet());
  s.createDownSet(); check(s.getDownSet());
  (void)dummy;
  vf_cover("C05 done");
}
void vf_main() { run(); }
