// C04: the hierarchical subspaces partition the local points of every grid on every process.
#include "common.hpp"
#include "fullgrid/DistributedFullGrid.hpp"
using namespace combigrid;
using namespace vfh;
static void run() {
  Shape s = chooseShape(); const int dim = s.dim;
  chooseDecomposition(s);
  std::vector<IndexVector> decomp; for (auto& x : s.dec) decomp.push_back(IndexVector(x.begin(), x.end()));
  LevelVector levels(s.level.begin(), s.level.end()); std::vector<BoundaryType> bd(s.bdry.begin(), s.bdry.end());
  OwningDistributedFullGrid<double> dfg((DimType)dim, levels, cartComm(s.procs), bd, s.procs, false, decomp);
  const auto myc = cartCoords(s, dfg.getRank()); const long nl = dfg.getNrLocalElements();
  std::vector<int> seen(nl, 0);
  std::vector<int> n(dim); long all = 1; for (int d = 0; d < dim; ++d) { n[d] = s.level[d] + 1; all *= n[d]; }
  long listed = 0;
  for (long k = 0; k < all; ++k) {  // every level up to one above the grid
    LevelVector l(dim); long r = k; bool inside = true;
    for (int d = 0; d < dim; ++d) { l[d] = (LevelType)(1 + r % n[d]); r /= n[d]; inside = inside && l[d] <= s.level[d]; }
    auto pts = dfg.getFGPointsOfSubspace(l);
    if (!inside) { vf_assert(pts.empty(), "C04: no points for a subspace finer than the grid"); continue; }
    long prod = 1; for (int d = 0; d < dim; ++d) prod *= dfg.getNumPointsOnThisPartition(l[d], (DimType)d);
    vf_assert_eq_i((int64_t)pts.size(), prod, "C04: reported number of points equals the listed ones");
    for (auto p : pts) {
      bool ok = p >= 0 && p < nl; vf_assert(ok, "C04: listed point is a local point"); if (!ok) return;
      vf_assert_eq_i(seen[p]++, 0, "C04: no point in two subspaces"); ++listed;
      long q = p;
      for (int d = 0; d < dim; ++d) {
        int w = s.hi(d, myc[d]) - s.lo(d, myc[d]), i = (int)(q % w) + s.lo(d, myc[d]); q /= w;
        vf_assert_eq_i(std::max(1, s.lev(d, i)), l[d], "C04: the point has the level of its subspace");
      }
    }
  }
  vf_assert_eq_i(listed, nl, "C04: every local point is in a subspace");
  for (int d = 0; d < dim; ++d) for (int l = 1; l <= s.level[d]; ++l) {  // partition sums to the whole axis
    IndexVector idx; dfg.get1dIndicesLocal((DimType)d, (LevelType)l, idx);
    vf_assert_eq_i((int64_t)idx.size(), dfg.getNumPointsOnThisPartition((LevelType)l, (DimType)d), "C04: 1d count");
    int cnt = 0; for (int i = s.lo(d, myc[d]); i < s.hi(d, myc[d]); ++i) cnt += std::max(1, s.lev(d, i)) == l;
    vf_assert_eq_i((int64_t)idx.size(), cnt, "C04: 1d count equals the definition");
  }
  // an arbitrary local point is found in the subspace of its own level
  int li = vf_choice("li", 0, (int)s.total() - 1); if (li >= nl) return;
  LevelVector l(dim); long q = li;
  for (int d = 0; d < dim; ++d) { int w = s.hi(d, myc[d]) - s.lo(d, myc[d]); l[d] = (LevelType)std::max(1, s.lev(d, (int)(q % w) + s.lo(d, myc[d]))); q /= w; }
  auto pts = dfg.getFGPointsOfSubspace(l);
  vf_assert(std::find(pts.begin(), pts.end(), (IndexType)li) != pts.end(), "C04: point is listed in the subspace of its level");
  vf_cover("C04 done");
}
void vf_main() { MPI_Init(nullptr, nullptr); run(); MPI_Finalize(); }
