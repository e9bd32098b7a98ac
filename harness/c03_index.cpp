// C03: ownership of grid points and index conversions of DistributedFullGrid.
#include "common.hpp"
#include "fullgrid/DistributedFullGrid.hpp"
using namespace combigrid;
using namespace vfh;
static void run() {
  Shape s = chooseShape();
  const int dim = s.dim;
  const int mode = cfg("dec", 1);  // 1: arbitrary decomposition, 0/2: default decomposition (backward/forward)
  std::vector<IndexVector> decomp;
  if (mode == 1) { chooseDecomposition(s); for (auto& x : s.dec) decomp.push_back(IndexVector(x.begin(), x.end())); }
  LevelVector levels(s.level.begin(), s.level.end());
  std::vector<BoundaryType> bd(s.bdry.begin(), s.bdry.end());
  MPI_Comm comm = cartComm(s.procs);
  OwningDistributedFullGrid<double> dfg((DimType)dim, levels, comm, bd, s.procs, mode == 2, decomp);
  const int me = dfg.getRank(); const auto myc = cartCoords(s, me);
  if (mode != 1) {
    // the default decomposition: one non-empty interval per process, sizes differing by at most one
    s.dec.assign(dim, {});
    for (int d = 0; d < dim; ++d) {
      const auto& x = dfg.getDecomposition()[d];
      vf_assert_eq_i((int64_t)x.size(), s.procs[d], "C03: one interval per process and dimension");
      vf_assert_eq_i(x[0], 0, "C03: the decomposition starts at the first point");
      int mn = 1 << 30, mx = 0;
      for (int c = 0; c < s.procs[d]; ++c) { int w = (c + 1 < s.procs[d] ? x[c + 1] : s.n[d]) - x[c]; mn = std::min(mn, w); mx = std::max(mx, w); s.dec[d].push_back(x[c]); }
      vf_assert(mn >= 1 && mx - mn <= 1, "C03: default decomposition is balanced and leaves no process empty");
    }
  }
  vf_assert_eq_i(dfg.getNrElements(), s.total(), "C03: global number of points");
  long nl = 1;
  for (int d = 0; d < dim; ++d) {
    vf_assert_eq_i(dfg.getGlobalSizes()[d], s.n[d], "C03: global extent");
    vf_assert_eq_i(dfg.getLowerBounds()[d], s.lo(d, myc[d]), "C03: own lower bound");
    vf_assert_eq_i(dfg.getUpperBounds()[d], s.hi(d, myc[d]), "C03: own upper bound");
    vf_assert_eq_i(dfg.getLocalSizes()[d], s.hi(d, myc[d]) - s.lo(d, myc[d]), "C03: local extent");
    vf_assert_eq_i(dfg.getFirstGlobal1dIndex(d), s.lo(d, myc[d]), "C03: first 1d index");
    vf_assert_eq_i(dfg.getLastGlobal1dIndex(d), s.hi(d, myc[d]) - 1, "C03: last 1d index");
    double h = 1.0 / (1 << s.level[d]); int sh = s.bdry[d] ? 0 : 1;
    vf_assert_eq_d(dfg.getLowerBoundsCoord(d), (s.lo(d, myc[d]) + sh) * h, "C03: lower bound coordinate");
    vf_assert_eq_d(dfg.getUpperBoundsCoords()[d], (s.hi(d, myc[d]) + sh) * h, "C03: upper bound coordinate");
    vf_assert_eq_d(dfg.getGridSpacing()[d] * dfg.getInverseGridSpacingIn(d), 1., "C03: grid spacing");
    vf_assert_eq_d(dfg.getGridSpacing()[d], h, "C03: grid spacing is 2^-l");
    nl *= s.hi(d, myc[d]) - s.lo(d, myc[d]);
  }
  vf_assert_eq_i(dfg.getNrLocalElements(), nl, "C03: number of local points");
  for (int r = 0; r < vf_nranks(); ++r) {
    auto c = cartCoords(s, r);
    auto lb = dfg.getLowerBounds(r); auto ub = dfg.getUpperBounds(r); auto pc = dfg.getCartesianUtils().getPartitionCoordsOfRank(r);
    auto ubc = dfg.getUpperBoundsCoords(r);
    for (int d = 0; d < dim; ++d) {
      vf_assert_eq_i(lb[d], s.lo(d, c[d]), "C03: lower bound of another process"); vf_assert_eq_i(ub[d], s.hi(d, c[d]), "C03: upper bound of another process"); vf_assert_eq_i(pc[d], c[d], "C03: partition coordinates of rank");
      vf_assert_eq_d(ubc[d], (s.hi(d, c[d]) + (s.bdry[d] ? 0 : 1)) / double(1 << s.level[d]), "C03: upper bound coordinate of another process");
    }
    vf_assert_eq_i(dfg.getCartesianUtils().getRankFromPartitionCoords(c), r, "C03: rank of partition coordinates");
  }
  for (int d = 0; d < dim; ++d) {
    auto nb = dfg.getCartesianUtils().getAllMyPoleNeighborRanks(d);
    size_t k = 0;
    for (int c = 0; c < s.procs[d]; ++c) { if (c == myc[d]) continue; auto q = myc; q[d] = c; vf_assert(k < nb.size() && nb[k] == cartRank(s, q), "C03: pole neighbours"); ++k; }
    vf_assert_eq_i((int64_t)nb.size(), (int64_t)k, "C03: number of pole neighbours");
    vf_assert(dfg.getCartesianUtils().isOnLowerBoundaryInDimension(d) == (myc[d] == 0), "C03: lower boundary process");
    vf_assert(dfg.getCartesianUtils().isOnUpperBoundaryInDimension(d) == (myc[d] == s.procs[d] - 1), "C03: upper boundary process");
  }
  // ---- an arbitrary local point
  if (vf_choice("part", 0, 1) == 0) {
    // symbolic all the way (cfg sym) or split into cases by the solver
    int li = cfg("sym", 0) ? vf_int("li", 0, 1 << 20) : vf_choice("li", 0, (int)s.total() - 1); if (!(li < nl)) return;
    IndexVector lv(dim), gv(dim), lv2(dim);
    dfg.getLocalVectorIndex(li, lv);
    vf_assert_eq_i(dfg.getLocalLinearIndex(lv), li, "C03: local linear -> vector -> linear");
    dfg.getGlobalVectorIndex(lv, gv);
    for (int d = 0; d < dim; ++d) vf_assert(gv[d] >= s.lo(d, myc[d]) && gv[d] < s.hi(d, myc[d]), "C03: local point lies in the own box");
    IndexType gl = dfg.getGlobalLinearIndex((IndexType)li);
    vf_assert_eq_i(gl, dfg.getGlobalLinearIndex(gv), "C03: local -> global linear index agrees with vector index");
    bool here = dfg.getLocalVectorIndex(gv, lv2);
    vf_assert(here, "C03: own point is found locally");
    if (here) for (int d = 0; d < dim; ++d) vf_assert_eq_i(lv2[d], lv[d], "C03: global -> local vector index");
    vf_assert_eq_i(dfg.getLocalLinearIndex(gl), li, "C03: global linear -> local linear index");
    std::vector<double> cl, cg; dfg.getCoordsLocal(li, cl); dfg.getCoordsGlobal(gl, cg);
    for (int d = 0; d < dim; ++d) vf_assert_eq_d(cl[d], cg[d], "C03: local coordinates agree with global ones");
    auto ob = dfg.isLocalLinearIndexOnBoundary(li), og = dfg.isGlobalLinearIndexOnBoundary(gl);
    for (int d = 0; d < dim; ++d) vf_assert(ob[d] == og[d], "C03: boundary membership local == global");
    vf_cover("C03 local");
  }
  // ---- an arbitrary global point
  else {
    int g = vf_choice("g", 0, (int)s.total() - 1);
    auto v = s.vec(g);
    IndexVector gv(dim), lv(dim);
    dfg.getGlobalVectorIndex((IndexType)g, gv);
    for (int d = 0; d < dim; ++d) vf_assert_eq_i(gv[d], v[d], "C03: global linear -> vector index");
    vf_assert_eq_i(dfg.getGlobalLinearIndex(gv), g, "C03: global vector -> linear index");
    int own = ownerOf(s, v); bool mine = own == me;
    vf_assert(dfg.isGlobalIndexHere(gv) == mine, "C03: exactly the owner has the point (vector)");
    vf_assert(dfg.isGlobalIndexHere((IndexType)g) == mine, "C03: exactly the owner has the point (linear)");
    vf_assert(dfg.getLocalVectorIndex(gv, lv) == mine, "C03: local vector index exists exactly on the owner");
    if (!mine) vf_assert(dfg.getLocalLinearIndex((IndexType)g) < 0, "C03: no local index for a point of another process");
    std::vector<int> pc; dfg.getPartitionCoords(gv, pc);
    for (int d = 0; d < dim; ++d) vf_assert_eq_i(pc[d], ownerCoord(s, d, v[d]), "C03: partition coordinates of a point");
    LevelVector lev; IndexVector ind; dfg.getGlobalLI((IndexType)g, lev, ind);
    std::vector<double> co; dfg.getCoordsGlobal((IndexType)g, co);
    auto ob = dfg.isGlobalLinearIndexOnBoundary((IndexType)g);
    for (int d = 0; d < dim; ++d) {
      auto q = myc; q[d] = ownerCoord(s, d, v[d]);
      vf_assert_eq_i(dfg.getNeighbor1dFromAxisIndex(d, v[d]), cartRank(s, q), "C03: owner along one dimension");
      int x = s.pos(d, v[d]), N = 1 << s.level[d];
      vf_assert_eq_d(co[d], double(x) / N, "C03: coordinate of a point");
      vf_assert_eq_i(dfg.getLevel(d, v[d]), levelOf(x, s.level[d]), "C03: hierarchical level of a 1d index");
      vf_assert_eq_i(lev[d], levelOf(x, s.level[d]), "C03: level in level/index notation");
      vf_assert_eq_d(ind[d] / double(1 << lev[d]), double(x) / N, "C03: level/index notation describes the point");
      vf_assert(ob[d] == (s.bdry[d] == 2 && (x == 0 || x == N)), "C03: boundary membership");
      // hierarchical parents
      int l = levelOf(x, s.level[d]), hh = 1 << (s.level[d] - l), sh = s.bdry[d] ? 0 : 1;
      int L = l == 0 ? -1 : x - hh - sh, R = l == 0 ? -1 : x + hh - sh;
      if (s.bdry[d] == 0 && l > 0) { if (x - hh == 0) L = -1; if (x + hh == N) R = -1; }
      vf_assert_eq_i(dfg.getLeftPredecessor(d, v[d]), L, "C03: left hierarchical predecessor");
      vf_assert_eq_i(dfg.getRightPredecessor(d, v[d]), R, "C03: right hierarchical predecessor");
      vf_assert_eq_i(dfg.getNeighbor1dFromAxisIndex(d, -1), -1, "C03: no owner below the domain");
      vf_assert_eq_i(dfg.getNeighbor1dFromAxisIndex(d, s.n[d]), -1, "C03: no owner above the domain");
    }
    vf_cover("C03 global");
  }
}
void vf_main() { MPI_Init(nullptr, nullptr); run(); MPI_Finalize(); }
