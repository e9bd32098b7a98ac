// C08/C09: the whole combination step of the process group workers (hierarchize, reduce, distribute, dehierarchize).
#include <algorithm>
#include "common.hpp"
#include "combischeme/CombiMinMaxScheme.hpp"
#include "manager/ProcessGroupWorker.hpp"
#include "manager/InterpolationWorker.hpp"
using namespace combigrid;
using namespace vfh;
using T = double;
static std::vector<int> gProcs;
class GridTask : public Task<T> {
 public:
  GridTask(const LevelVector& l, const std::vector<BoundaryType>& b, real c, LoadModel* m) : Task<T>(l, b, c, m) {}
  void init(CommunicatorType comm, const std::vector<IndexVector>& dec) override { g_.reset(new OwningDistributedFullGrid<T>(getDim(), getLevelVector(), comm, getBoundary(), gProcs, false, dec)); }
  void run(CommunicatorType) override { setFinished(true); }
  DistributedFullGrid<T>& getDistributedFullGrid(size_t) override { return *g_; }
  const DistributedFullGrid<T>& getDistributedFullGrid(size_t) const override { return *g_; }
  void setZero() override { g_->setZero(); }
  std::unique_ptr<OwningDistributedFullGrid<T>> g_;
};
static std::unique_ptr<BasisFunctionBasis> basis(int k) {
  switch (k) { case 0: return std::unique_ptr<BasisFunctionBasis>(new HierarchicalHatBasisFunction()); case 1: return std::unique_ptr<BasisFunctionBasis>(new HierarchicalHatPeriodicBasisFunction());
    case 2: return std::unique_ptr<BasisFunctionBasis>(new FullWeightingBasisFunction()); case 3: return std::unique_ptr<BasisFunctionBasis>(new FullWeightingPeriodicBasisFunction());
    case 4: return std::unique_ptr<BasisFunctionBasis>(new BiorthogonalBasisFunction()); default: return std::unique_ptr<BasisFunctionBasis>(new BiorthogonalPeriodicBasisFunction()); }
}
static bool leq(const std::vector<int>& a, const LevelVector& b) { for (size_t d = 0; d < a.size(); ++d) if (a[d] > b[d]) return false; return true; }

void vf_main() {
  MPI_Init(nullptr, nullptr);
  const int what = cfg("what", 0), dim = cfg("dim", 1), G = cfg("G", 2), withMgr = 0; (void)withMgr;
  const int var = cfg("variant", -1) < 0 ? vf_choice("variant", 0, 3) : cfg("variant", 0);
  const CombinationVariant variant = var == 0 ? CombinationVariant::sparseGridReduce : var == 1 ? CombinationVariant::subspaceReduce : var == 2 ? CombinationVariant::outgroupSparseGridReduce : CombinationVariant::chunkedOutgroupSparseGridReduce;
  Shape fine; fine.dim = dim; fine.procs = procsFromConfig(dim); gProcs = fine.procs; int P = 1; for (int p : fine.procs) P *= p;
  int me; MPI_Comm_rank(MPI_COMM_WORLD, &me); const int group = me / P;
  theMPISystem()->initWorldReusable(MPI_COMM_WORLD, G, P, false, false);
  // sparse grid and component grids
  LevelVector lmin(dim), lmax(dim), red(dim); std::vector<BoundaryType> bdry(dim); fine.level.resize(dim); fine.bdry.resize(dim); fine.n.resize(dim);
  std::vector<int> bas(dim);
  for (int d = 0; d < dim; ++d) {
    fine.bdry[d] = cfgi("b", d, -1); if (fine.bdry[d] < 0) fine.bdry[d] = choicei("b", d, 0, 2);
    bdry[d] = (BoundaryType)fine.bdry[d]; lmin[d] = (LevelType)cfgi("lmin", d, 1); lmax[d] = (LevelType)cfgi("lmax", d, 3);
    red[d] = cfg("red", 0) ? (LevelType)choicei("red", d, 0, cfg("red", 0)) : 0;
    fine.level[d] = lmax[d]; fine.n[d] = npts(lmax[d], fine.bdry[d]); if (fine.n[d] < fine.procs[d]) vf_stop();
    bas[d] = cfgi("basis", d, -1); if (bas[d] < 0) bas[d] = fine.bdry[d] == 0 ? 0 : fine.bdry[d] == 1 ? 1 + 2 * choicei("basis", d, 0, 2) : 2 * choicei("basis", d, 0, 2);
  }
  std::vector<LevelVector> levels; std::vector<real> coeffs;
  if (what == 0 && cfg("tasks", 0)) {  // any grids, fixed coefficients
    const double cs[] = {1., -2., 3., 0.5, -1.};
    for (int t = 0; t < cfg("tasks", 0); ++t) { LevelVector l(dim); for (int d = 0; d < dim; ++d) l[d] = (LevelType)choicei("level", t * dim + d, lmin[d], lmax[d]); levels.push_back(l); coeffs.push_back(cs[t % 5]); }
  } else { CombiMinMaxScheme s((DimType)dim, lmin, lmax); s.createAdaptiveCombischeme(); levels = s.getCombiSpaces(); coeffs = s.getCoeffs(); }
  const int nt = (int)levels.size();
  chooseDecomposition(fine);
  std::vector<Shape> shapes; for (auto& l : levels) { shapes.push_back(derivedShape(fine, std::vector<int>(l.begin(), l.end()))); if (hasEmptyPart(shapes.back())) vf_stop(); }
  std::vector<int> owner(nt); int used = 0;
  for (int t = 0; t < nt; ++t) { owner[t] = cfg("assign", 1) ? choicei("group", t, 0, G - 1) : t % G; used |= 1 << owner[t]; }
  if (used != (1 << G) - 1) vf_stop();
  // the worker
  const uint32_t mib = (uint32_t)cfg("mib", 16);
  std::vector<size_t> ids; for (int t = 0; t < nt; ++t) ids.push_back(t);
  std::vector<bool> hdims(dim); for (int d = 0; d < dim; ++d) hdims[d] = what != 0;
  CombiParameters params((DimType)dim, lmin, lmax, bdry, levels, coeffs, hdims, ids, 1, 1, variant, LevelVector(dim, 0), red, mib, false);
  params.setParallelization(fine.procs);
  std::vector<std::unique_ptr<BasisFunctionBasis>> bs; std::vector<BasisFunctionBasis*> bp, bown; for (int d = 0; d < dim; ++d) { bs.push_back(basis(bas[d])); bp.push_back(bs.back().get()); bown.push_back(basis(bas[d]).release()); }
  params.setHierarchicalBases(bown);
  { std::vector<IndexVector> dec; for (auto& v : fine.dec) dec.push_back(IndexVector(v.begin(), v.end())); params.setDecomposition(dec); }
  {
  ProcessGroupWorker<T> w; w.setCombiParameters(std::move(params));
  std::vector<LevelVector> myL; std::vector<real> myC; std::vector<size_t> myT;
  for (int t = 0; t < nt; ++t) if (owner[t] == group) { myL.push_back(levels[t]); myC.push_back(coeffs[t]); myT.push_back(t); }
  w.template initializeAllTasks<GridTask>(myL, myC, myT, (LoadModel*)nullptr);
  w.initCombinedDSGVector();
  int lr; MPI_Comm_rank(theMPISystem()->getLocalComm(), &lr); const std::vector<int> coords = cartCoords(fine, lr);
  // which subspaces are combined: the truncated set of the reduced maximum level
  std::vector<LevelVector> sgLevels; { auto& dl = w.getCombinedDSGVector()[0]->getAllLevelVectors(); for (size_t i = 0; i < dl.size(); ++i) sgLevels.push_back(dl[i]); }
  auto inSG = [&](const std::vector<int>& l) { for (auto& s : sgLevels) { bool e = true; for (int d = 0; d < dim; ++d) e &= s[d] == l[d]; if (e) return true; } return false; };
  auto value = [&](int t, const std::vector<int>& v) { return vf_double_i("x", (int64_t)t * 10000 + shapes[t].lin(v), -64, 64); };
  auto& tasks = w.getTasks();
  vf_assert_eq_i((int64_t)tasks.size(), (int64_t)myT.size(), "C08: tasks of the group");
  auto at = [&](const Shape& s, const PointId& p) { std::vector<int> v(dim); for (int d = 0; d < dim; ++d) v[d] = (p.num[d] >> (20 - s.level[d])) - (s.bdry[d] == 0 ? 1 : 0); return v; };
  auto fill = [&](int t, DistributedFullGrid<T>& g, const std::vector<std::vector<int>>& pts, auto f) { vf_assert_eq_i((int64_t)g.getNrLocalElements(), (int64_t)pts.size(), "C08: local size"); for (size_t i = 0; i < pts.size(); ++i) g.getData()[i] = f(t, pts[i]); };
  std::vector<std::vector<std::vector<int>>> pts; for (size_t k = 0; k < tasks.size(); ++k) pts.push_back(localPoints(shapes[myT[k]], coords));
  const int rounds = cfg("rounds", 1);
  if (what == 0) {
    for (size_t k = 0; k < tasks.size(); ++k) fill((int)myT[k], tasks[k]->getDistributedFullGrid(0), pts[k], value);
    // expected values, computed from the definition
    std::vector<std::map<PointId, double>> cur(nt);
    for (int t = 0; t < nt; ++t) for (long i = 0; i < shapes[t].total(); ++i) { auto v = shapes[t].vec(i); if (ownerOf(shapes[t], v) == lr) cur[t][pointId(shapes[t], v)] = value(t, v); }
    for (int r = 0; r < rounds; ++r) {
      std::vector<std::map<PointId, double>> nxt(nt);
      for (int t = 0; t < nt; ++t) for (auto& kv : cur[t]) {
        if (!inSG(kv.first.lev)) { nxt[t][kv.first] = kv.second; continue; }
        double e = 0; for (int u = 0; u < nt; ++u) { auto it = cur[u].find(kv.first); if (it != cur[u].end()) e += coeffs[u] * it->second; }
        nxt[t][kv.first] = e;
      }
      if (cfg("split", 0)) {  // reduce, then distribute; in between, a grid that joins the group later is filled from the sparse grid
        if (var == 3) vf_stop();
        w.combineSystemWide();
        if (var == 0) {
          LevelVector l(dim); for (int d = 0; d < dim; ++d) l[d] = (LevelType)choicei("new", d, 1, lmax[d]);
          Shape s = derivedShape(fine, std::vector<int>(l.begin(), l.end())); if (hasEmptyPart(s)) vf_stop();
          GridTask late(l, bdry, 1., nullptr); std::vector<IndexVector> dec; for (auto& v : s.dec) dec.push_back(IndexVector(v.begin(), v.end())); late.init(theMPISystem()->getLocalComm(), dec); late.setZero();
          const_cast<const ProcessGroupWorker<T>&>(w).getSparseGridWorker().fillDFGFromDSGU(late, hdims, bp, lmin); auto lp = localPoints(s, coords);
          for (size_t i = 0; i < lp.size(); ++i) { PointId id = pointId(s, lp[i]); double e = 0; if (inSG(id.lev)) for (int u = 0; u < nt; ++u) { auto it = cur[u].find(id); if (it != cur[u].end()) e += coeffs[u] * it->second; } vf_assert_eq_d(late.g_->getData()[i], e, "C08: a grid filled from the sparse grid"); }
        }
        w.updateFullFromCombinedSparseGrids();
      } else w.combineAtOnce(cfg("minmax", 0));
      for (size_t k = 0; k < tasks.size(); ++k) { const Shape& s = shapes[myT[k]]; auto& g = tasks[k]->getDistributedFullGrid(0);
        for (size_t i = 0; i < pts[k].size(); ++i) vf_assert_eq_d(g.getData()[i], nxt[myT[k]][pointId(s, pts[k][i])], "C08: combined hierarchical coefficient"); }
      cur = nxt;
    }
    vf_cover("C08 combined");
  } else if (what == 1) {  // the same function on all grids: common hierarchical coefficients, dehierarchized
    auto common = [&](int t, const std::vector<int>& v) { PointId p = pointId(shapes[t], v); int64_t key = 0; for (int d = 0; d < dim; ++d) key = key * 64 + (p.num[d] >> (20 - lmax[d])); return vf_double_i("a", key, -64, 64); };
    LevelVector lm = lmin; if (std::any_of(bdry.begin(), bdry.end(), [](BoundaryType b) { return b == 0; })) lm = LevelVector(dim, 0);
    std::vector<std::vector<double>> before(tasks.size());
    for (size_t k = 0; k < tasks.size(); ++k) { auto& g = tasks[k]->getDistributedFullGrid(0); fill((int)myT[k], g, pts[k], common); DistributedHierarchization::dehierarchizeDFG(g, hdims, bp, lm); for (size_t i = 0; i < pts[k].size(); ++i) before[k].push_back(g.getData()[i]); }
    for (int r = 0; r < rounds; ++r) { w.combineAtOnce(); for (size_t k = 0; k < tasks.size(); ++k) for (size_t i = 0; i < pts[k].size(); ++i) vf_assert_eq_d(tasks[k]->getDistributedFullGrid(0).getData()[i], before[k][i], "C09: a common function is preserved"); }
    vf_cover("C09 common");
  } else if (what == 3) {  // C10: with mass conserving bases, every grid has the weighted sum of the masses afterwards
    auto mass = [&](const Shape& s, auto f) { double m = 0; for (long i = 0; i < s.total(); ++i) { auto v = s.vec(i); if (ownerOf(s, v) != lr) continue; double w = 1; for (int d = 0; d < dim; ++d) { w /= 1 << s.level[d]; if (s.bdry[d] == 2 && (v[d] == 0 || v[d] == s.n[d] - 1)) w *= 0.5; } m += w * f(v); } return m; };
    for (int d = 0; d < dim; ++d) if (bas[d] < 2) vf_stop();
    for (size_t k = 0; k < tasks.size(); ++k) fill((int)myT[k], tasks[k]->getDistributedFullGrid(0), pts[k], value);
    double want = 0, w1 = 0; for (int t = 0; t < nt; ++t) w1 += coeffs[t] * mass(shapes[t], [&](const std::vector<int>& v) { return value(t, v); });
    MPI_Allreduce(&w1, &want, 1, MPI_DOUBLE, MPI_SUM, theMPISystem()->getLocalComm());
    w.combineAtOnce();
    for (size_t k = 0; k < tasks.size(); ++k) { const Shape& s = shapes[myT[k]]; std::map<long, double> cur; for (size_t i = 0; i < pts[k].size(); ++i) cur[s.lin(pts[k][i])] = tasks[k]->getDistributedFullGrid(0).getData()[i];
      double m = mass(s, [&](const std::vector<int>& v) { return cur[s.lin(v)]; }), got = 0; MPI_Allreduce(&m, &got, 1, MPI_DOUBLE, MPI_SUM, theMPISystem()->getLocalComm()); vf_assert_eq_d(got, want, "C10: mass after the combination"); }
    vf_cover("C10 combined");
  } else if (what == 4) {  // C11: interpolation on all grids, weighted with the combination coefficients, on every process
    for (size_t k = 0; k < tasks.size(); ++k) fill((int)myT[k], tasks[k]->getDistributedFullGrid(0), pts[k], value);
    const int nc = cfg("coords", 1); std::vector<std::vector<real>> xs; std::vector<double> want;
    for (int c = 0; c < nc; ++c) {
      std::vector<real> x(dim); std::vector<int> cell(dim); std::vector<double> tt(dim); double e = 0;
      for (int d = 0; d < dim; ++d) { const int N = 1 << lmax[d]; cell[d] = choicei("cell", c * dim + d, 0, N - 1); tt[d] = c == 0 ? vf_real(nm("t", d).c_str(), 0, 1) : 0.25; x[d] = (cell[d] + tt[d]) / N; }
      for (int t = 0; t < nt; ++t) { const Shape& s = shapes[t]; for (long i = 0; i < s.total(); ++i) { auto v = s.vec(i); double f = 1;
          for (int d = 0; d < dim; ++d) { const int sh = lmax[d] - s.level[d], cc = cell[d] >> sh, N = 1 << s.level[d]; const double u = ((cell[d] - (cc << sh)) + tt[d]) / (1 << sh); int lo = cc - (s.bdry[d] == 0 ? 1 : 0), hi = s.bdry[d] == 1 && cc + 1 == N ? 0 : lo + 1; f *= v[d] == lo ? 1. - u : v[d] == hi ? u : 0.; }
          e += coeffs[t] * f * value(t, v); } }
      xs.push_back(x); want.push_back(e);
    }
    auto r = interpolateValues<T, T>(tasks, xs); vf_assert_eq_i((int64_t)r.size(), nc, "C11: number of values");
    for (int c = 0; c < nc; ++c) vf_assert_eq_d(r[c], want[c], "C11: value of the combined solution");
    vf_cover("C11 combined");
  } else {  // arbitrary data: the second combination changes nothing
    for (size_t k = 0; k < tasks.size(); ++k) fill((int)myT[k], tasks[k]->getDistributedFullGrid(0), pts[k], value);
    if (cfg("split", 0) && var != 3) { w.combineSystemWide(); w.updateFullFromCombinedSparseGrids(); } else w.combineAtOnce();
    std::vector<std::vector<double>> before(tasks.size()); for (size_t k = 0; k < tasks.size(); ++k) for (size_t i = 0; i < pts[k].size(); ++i) before[k].push_back(tasks[k]->getDistributedFullGrid(0).getData()[i]);
    w.combineAtOnce();
    for (size_t k = 0; k < tasks.size(); ++k) for (size_t i = 0; i < pts[k].size(); ++i) vf_assert_eq_d(tasks[k]->getDistributedFullGrid(0).getData()[i], before[k][i], "C09: combining again changes nothing");
    // grids agree wherever they share a point of the coarsest hierarchy: common function
    vf_cover("C09 again");
  }
  }
  MPI_Finalize();
}
