// C07: adding component grids to a sparse grid and extracting them again, with any set of subspaces allocated.
#include "common.hpp"
#include "fullgrid/DistributedFullGrid.hpp"
#include "sparsegrid/DistributedSparseGridUniform.hpp"
using namespace combigrid;
using namespace vfh;
template <class V> static V val(const char* n, int64_t i);
template <> double val<double>(const char* n, int64_t i) { return vf_double_i(n, i, -64, 64); }
template <> float val<float>(const char* n, int64_t i) { return (float)((i * 7 + n[0]) % 23 - 11); }
template <> std::complex<double> val<std::complex<double>>(const char* n, int64_t i) { return {vf_double_i(n, 2 * i, -64, 64), vf_double_i(n, 2 * i + 1, -64, 64)}; }
static void eq(double a, double b, const char* l) { vf_assert_eq_d(a, b, l); }
static void eq(float a, float b, const char* l) { vf_assert_eq_d(a, b, l); }
static void eq(std::complex<double> a, std::complex<double> b, const char* l) { vf_assert_eq_d(a.real(), b.real(), l); vf_assert_eq_d(a.imag(), b.imag(), l); }

template <class V> static void run() {
  Shape s = chooseShape(); const int dim = s.dim;
  chooseDecomposition(s);
  std::vector<int> la(dim), lb(dim);
  for (int d = 0; d < dim; ++d) { la[d] = choicei("la", d, 1, s.level[d]); lb[d] = choicei("lb", d, 1, s.level[d]); }
  Shape A = derivedShape(s, la), B = derivedShape(s, lb);
  if (hasEmptyPart(A) || hasEmptyPart(B)) vf_stop();
  auto dec = [](const Shape& x) { std::vector<IndexVector> r; for (auto& y : x.dec) r.push_back(IndexVector(y.begin(), y.end())); return r; };
  std::vector<BoundaryType> bd(s.bdry.begin(), s.bdry.end());
  MPI_Comm comm = cartComm(s.procs);
  auto mkgrid = [&](const Shape& x) { return OwningDistributedFullGrid<V>((DimType)dim, LevelVector(x.level.begin(), x.level.end()), comm, bd, s.procs, false, dec(x)); };
  auto ga = mkgrid(A), gb = mkgrid(B), ca = mkgrid(A), cb = mkgrid(B);
  const auto myc = cartCoords(s, ga.getRank());
  auto pa = localPoints(A, myc), pb = localPoints(B, myc);
  vf_assert_eq_i(ga.getNrLocalElements(), (int64_t)pa.size(), "C07: local size"); vf_assert_eq_i(gb.getNrLocalElements(), (int64_t)pb.size(), "C07: local size");
  std::map<PointId, V> va, vb;
  for (size_t i = 0; i < pa.size(); ++i) { V x = val<V>("a", A.lin(pa[i])); ga.getData()[i] = x; va[pointId(A, pa[i])] = x; }
  for (size_t i = 0; i < pb.size(); ++i) { V x = val<V>("b", B.lin(pb[i])); gb.getData()[i] = x; vb[pointId(B, pb[i])] = x; }

  // the sparse grid: the truncated set between lmin and the reference level, or an arbitrary set of levels
  std::vector<LevelVector> all;
  { std::vector<int> l(dim, 1); for (;;) { all.push_back(LevelVector(l.begin(), l.end())); int d = dim - 1; while (d >= 0 && l[d] == s.level[d]) l[d--] = 1; if (d < 0) break; ++l[d]; } }
  std::vector<LevelVector> levels;
  const int sg = cfg("sg", 0);
  std::unique_ptr<DistributedSparseGridUniform<V>> dsg;
  if (sg == 0) {
    LevelVector lmin(dim), lmax(s.level.begin(), s.level.end());
    for (int d = 0; d < dim; ++d) lmin[d] = (LevelType)choicei("lmin", d, 1, s.level[d]);
    dsg.reset(new DistributedSparseGridUniform<V>((DimType)dim, lmax, lmin, comm));
  } else {
    int mask = vf_choice("levels", 1, (1 << all.size()) - 1);
    for (size_t i = 0; i < all.size(); ++i) if (mask >> i & 1) levels.push_back(all[i]);
    dsg.reset(new DistributedSparseGridUniform<V>((DimType)dim, levels, comm));
  }
  levels = dsg->getAllLevelVectors();
  vf_assert_eq_i(dsg->getNumSubspaces(), (int64_t)levels.size(), "C07: number of subspaces");
  dsg->registerDistributedFullGrid(ga); dsg->registerDistributedFullGrid(gb);
  auto leq = [&](const LevelVector& l, const std::vector<int>& g) { for (int d = 0; d < dim; ++d) if (l[d] > g[d]) return false; return true; };
  std::map<std::vector<int>, int> idx; long total = 0;
  for (size_t i = 0; i < levels.size(); ++i) {
    std::vector<int> k(levels[i].begin(), levels[i].end()); idx[k] = (int)i;
    long n = 0; auto& pts = leq(levels[i], la) ? va : vb;
    if (leq(levels[i], la) || leq(levels[i], lb)) for (auto& p : pts) n += p.first.lev == k;
    vf_assert_eq_i(dsg->getDataSize((int)i), n, "C07: registered size of a subspace"); total += n;
    vf_assert_eq_i(dsg->getIndex(levels[i]), (int64_t)i, "C07: index of a level");
  }
  for (auto& l : all) { std::vector<int> k(l.begin(), l.end()); if (!idx.count(k)) vf_assert_eq_i(dsg->getIndex(l), -1, "C07: level that is not in the sparse grid"); }
  vf_assert_eq_i((int64_t)dsg->getAccumulatedDataSize(), total, "C07: accumulated size");

  std::set<AnyDistributedSparseGrid::SubspaceIndexType> held;
  const int partial = cfg("partial", 0);
  bool fulltmpl = true;
  if (partial) {
    int mask = vf_choice("alloc", 1, (1 << std::min<size_t>(levels.size(), 8)) - 1); long n = 0;
    for (size_t i = 0; i < levels.size(); ++i) if (mask >> i & 1) { held.insert((int)i); n += dsg->getDataSize((int)i); }
    if (n == 0) return;
    auto h = held; dsg->allocateDifferentSubspaces(std::move(h)); fulltmpl = false;
  } else {
    if (total == 0) return;
    for (size_t i = 0; i < levels.size(); ++i) held.insert((int)i);
    dsg->createSubspaceData();
    fulltmpl = vf_choice("tmpl", 0, 1) == 1;
  }
  for (size_t i = 0; i < levels.size(); ++i) {
    vf_assert(dsg->isSubspaceCurrentlyAllocated((int)i) == (held.count((int)i) > 0), "C07: allocated subspaces");
    vf_assert_eq_i(dsg->getAllocatedDataSize((int)i), held.count((int)i) ? dsg->getDataSize((int)i) : 0, "C07: allocated size");
  }
  auto add = [&](OwningDistributedFullGrid<V>& g, double c) { if (fulltmpl) dsg->addDistributedFullGrid(g, c); else dsg->template addDistributedFullGrid<false>(g, c); };
  auto isHeld = [&](const PointId& p) { auto it = idx.find(p.lev); return it != idx.end() && held.count(it->second) && dsg->getDataSize(it->second) > 0; };
  // extract into a copy of g and compare with ca*A + cb*B
  auto check = [&](DistributedSparseGridUniform<V>& from, OwningDistributedFullGrid<V>& into, const std::vector<std::vector<int>>& pts, const Shape& S, double fa, double fb, bool full, const char* what) {
    std::vector<V> old(pts.size()); size_t expect = 0;
    for (size_t i = 0; i < pts.size(); ++i) { old[i] = val<V>("c", i); into.getData()[i] = old[i]; }
    size_t n = full ? into.extractFromUniformSG(from) : into.template extractFromUniformSG<false>(from);
    for (size_t i = 0; i < pts.size(); ++i) {
      PointId p = pointId(S, pts[i]);
      if (!isHeld(p)) { eq(into.getData()[i], old[i], "C07: points of subspaces that are not held stay untouched"); continue; }
      ++expect; V e{}; auto x = va.find(p); if (x != va.end()) e += V(fa) * x->second; auto y = vb.find(p); if (y != vb.end()) e += V(fb) * y->second;
      eq(into.getData()[i], e, what);
    }
    vf_assert_eq_i((int64_t)n, (int64_t)expect, "C07: number of extracted points");
  };
  const double fa = vf_choice("fa", 0, 1) ? 1. : -2., fb = 3.;
  if (vf_choice("order", 0, 1)) { add(gb, fb); add(ga, fa); } else { add(ga, fa); add(gb, fb); }
  check(*dsg, ca, pa, A, fa, fb, fulltmpl, "C07: extracted value is the weighted sum (first grid)");
  check(*dsg, cb, pb, B, fa, fb, fulltmpl, "C07: extracted value is the weighted sum (second grid)");
  // copies of the data
  {
    DistributedSparseGridUniform<V> other((DimType)dim, levels, comm);
    other.registerDistributedFullGrid(ga); other.maxReduceSubspaceSizes(*dsg);
    other.createSubspaceData();
    for (size_t i = 0; i < levels.size(); ++i) vf_assert_eq_i(other.getDataSize((int)i), dsg->getDataSize((int)i), "C07: sizes taken over");
    if (vf_choice("copy", 0, 1)) other.copyDataFrom(*dsg);
    else other.copyDataFrom(*dsg, held);
    // all subspaces exist in the copy, those that were not held are zero
    for (size_t i = 0; i < levels.size(); ++i) if (!held.count((int)i)) for (size_t k = 0; k < other.getDataSize((int)i); ++k) eq(other.getData((int)i)[k], V(0.), "C07: copy leaves the rest zero");
    auto keep = held; for (size_t i = 0; i < levels.size(); ++i) held.insert((int)i);
    auto vaAll = va, vbAll = vb;  // subspaces that were not held contribute zero
    auto filter = [&](std::map<PointId, V>& m) { for (auto& kv : m) { auto it = idx.find(kv.first.lev); if (it == idx.end() || !keep.count(it->second)) kv.second = V(0.); } };
    filter(va); filter(vb);
    check(other, ca, pa, A, fa, fb, true, "C07: values of the copy");
    held = keep; va = vaAll; vb = vbAll;
  }
  dsg->setZero(); add(gb, fa);
  check(*dsg, cb, pb, B, 0., fa, fulltmpl, "C07: after reset only the new grid contributes");
  vf_cover("C07 done");
}
// the compensation terms of the summation must not survive a reset or re-allocation (concrete IEEE doubles)
template <class V> static void kahan() {
  const int dim = 1; Shape s; s.dim = 1; s.procs = {1}; s.bdry = {2}; s.level = {2}; s.n = {5}; s.dec = {{0}};
  MPI_Comm comm = cartComm(s.procs);
  OwningDistributedFullGrid<V> g((DimType)dim, LevelVector{2}, comm, std::vector<BoundaryType>{2}, s.procs, false, std::vector<IndexVector>{IndexVector{0}});
  DistributedSparseGridUniform<V> dsg((DimType)dim, LevelVector{2}, LevelVector{1}, comm);
  dsg.registerDistributedFullGrid(g); dsg.createSubspaceData();
  auto fill = [&](double x) { for (int i = 0; i < 5; ++i) g.getData()[i] = V(x); };
  fill(sizeof(V) == 4 ? 16777216. : 9007199254740992.); dsg.addDistributedFullGrid(g, 1.); fill(1.); dsg.addDistributedFullGrid(g, 1.);
  int how = vf_choice("how", 0, 3);
  if (how == 0) dsg.setZero();
  if (how == 1) { dsg.deleteSubspaceData(); dsg.createSubspaceData(); }
  if (how == 2) { std::set<AnyDistributedSparseGrid::SubspaceIndexType> a; for (int i = 0; i < dsg.getNumSubspaces(); ++i) a.insert(i); dsg.allocateDifferentSubspaces(std::move(a)); }
  if (how == 3) { dsg.createSubspaceData(); dsg.createKahanBuffer(); }
  fill(1.); dsg.addDistributedFullGrid(g, 1.);
  fill(0.); g.extractFromUniformSG(dsg);
  for (int i = 0; i < 5; ++i) eq(g.getData()[i], V(1.), "C07: nothing of earlier sums survives a reset");
  vf_cover("C07 kahan");
}
void vf_main() {
  MPI_Init(nullptr, nullptr);
  int k = cfg("kahan", 0), t = cfg("type", 0);
  if (k) { if (t == 0) kahan<double>(); else if (t == 1) kahan<std::complex<double>>(); else kahan<float>(); }
  else { if (t == 0) run<double>(); else if (t == 1) run<std::complex<double>>(); else run<float>(); }
  MPI_Finalize();
}
