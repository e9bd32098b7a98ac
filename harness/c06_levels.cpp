// C06: level sets and degree-of-freedom counts against their definitions.
#include "common.hpp"
#include "combischeme/CombiMinMaxScheme.hpp"
using namespace combigrid;
using namespace vfh;
static LevelVector pickLevel(int dim, const char* name, int lo, int hi) { LevelVector l(dim); for (int d = 0; d < dim; ++d) l[d] = (LevelType)choicei(name, d, lo, hi); return l; }
static std::vector<int> probe(int dim, int hi) { std::vector<int> L(dim); for (int d = 0; d < dim; ++d) L[d] = vf_int(nm("L", d).c_str(), 1, hi); return L; }
static int below(const std::vector<int>& L, const LevelVector& g) { int in = 1; for (size_t d = 0; d < L.size(); ++d) in &= (int)(L[d] <= g[d]); return in; }
static int member(const std::vector<int>& L, const std::vector<LevelVector>& D) {
  int mem = 0; for (auto& x : D) { int eq = 1; for (size_t d = 0; d < L.size(); ++d) eq &= (int)(L[d] == x[d]); mem |= eq; } return mem;
}
static void sortedDistinct(const std::vector<LevelVector>& D, int dim) {
  for (size_t i = 0; i < D.size(); ++i) {
    vf_assert((int)D[i].size() == dim, "C06: dimension of the entries");
    if (i) vf_assert(std::lexicographical_compare(D[i - 1].begin(), D[i - 1].end(), D[i].begin(), D[i].end()), "C06: lexicographic order, each level once");
    for (auto x : D[i]) vf_assert(x >= 1, "C06: levels start at one");
  }
}
static void downset() {
  const int dim = cfg("dim", 2); LevelVector l = pickLevel(dim, "l", 1, cfg("hi", 3));
  auto D = getDownSet(l); sortedDistinct(D, dim);
  auto L = probe(dim, cfg("hi", 3) + 1);
  vf_assert_eq_i(member(L, D), below(L, l), "C06: the down set holds exactly the levels below");
  HypercubeDownSetGenerator g(l);
  vf_assert_eq_i(g.getTotalNumberOfLevels(), (int64_t)D.size(), "C06: number of levels in the down set");
  for (size_t i = 0; i < D.size(); ++i) vf_assert(g.getNextLevel() == D[i], "C06: the generator produces the down set in order");
  vf_cover("C06 downset");
}
static void truncated() {
  const int dim = cfg("dim", 2); LevelVector lmin = pickLevel(dim, "lmin", 1, cfg("lminhi", 2)), lmax(dim); int m = 1 << 20, M = 0, nz = 1 << 20;
  for (int d = 0; d < dim; ++d) { int df = choicei("diff", d, 0, cfg("diffhi", 3)); lmax[d] = (LevelType)(lmin[d] + df); m = std::min(m, df); M = std::max(M, df); if (df) nz = std::min(nz, df); }
  std::vector<LevelVector> T; createTruncatedHierarchicalLevels(lmax, lmin, T); sortedDistinct(T, dim);
  auto L = probe(dim, cfg("lminhi", 2) + cfg("diffhi", 3) + 1);
  int ex = 0; for (int d = 0; d < dim; ++d) { int t = L[d] - (lmax[d] - m); ex += t & ~(t >> 31); }
  vf_assert_eq_i(member(L, T), (int)(ex <= m) & below(L, lmax), "C06: the truncated set is the simplex below lmax with the smallest level difference");
  // it contains every subspace of every grid of the classical scheme, and of the adaptive one for equal differences
  CombiMinMaxScheme s((DimType)dim, lmin, lmax); s.createClassicalCombischeme();
  int cov = 0; for (auto& g : s.getCombiSpaces()) cov |= below(L, g);
  vf_assert(((cov & ~member(L, T)) & 1) == 0, "C06: the truncated set contains the subspaces of the classical scheme");
  if (m == M) {
    CombiMinMaxScheme a((DimType)dim, lmin, lmax); a.createAdaptiveCombischeme();
    int ca = 0; for (auto& g : a.getCombiSpaces()) ca |= below(L, g);
    vf_assert_eq_i(ca, member(L, T), "C06: the truncated set holds exactly the subspaces of a regular scheme");
  }
  vf_cover("C06 truncated");
}
static void kofd() {
  const int d = vf_choice("d", 1, cfg("dhi", 7)), k = vf_choice("k", 1, d);
  // an earlier query for any other selection must not matter
  if (cfg("hist", 0)) { const int d0 = vf_choice("d0", 1, cfg("dhi", 7)), k0 = vf_choice("k0", 1, d0); auto& S0 = AllKOutOfDDimensions::get((DimType)k0, (DimType)d0); vf_assert(!S0.empty(), "C06: selections exist"); }
  for (int rep = 0; rep < (cfg("hist", 0) ? 1 : 2); ++rep) {
    auto& S = AllKOutOfDDimensions::get((DimType)k, (DimType)d); std::set<std::vector<int>> seen;
    for (auto& x : S) {
      vf_assert_eq_i((int64_t)x.size(), k, "C06: size of a selection"); std::vector<int> v(x.begin(), x.end());
      for (size_t i = 0; i < v.size(); ++i) vf_assert(v[i] < d && (!i || v[i - 1] < v[i]), "C06: a selection lists dimensions once");
      vf_assert(seen.insert(v).second, "C06: selections are distinct");
    }
    // any k-element subset (symbolic bit mask) is listed
    int mask = vf_int("mask", 0, (1 << d) - 1), pc = 0; for (int i = 0; i < d; ++i) pc += (mask >> i) & 1;
    int found = 0; for (auto& v : seen) { int m = 0; for (int x : v) m |= 1 << x; found |= (int)(m == mask); }
    vf_assert_eq_i(found, (int)(pc == k), "C06: every selection of k dimensions is listed");
  }
  vf_cover("C06 kofd");
}
static void counts() {
  // one dimension: any level and boundary kind; several dimensions: product
  const int dim = cfg("dim", 3); LevelVector l(dim); std::vector<BoundaryType> b(dim); long nodal = 1, hier = 1; int budget = 30;
  for (int d = 0; d < dim; ++d) {
    int li = dim == 1 ? vf_int("lev", 1, 28) : choicei("lev", d, 1, std::min(cfg("hi", 9), budget - (dim - d))), bi = vf_int(nm("b", d).c_str(), 0, 2); budget -= li; l[d] = (LevelType)li; b[d] = (BoundaryType)bi;
    int n = (1 << li) - 1 + bi, h = li == 1 ? 1 + bi : 1 << (li - 1);
    vf_assert_eq_i(getNumDofNodal(l[d], b[d]), n, "C06: points of a one-dimensional grid");
    vf_assert_eq_i(getNumDofHierarchical(l[d], b[d]), h, "C06: points of a one-dimensional subspace");
    if (li < 28) vf_assert_eq_i(getNumDofNodal((LevelType)(l[d] + 1), b[d]), (int64_t)getNumDofNodal(l[d], b[d]) + getNumDofHierarchical((LevelType)(l[d] + 1), b[d]), "C06: refining adds one subspace");
    nodal *= n; hier *= h;
  }
  vf_assert_eq_i(getNumDofNodal(l, b), nodal, "C06: points of a grid"); vf_assert_eq_i(getNumDofHierarchical(l, b), hier, "C06: points of a subspace");
  if (dim > 1) vf_assert_eq_i(getCombiDegreesOfFreedom(l, b), nodal, "C06: degrees of freedom of a component grid");
  std::vector<LevelVector> two{l, l}; two[1][0] = 1;
  vf_assert_eq_i(getNumDofNodal(two, b), nodal + (int64_t)getNumDofNodal(two[1], b), "C06: points of several grids");
  vf_assert_eq_i(getNumDofHierarchical(two, b), hier + (int64_t)getNumDofHierarchical(two[1], b), "C06: points of several subspaces");
  vf_cover("C06 counts");
}
static void partitioned() {  // all boundaries present
  const int dim = cfg("dim", 1); LevelVector ref(dim), l(dim); std::vector<IndexVector> dec(dim); std::vector<std::vector<long>> cnt(dim); long procs = 1;
  for (int d = 0; d < dim; ++d) {
    ref[d] = (LevelType)choicei("ref", d, 1, cfg("hi", 4)); l[d] = (LevelType)choicei("l", d, 1, ref[d]);
    const int N = (1 << ref[d]) + 1, P = cfgi("p", d, 1); int prev = 0; dec[d].push_back(0); if (N < P) vf_stop();
    for (int c = 1; c < P; ++c) { int x = vf_choice((nm("cut", d) + char('a' + c)).c_str(), prev + 1, N - (P - c)); dec[d].push_back(x); prev = x; }
    cnt[d].assign(P, 0); procs *= P;
    for (int i = 0; i < N; ++i) if (std::max(1, levelOf(i, ref[d])) == l[d]) { int c = 0; while (c + 1 < P && dec[d][c + 1] <= i) ++c; ++cnt[d][c]; }
  }
  auto r = getPartitionedNumDOFSG({l}, ref, dec);
  vf_assert_eq_i((int64_t)r.size(), procs, "C06: one count per process");
  for (long i = 0; i < procs; ++i) { long q = i, e = 1; for (int d = 0; d < dim; ++d) { e *= cnt[d][q % dec[d].size()]; q /= (long)dec[d].size(); } vf_assert_eq_i(r[i], e, "C06: points of a subspace on a process"); }
  // several subspaces: the sum; in total: the whole sparse grid
  auto D = getDownSet(l); auto all = getPartitionedNumDOFSG(D, ref, dec); long tot = 0, N = 1; for (auto x : all) tot += x; for (int d = 0; d < dim; ++d) N *= (1 << l[d]) + 1;
  vf_assert_eq_i(tot, N, "C06: partition counts add up"); vf_assert_eq_i(getSGDegreesOfFreedomFromDownSet(D), N, "C06: sparse grid count");
  if (dim == 1) {
    int x = vf_int("x", 0, 1 << ref[0]), k = 0;  // any nodal index
    for (int i = 0; i <= (1 << ref[0]); ++i) if (std::max(1, levelOf(i, ref[0])) == l[0]) k += (int)(i < x);
    vf_assert_eq_i(getHighestIndexInHierarchicalSubspaceLowerThanNodalIndexOnLref(l[0], x, ref[0]), k - 1, "C06: number of subspace points before an index");
  }
  vf_cover("C06 partitioned");
}
void vf_main() { switch (cfg("what", 0)) { case 0: downset(); break; case 1: truncated(); break; case 2: kofd(); break; case 3: counts(); break; default: partitioned(); } }
