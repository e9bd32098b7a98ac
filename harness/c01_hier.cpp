// C01 / C02: hierarchization round trip and definition of the hierarchical coefficients.
#include "common.hpp"
#include "hierarchization/DistributedHierarchization.hpp"
#include "hierarchization/CombiLinearBasisFunction.hpp"
using namespace combigrid;
using namespace vfh;

enum Basis { Hat, HatPer, FW, FWPer, Bio, BioPer };

// reference: hierarchical transform of one complete pole (positions 0..2^l incl. both ends; no-boundary
// grids have zero ends), from the mathematical definition, down to level lmin
template <class V>
static void refPole(std::vector<V>& y, int l, int lmin, int basis, int bdry) {
  const int N = 1 << l;
  const V half(0.5), quarter(0.25), two(2.0);
  if (basis == Hat || basis == HatPer) {
    std::vector<V> v = y;
    for (int x = 1; x < N; ++x) {
      int lev = levelOf(x, l);
      if (lev <= lmin) continue;
      int h = 1 << (l - lev);
      y[x] = v[x] - half * (v[x - h] + v[x + h]);
    }
    return;
  }
  const bool per = basis == FWPer || basis == BioPer;
  const bool bio = basis == BioPer || basis == Bio;
  std::vector<V> c = y;  // scaling coefficients of the current level
  for (int lev = l; lev > lmin; --lev) {
    int M = 1 << lev, h = 1 << (l - lev);
    std::vector<V> e(M / 2 + 1), dd(M / 2);
    auto at = [&](int k) -> V { if (per) return c[((k % M) + M) % M]; return k < 0 ? c[-k] : k > M ? c[2 * M - k] : c[k]; };
    for (int j = 0; j <= M / 2; ++j) {
      if (bio) {  // details w.r.t. linear interpolation, then lifting by 1/4
        V dl = at(2 * j - 1) - half * (at(2 * j - 2) + at(2 * j)), dr = at(2 * j + 1) - half * (at(2 * j) + at(2 * j + 2));
        e[j] = at(2 * j) + quarter * (dl + dr);
      } else e[j] = quarter * at(2 * j - 1) + half * at(2 * j) + quarter * at(2 * j + 1);
    }
    for (int j = 0; j < M / 2; ++j) dd[j] = bio ? at(2 * j + 1) - half * (at(2 * j) + at(2 * j + 2)) : at(2 * j + 1) - half * (e[j] + e[j + 1]);
    for (int j = 0; j < M / 2; ++j) y[(2 * j + 1) * h] = dd[j];
    c = e;
  }
  int h = 1 << (l - std::min(l, lmin));
  for (size_t j = 0; j < c.size(); ++j) y[j * h] = c[j];
  (void)bdry; (void)two;
}

template <class V> static V mk(double re, double im);
template <> double mk<double>(double re, double) { return re; }
template <> std::complex<double> mk<std::complex<double>>(double re, double im) { return {re, im}; }
static void eq(double a, double b, const char* l) { vf_assert_eq_d(a, b, l); }
static void eq(std::complex<double> a, std::complex<double> b, const char* l) { vf_assert_eq_d(a.real(), b.real(), l); vf_assert_eq_d(a.imag(), b.imag(), l); }

template <class V> static void run() {
  const int dim = cfg("dim", 1);
  Shape s; s.dim = dim; s.procs = procsFromConfig(dim); s.level.resize(dim); s.bdry.resize(dim); s.n.resize(dim);
  std::vector<int> basis(dim), lmin(dim), use(dim);
  const int doDef = cfg("def", 0);
  int budget = cfg("lsum", 99);
  for (int d = 0; d < dim; ++d) {
    s.bdry[d] = cfgi("b", d, -1); if (s.bdry[d] < 0) s.bdry[d] = choicei("b", d, 0, 2);
    int llo = cfg("lmin", 1), lhi = std::min(cfgi("l", d, 3), budget);
    s.level[d] = choicei("level", d, llo, lhi); budget -= s.level[d];
    s.n[d] = npts(s.level[d], s.bdry[d]);
    if (s.n[d] < s.procs[d]) { vf_stop(); }
    int bc = cfgi("basis", d, -1);
    basis[d] = bc >= 0 ? bc : choicei("bas", d, 0, 5);
    if (s.bdry[d] == 0 && basis[d] != Hat) vf_stop();
    if (s.bdry[d] == 1 && (basis[d] == FW || basis[d] == Bio)) vf_stop();
    if (cfg("mass", 0) && (s.bdry[d] == 0 || basis[d] < FW)) vf_stop();
    lmin[d] = cfgi("lm", d, -1); if (lmin[d] < 0) lmin[d] = choicei("lmi", d, 0, s.bdry[d] == 0 ? 0 : s.level[d]);
    use[d] = cfg("use", 1) ? choicei("use", d, d == 0 ? 1 : 0, 1) : 1;
  }
  const int dec = cfg("dec", 1);
  std::vector<IndexVector> decomp;
  if (dec) { chooseDecomposition(s); for (auto& x : s.dec) decomp.push_back(IndexVector(x.begin(), x.end())); }
  LevelVector levels(s.level.begin(), s.level.end());
  std::vector<BoundaryType> bd(s.bdry.begin(), s.bdry.end());
  std::vector<bool> dims(use.begin(), use.end());
  LevelVector lmi(lmin.begin(), lmin.end());
  HierarchicalHatBasisFunction b0; HierarchicalHatPeriodicBasisFunction b1; FullWeightingBasisFunction b2; FullWeightingPeriodicBasisFunction b3; BiorthogonalBasisFunction b4; BiorthogonalPeriodicBasisFunction b5;
  BasisFunctionBasis* ptrs[6] = {&b0, &b1, &b2, &b3, &b4, &b5};
  std::vector<BasisFunctionBasis*> bases(dim); for (int d = 0; d < dim; ++d) bases[d] = ptrs[basis[d]];
  MPI_Comm comm = cartComm(s.procs);
  OwningDistributedFullGrid<V> dfg((DimType)dim, levels, comm, bd, s.procs, dec == 2, decomp);
  // arbitrary nodal values: one symbolic variable per global grid point (periodic bases: per periodic point)
  auto value = [&](long g) -> V {
    auto v = s.vec(g);
    for (int d = 0; d < dim; ++d) if (s.bdry[d] == 2 && (basis[d] == FWPer || basis[d] == BioPer) && v[d] == s.n[d] - 1) v[d] = 0;
    long k = s.lin(v);
    return mk<V>(vf_double_i("v", k, -1000, 1000), sizeof(V) == 8 ? 0. : vf_double_i("w", k, -1000, 1000));
  };
  const long nl = dfg.getNrLocalElements();
  std::vector<V> orig(nl); std::vector<long> gidx(nl);
  for (long i = 0; i < nl; ++i) { gidx[i] = dfg.getGlobalLinearIndex((IndexType)i); orig[i] = value(gidx[i]); dfg.getData()[i] = orig[i]; }
  DistributedHierarchization::hierarchize<V>(dfg, dims, bases, lmi);
  if (cfg("mass", 0)) {
    // integral of the multilinear function with these nodal values / of its part on the coarsest level
    auto weight = [&](const std::vector<int>& v, bool coarse) { double w = 1; for (int d = 0; d < dim; ++d) { const int l = coarse ? std::min(lmin[d], s.level[d]) : s.level[d], st = 1 << (s.level[d] - l), x = s.pos(d, v[d]); if (x % st) return 0.; w /= 1 << l; if (s.bdry[d] == 2 && (x == 0 || x == (1 << s.level[d]))) w *= 0.5; } return w; };
    V before = V(0), local = V(0), after = V(0);
    for (long g = 0; g < s.total(); ++g) before += V(weight(s.vec(g), false)) * value(g);
    for (long i = 0; i < nl; ++i) { double w = weight(s.vec(gidx[i]), true); if (w != 0.) local += V(w) * dfg.getData()[i]; }
    MPI_Allreduce(&local, &after, sizeof(V) / sizeof(double), MPI_DOUBLE, MPI_SUM, comm);
    eq(after, before, "C10: integral of the coarsest level equals the integral of the function");
    // changing the finer levels does not change the integral of the dehierarchized function
    for (long i = 0; i < nl; ++i) { auto v = s.vec(gidx[i]); bool fine = false; for (int d = 0; d < dim; ++d) fine |= s.lev(d, v[d]) > lmin[d]; for (int d = 0; d < dim; ++d) if (s.bdry[d] == 2 && (basis[d] == FWPer || basis[d] == BioPer) && v[d] == s.n[d] - 1) v[d] = 0; if (fine) dfg.getData()[i] += mk<V>(vf_double_i("z", s.lin(v), -64, 64), 0.); }
    DistributedHierarchization::dehierarchize<V>(dfg, dims, bases, lmi);
    local = V(0); for (long i = 0; i < nl; ++i) local += V(weight(s.vec(gidx[i]), false)) * dfg.getData()[i];
    MPI_Allreduce(&local, &after, sizeof(V) / sizeof(double), MPI_DOUBLE, MPI_SUM, comm);
    eq(after, before, "C10: integral unchanged by changes on the finer levels");
    vf_cover("C10 mass");
  } else if (doDef) {
    // reference on the full global grid
    std::vector<V> ref(s.total());
    for (long g = 0; g < s.total(); ++g) ref[g] = value(g);
    for (int d = 0; d < dim; ++d) {
      if (!use[d] || lmin[d] >= s.level[d]) continue;
      long stride = 1; for (int k = 0; k < d; ++k) stride *= s.n[k];
      const int N = 1 << s.level[d];
      for (long g = 0; g < s.total(); ++g) {
        if (s.vec(g)[d] != 0) continue;
        std::vector<V> pole(N + 1, V(0));
        for (int i = 0; i < s.n[d]; ++i) pole[s.pos(d, i)] = ref[g + i * stride];
        if (s.bdry[d] == 1) pole[N] = pole[0];
        refPole(pole, s.level[d], lmin[d], basis[d], s.bdry[d]);
        for (int i = 0; i < s.n[d]; ++i) ref[g + i * stride] = pole[s.pos(d, i)];
      }
    }
    for (long i = 0; i < nl; ++i) eq(dfg.getData()[i], ref[gidx[i]], "C02: hierarchical coefficient equals its definition");
    vf_cover("C02 compared");
  } else {
    DistributedHierarchization::dehierarchize<V>(dfg, dims, bases, lmi);
    for (long i = 0; i < nl; ++i) eq(dfg.getData()[i], orig[i], "C01: dehierarchize(hierarchize(u)) == u");
    vf_cover("C01 compared");
  }
}
void vf_main() {
  MPI_Init(nullptr, nullptr);
  if (cfg("cplx", 0)) run<std::complex<double>>(); else run<double>();
  MPI_Finalize();
}
