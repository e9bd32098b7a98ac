// C12: smallest and largest coefficient per subspace of a sparse grid, accumulated over any sequence of partial allocations.
#include "common.hpp"
#include "fullgrid/DistributedFullGrid.hpp"
#include "sparsegrid/DistributedSparseGridUniform.hpp"
using namespace combigrid;
using namespace vfh;
template <class V> static V make(double x, int64_t i);
template <> double make<double>(double x, int64_t) { return x; }
template <> std::complex<double> make<std::complex<double>>(double x, int64_t i) { return {x, (double)(i % 5) - 2}; }
template <class V> static void run() {
  Shape s = chooseShape(); const int dim = s.dim; chooseDecomposition(s);
  std::vector<IndexVector> dec; for (auto& y : s.dec) dec.push_back(IndexVector(y.begin(), y.end()));
  std::vector<BoundaryType> bd(s.bdry.begin(), s.bdry.end()); MPI_Comm comm = cartComm(s.procs); if (hasEmptyPart(s)) vf_stop();
  OwningDistributedFullGrid<V> g((DimType)dim, LevelVector(s.level.begin(), s.level.end()), comm, bd, s.procs, false, dec);
  DistributedSparseGridUniform<V> dsg((DimType)dim, LevelVector(s.level.begin(), s.level.end()), LevelVector(dim, 1), comm);
  dsg.registerDistributedFullGrid(g); const int n = (int)dsg.getNumSubspaces(), rounds = cfg("rounds", 2);
  const int sym = vf_choice("subspace", 0, n - 1); std::vector<std::vector<double>> all(n);
  const bool again = cfg("clear", 0);
  for (int r = 0; r < rounds; ++r) {
    const int mask = cfg("partial", 0) ? vf_choice(r ? "alloc1" : "alloc0", 1, (1 << n) - 1) : (1 << n) - 1; std::set<AnyDistributedSparseGrid::SubspaceIndexType> held; for (int i = 0; i < n; ++i) if (mask >> i & 1) held.insert(i);
    size_t total = 0; for (auto i : held) total += dsg.getDataSize(i); if (total == 0) vf_stop();
    if (cfg("partial", 0)) { auto h = held; dsg.allocateDifferentSubspaces(std::move(h)); } else if (r == 0) dsg.createSubspaceData();
    if (again && r) { dsg.clearMinMaxCoefficientsPerSubspace(); for (auto& a : all) a.clear(); }
    for (int i = 0; i < n; ++i) if (held.count(i)) for (int k = 0; k < (int)dsg.getDataSize(i); ++k) { const int64_t id = (r * 64 + i) * 64 + k; double x = i == sym ? vf_double_i("x", id, -64, 64) : (double)((id * 7 + 3) % 11 - 14 + 9 * (i % 3)); dsg.getData(i)[k] = make<V>(x, id); all[i].push_back(x); }
    dsg.accumulateMinMaxCoefficients();
    auto &mn = dsg.getMinCoefficientsPerSubspace(), &mx = dsg.getMaxCoefficientsPerSubspace(); vf_assert_eq_i((int64_t)mn.size(), n, "C12: one minimum per subspace"); vf_assert_eq_i((int64_t)mx.size(), n, "C12: one maximum per subspace");
    for (int i = 0; i < n; ++i) {
      if (all[i].empty()) { vf_assert(mn[i] == std::numeric_limits<double>::max(), "C12: an empty subspace has no minimum"); vf_assert(mx[i] < -64, "C12: an empty subspace has no maximum"); continue; }
      bool le = true, ge = true, in = false, ix = false; for (double x : all[i]) { le &= mn[i] <= x; ge &= mx[i] >= x; in |= mn[i] == x; ix |= mx[i] == x; }
      vf_assert(le & in, "C12: the minimum of a subspace"); vf_assert(ge & ix, "C12: the maximum of a subspace");
    }
  }
  vf_cover("C12 minmax");
}
void vf_main() {
  MPI_Init(nullptr, nullptr);
  if (cfg("cplx", 0)) run<std::complex<double>>(); else run<double>();
  MPI_Finalize();
}
