// C15: chunked reductions and broadcasts of sparse grid data.
#include <algorithm>
#include "common.hpp"
#include "combicom/CombiCom.hpp"
#include "mpi/MPISystem.hpp"
using namespace combigrid;
using namespace vfh;
using SI = AnyDistributedSparseGrid::SubspaceIndexType;
template <class V> using DSG = DistributedSparseGridUniform<V>;
static std::vector<LevelVector> levels1d(int n) { std::vector<LevelVector> l; for (int i = 1; i <= n; ++i) l.push_back(LevelVector{(LevelType)i}); return l; }

// splitting into chunks: any sizes, any limit
static void chunks() {
  const int n = cfg("n", 4); DSG<double> dsg((DimType)1, levels1d(n), MPI_COMM_SELF);
  std::vector<int64_t> size(n);
  for (int i = 0; i < n; ++i) { std::string nm = "size" + std::to_string(i); size[i] = vf_int(nm.c_str(), 0, cfg("hi", 0x7fffffff)); dsg.setDataSize((SI)i, (SubspaceSizeType)size[i]); }
  int limit = vf_int("limit", 1, 0x7fffffff);
  int mask = vf_choice("mask", 0, (1 << n) - 1);
  std::vector<SI> v; std::set<SI> s; for (int i = 0; i < n; ++i) if (mask >> i & 1) { v.push_back(i); s.insert(i); }
  auto check = [&](const std::vector<std::set<SI>>& c) {
    size_t k = 0;
    for (auto& ch : c) {
      vf_assert(!ch.empty(), "C15: no empty chunk"); int64_t sum = 0;
      for (SI i : ch) { vf_assert(k < v.size() && v[k] == i, "C15: chunks list every subspace once and in order"); ++k; sum += size[i]; }
      vf_assert((ch.size() == 1) | (sum <= (int64_t)limit), "C15: only a single subspace may exceed the limit");
    }
    vf_assert(k == v.size(), "C15: chunks cover all subspaces");
  };
  check(CombiCom::getChunkedSubspaces(dsg, v, limit)); check(CombiCom::getChunkedSubspaces(dsg, s, limit)); check(CombiCom::getChunkedSubspaces(dsg, v, limit));
  vf_cover("C15 chunks");
}
// number of elements for a limit given in MiB
template <class V> static void limits() {
  uint32_t m = (uint32_t)vf_long("MiB", 0, 0xffffffffll); int c = CombiCom::getGlobalReduceChunkSize<V>(m);
  vf_assert(c > 0, "C15: the chunk size is positive");
  uint64_t bytes = (uint64_t)m << 20;
  vf_assert((m == 0) | (m > 0x7fffffffu) | ((uint64_t)c * sizeof(V) <= bytes), "C15: a chunk stays within the permitted number of MiB");
  vf_cover("C15 limits");
}
// element k of subspace data on a rank; symbolic next to the chunk bounds
template <class V> static V val(int rank, long k, bool sym);
template <> double val<double>(int rank, long k, bool sym) { return sym ? vf_double_i("x", (int64_t)rank * 100000000 + k, -64, 64) : (double)((k * 7 + rank * 5) % 61 - 30); }
template <> std::complex<double> val<std::complex<double>>(int rank, long k, bool sym) { return {val<double>(rank, 2 * k, sym), val<double>(rank, 2 * k + 1, sym)}; }
static void eq(double a, double b, const char* l) { vf_assert_eq_d(a, b, l); }
static void eq(std::complex<double> a, std::complex<double> b, const char* l) { vf_assert_eq_d(a.real(), b.real(), l); vf_assert_eq_d(a.imag(), b.imag(), l); }

// reductions over process groups of one process each; sizes around the chunk size when big
template <class V> static void reduce() {
  const int how = cfg("how", 0), big = cfg("big", 0); int n, me; MPI_Comm_size(MPI_COMM_WORLD, &n); MPI_Comm_rank(MPI_COMM_WORLD, &me);
  theMPISystem()->initWorldReusable(MPI_COMM_WORLD, n, 1, false, false);
  const long C = (1 << 20) / sizeof(V);  // one MiB
  const int ns = cfg("ns", 3); uint32_t mib = big ? 1 : vf_choice("mib", 0, 1) ? 16 : 0;
  std::vector<long> size(ns); std::vector<int> holds(ns);  // holds: bit mask of the groups that have the subspace
  for (int i = 0; i < ns; ++i) {
    if (big) { int w = choicei("size", i, 0, 3); size[i] = w == 0 ? 1 : w == 1 ? C - 1 : w == 2 ? C : C + 1; }
    else size[i] = choicei("size", i, 1, 2);
    holds[i] = how == 0 ? (1 << n) - 1 : choicei("holds", i, cfg("hlo", 1), (1 << n) - 1);
  }
  DSG<V> dsg((DimType)1, levels1d(ns), MPI_COMM_SELF);
  for (int i = 0; i < ns; ++i) if (holds[i] >> me & 1) dsg.setDataSize((SI)i, (SubspaceSizeType)size[i]);
  auto many = [&](int i) { return (holds[i] & (holds[i] - 1)) != 0; };
  const int root = how == 0 || how == 2 ? vf_choice("root", -1, n - 1) : -1; const RankType collect = root < 0 ? MPI_PROC_NULL : root;
  if (how == 0) CombiCom::reduceSubspaceSizes(dsg, theMPISystem()->getGlobalReduceComm());
  if (how == 1) dsg.setSubspaceCommunicators(theMPISystem()->getGlobalReduceComm(), theMPISystem()->getGlobalReduceRank());
  if (how >= 2) {
    int u = 0; for (int i = 0; i < ns; ++i) if (many(i)) u |= holds[i];
    if (u && u != (1 << n) - 1) vf_stop();  // outgroup reduction: every group shares something
    dsg.setOutgroupCommunicator(theMPISystem()->getGlobalReduceComm(), theMPISystem()->getGlobalReduceRank());
  }
  // sizes after the set-up, which subspaces take part
  std::vector<char> part(ns); bool any = false;
  for (int i = 0; i < ns; ++i) {
    bool mine = holds[i] >> me & 1; part[i] = how == 0 || (how == 1 ? mine && many(i) : many(i)); any |= part[i];
    vf_assert_eq_i(dsg.getDataSize((SI)i), mine || part[i] ? size[i] : 0, "C15: size of a subspace after the set-up");
  }
  std::vector<std::pair<SI, int>> seen; auto& bc = dsg.getSubspacesByCommunicator(); std::vector<int> cnt(ns, 0);
  if (how > 0) {
    for (auto& cs : bc) for (SI i : cs.second) { ++cnt[i]; if (how == 1) { int cn; MPI_Comm_size(cs.first, &cn); vf_assert_eq_i(cn, __builtin_popcount(holds[i]), "C15: communicator of a subspace has the groups holding it"); } }
    for (int i = 0; i < ns; ++i) vf_assert_eq_i(cnt[i], part[i], "C15: every shared subspace is assigned to one communicator");
  }
  bool has = false; for (int i = 0; i < ns; ++i) has |= dsg.getDataSize((SI)i) > 0;
  if (!has) { vf_cover("C15 empty"); }
  auto isSym = [&](int i, long k) { return !big || k == 0 || k == size[i] - 1 || k == size[i] / 2; };
  auto fill = [&] { for (int i = 0; i < ns; ++i) for (long k = 0; k < dsg.getAllocatedDataSize((SI)i); ++k) dsg.getData((SI)i)[k] = (holds[i] >> me & 1) ? val<V>(me, (long)i * 1000000 + k, isSym(i, k)) : V(0.); };
  auto want = [&](int i, long k) { V e{}; bool sum = part[i] && (collect == MPI_PROC_NULL || collect == me); if (!sum) return (holds[i] >> me & 1) ? val<V>(me, (long)i * 1000000 + k, isSym(i, k)) : V(0.); for (int r = 0; r < n; ++r) if (holds[i] >> r & 1) e += val<V>(r, (long)i * 1000000 + k, isSym(i, k)); return e; };
  auto checkAll = [&](const char* l) {
    for (int i = 0; i < ns; ++i) for (long k = 0; k < dsg.getAllocatedDataSize((SI)i); ++k) {
      if (big && !isSym(i, k)) { V d = dsg.getData((SI)i)[k] - want(i, k); if (!(d == V(0.))) vf_assert(false, l); }
      else eq(dsg.getData((SI)i)[k], want(i, k), l);
    }
  };
  if (how <= 2) {
    if (has) { dsg.createSubspaceData(); fill(); }
    if (how == 0) CombiCom::distributedGlobalSparseGridReduce(dsg, mib, collect); else if (has) CombiCom::distributedGlobalSubspaceReduce(dsg, mib, collect);
    if (has) checkAll("C15: reduced values");
    if (how == 2 && has && root >= 0) {  // and send the result to all
      MPI_Request q = MPI_REQUEST_NULL; CombiCom::asyncBcastOutgroupDsgData(dsg, root, theMPISystem()->getGlobalReduceComm(), &q); MPI_Wait(&q, MPI_STATUS_IGNORE);
      for (int i = 0; i < ns; ++i) if (part[i]) for (long k = 0; k < size[i]; ++k) { if (big && !isSym(i, k)) continue; V e{}; for (int r = 0; r < n; ++r) if (holds[i] >> r & 1) e += val<V>(r, (long)i * 1000000 + k, isSym(i, k)); eq(dsg.getData((SI)i)[k], e, "C15: broadcast values"); }
    }
    if (how == 0 && has && root >= 0) {
      MPI_Request q = MPI_REQUEST_NULL; CombiCom::asyncBcastDsgData(dsg, root, theMPISystem()->getGlobalReduceComm(), &q); MPI_Wait(&q, MPI_STATUS_IGNORE);
      for (int i = 0; i < ns; ++i) for (long k = 0; k < size[i]; ++k) { if (big && !isSym(i, k)) continue; V e{}; for (int r = 0; r < n; ++r) if (holds[i] >> r & 1) e += val<V>(r, (long)i * 1000000 + k, isSym(i, k)); eq(dsg.getData((SI)i)[k], e, "C15: broadcast values"); }
    }
  } else if (any) {  // chunk by chunk, only the chunk allocated
    auto chunked = CombiCom::getChunkedSubspaces(dsg, bc[0].second, CombiCom::getGlobalReduceChunkSize<V>(mib));
    std::vector<int> done(ns, 0);
    for (auto ch : chunked) {
      for (SI i : ch) ++done[i];
      auto keep = ch; dsg.allocateDifferentSubspaces(std::move(ch)); fill();
      for (int i = 0; i < ns; ++i) vf_assert_eq_i(dsg.getAllocatedDataSize((SI)i), keep.count(i) ? size[i] : 0, "C15: only the chunk is allocated");
      CombiCom::distributedGlobalSubspaceReduce<DSG<V>, true>(dsg, mib); checkAll("C15: reduced values of a chunk");
      int from = vf_choice("from", 0, n - 1); if (me != from) dsg.setZero();
      MPI_Request q = MPI_REQUEST_NULL; CombiCom::asyncBcastOutgroupDsgData<DSG<V>, true>(dsg, from, theMPISystem()->getGlobalReduceComm(), &q); MPI_Wait(&q, MPI_STATUS_IGNORE); checkAll("C15: broadcast values of a chunk");
    }
    for (int i = 0; i < ns; ++i) vf_assert_eq_i(done[i], part[i], "C15: every shared subspace is in one chunk");
  }
  vf_cover("C15 reduce");
}
void vf_main() {
  MPI_Init(nullptr, nullptr); int w = cfg("what", 0), t = cfg("type", 0);
  if (w == 0) chunks();
  if (w == 1) { if (t == 0) limits<double>(); else if (t == 1) limits<std::complex<double>>(); else limits<float>(); }
  if (w == 2) { if (t) reduce<std::complex<double>>(); else reduce<double>(); }
  MPI_Finalize();
}
