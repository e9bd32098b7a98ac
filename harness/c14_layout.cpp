// C14: process group layout.
#include <algorithm>
#include "common.hpp"
#include "mpi/MPISystem.hpp"
using namespace combigrid;
using namespace vfh;
static MPI_Comm W = MPI_COMM_WORLD;
static std::vector<int> members(MPI_Comm c) {
  MPI_Group a, b; MPI_Comm_group(c, &a); MPI_Comm_group(W, &b); int n; MPI_Group_size(a, &n);
  std::vector<int> in(n), out(n); for (int i = 0; i < n; ++i) in[i] = i;
  MPI_Group_translate_ranks(a, n, in.data(), b, out.data()); MPI_Group_free(&a); MPI_Group_free(&b); return out;
}
// the communicator must have exactly these members in this order and be usable by all of them
static void expect(MPI_Comm c, const std::vector<int>& want, int me, const char* what) {
  bool in = std::find(want.begin(), want.end(), me) != want.end();
  if (!in) { vf_assert(c == MPI_COMM_NULL, what); return; }
  vf_assert(c != MPI_COMM_NULL, what); if (c == MPI_COMM_NULL) return;
  auto m = members(c); vf_assert_eq_i((int64_t)m.size(), (int64_t)want.size(), what);
  for (size_t i = 0; i < m.size() && i < want.size(); ++i) vf_assert_eq_i(m[i], want[i], what);
  std::vector<int> all(m.size(), -1); MPI_Allgather(&me, 1, MPI_INT, all.data(), 1, MPI_INT, c);
  for (size_t i = 0; i < all.size(); ++i) vf_assert_eq_i(all[i], m[i], what);
}
static void check(int G, int P, bool mgr, int parts) {
  auto s = theMPISystem(); int me, n; MPI_Comm_rank(W, &me); MPI_Comm_size(W, &n);
  const bool isMgr = mgr && me == G * P; const int grp = me / P, pos = me % P;
  vf_assert(s->isInitialized(), "C14: initialised");
  vf_assert_eq_i((int64_t)s->getNumGroups(), G, "C14: number of groups"); vf_assert_eq_i((int64_t)s->getNumProcs(), P, "C14: processes per group");
  vf_assert_eq_i(s->getWorldRank(), me, "C14: world rank"); vf_assert_eq_i(s->getWorldSize(), n, "C14: world size");
  vf_assert_eq_i(s->getManagerRankWorld(), mgr ? G * P : MPI_PROC_NULL, "C14: manager rank");
  vf_assert(s->isWorldManager() == isMgr, "C14: exactly the last process is the manager");
  vf_assert_eq_i(s->getProcessGroupNumber(), isMgr ? -1 : grp, "C14: group number");
  std::vector<int> local, reduce, global, out;
  for (int p = 0; p < P; ++p) local.push_back(grp * P + p);
  for (int g = 0; g < G; ++g) { reduce.push_back(g * P + pos); global.push_back(g * P); }
  if (mgr) global.push_back(G * P);
  for (int p = 0; p < P; ++p) out.push_back((p % G) * P + p);
  if (isMgr) { vf_assert(s->getLocalComm() == MPI_COMM_NULL, "C14: the manager is in no group"); vf_assert(s->getGlobalReduceComm() == MPI_COMM_NULL, "C14: the manager does not take part in the reduction"); vf_assert(!s->isProcessGroupMaster(), "C14: the manager is no group master"); }
  else {
    expect(s->getLocalComm(), local, me, "C14: local communicator is the process group"); vf_assert_eq_i(s->getLocalRank(), pos, "C14: rank in the group");
    expect(s->getGlobalReduceComm(), reduce, me, "C14: reduction communicator has the same position of every group, ordered by group"); vf_assert_eq_i(s->getGlobalReduceRank(), grp, "C14: rank in the reduction is the group number");
    vf_assert(s->isProcessGroupMaster() == (pos == 0), "C14: exactly the first process of a group is its master"); vf_assert_eq_i(s->getMasterRank(), 0, "C14: master rank");
    vf_assert_eq_i(s->getOutputRankInGlobalReduceComm(), pos % G, "C14: output process of the reduction communicator");
  }
  expect(s->getGlobalComm(), global, me, "C14: global communicator is masters and manager");
  if (isMgr || pos == 0) { vf_assert_eq_i(s->getGlobalRank(), isMgr ? G : grp, "C14: rank in the global communicator"); vf_assert_eq_i(s->getManagerRank(), mgr ? G : MPI_PROC_NULL, "C14: manager rank in the global communicator"); }
  // output group: one process per position, on the process that collects for that position
  expect(s->getOutputGroupComm(), out, me, "C14: output group");
  bool isOut = !isMgr && pos % G == grp;
  vf_assert((s->getOutputGroupComm() != MPI_COMM_NULL) == isOut, "C14: output group has the collecting process of every reduction communicator");
  if (isOut) {
    vf_assert_eq_i(s->getOutputGroupRank(), pos, "C14: rank in the output group");
    std::vector<int> part; int sz = P / parts; for (int p = pos / sz * sz; p < (pos / sz + 1) * sz; ++p) part.push_back(out[p]);
    expect(s->getOutputComm(), part, me, "C14: output communicator of a file part"); vf_assert_eq_i(s->getFilePartNumber(), pos / sz, "C14: file part");
    int root = 0; OUTPUT_ROOT_EXCLUSIVE_SECTION { root = 1; } vf_assert_eq_i(root, pos % sz == 0, "C14: one output root per file part");
  }
  auto& tl = s->getThirdLevelComms(); vf_assert_eq_i((int64_t)tl.size(), !mgr ? 0 : isMgr ? G : 1, "C14: number of third level communicators");
  if (mgr) for (size_t g = 0; g < tl.size(); ++g) {
    int gg = isMgr ? (int)g : grp; std::vector<int> want; for (int p = 0; p < P; ++p) want.push_back(gg * P + p); want.push_back(G * P);
    expect(tl[g], want, me, "C14: third level communicator"); vf_assert_eq_i(s->getThirdLevelManagerRank(), P, "C14: third level manager");
  }
  int mid = 0; MIDDLE_PROCESS_EXCLUSIVE_SECTION { mid = 1; } vf_assert_eq_i(mid, me == G * P / 2, "C14: one middle process");
}
static int divisor(const char* name, int n) { std::vector<int> d; for (int k = 1; k <= n; ++k) if (n % k == 0) d.push_back(k); return d[vf_choice(name, 0, (int)d.size() - 1)]; }
void vf_main() {
  MPI_Init(nullptr, nullptr); int n; MPI_Comm_size(W, &n); const int how = cfg("how", 0);
  auto shape = [&](int k, int& G, int& P, bool& mgr) {
    mgr = n > 1 && vf_choice(k ? "mgr2" : "mgr", 0, 1); int w = n - mgr; P = divisor(k ? "procs2" : "procs", w); G = w / P;
  };
  int G, P; bool mgr; shape(0, G, P, mgr);
  if (how == 0) {
    theMPISystem()->initWorldReusable(MPI_COMM_WORLD, G, P, mgr, false); check(G, P, mgr, 1);
    int parts = divisor("parts", P); theMPISystem()->initOutputGroupComm((uint16_t)parts); check(G, P, mgr, parts);
    int parts2 = divisor("parts2", P); theMPISystem()->initOutputGroupComm((uint16_t)parts2); check(G, P, mgr, parts2);
    int G2, P2; bool mgr2; shape(1, G2, P2, mgr2);
    theMPISystem()->initWorldReusable(MPI_COMM_WORLD, G2, P2, mgr2, false); check(G2, P2, mgr2, 1);
  } else if (how == 1) { theMPISystem()->init(G, P, mgr); check(G, P, mgr, 1); int parts = divisor("parts", P); theMPISystem()->initOutputGroupComm((uint16_t)parts); check(G, P, mgr, parts); }
  else {
    int me; MPI_Comm_rank(W, &me); MPI_Comm l; MPI_Comm_split(MPI_COMM_WORLD, me / P, me % P, &l);
    theMPISystem()->init(G, P, l, mgr); check(G, P, mgr, 1);
  }
  // a wrong number of processes is refused
  int refused = 0; try { theMPISystem()->initWorldReusable(MPI_COMM_WORLD, G, P + 1, mgr, false); } catch (const std::invalid_argument&) { refused = 1; }
  vf_assert_eq_i(refused, 1, "C14: a process count that does not match is refused");
  vf_cover("C14 done"); MPI_Finalize();
}
