// C21: combination across several systems through files (reduce within each system, write, wait for the others, read and add, distribute).
#include <algorithm>
#include <filesystem>
#include "common.hpp"
#include "combischeme/CombiMinMaxScheme.hpp"
#include "manager/ProcessGroupWorker.hpp"
using namespace combigrid;
using namespace vfh;
using T = double;
static std::vector<int> gProcs;
class GridTask : public Task<T> {
 public:
  GridTask(const LevelVector& l, const std::vector<BoundaryType>& b, real c, LoadModel* m) : Task<T>(l, b, c, m) {}
  void init(CommunicatorType comm, const std::vector<IndexVector>& dec) override { g_.reset(new OwningDistributedFullGrid<T>(getDim(), getLevelVector(), comm, getBoundary(), gProcs, false, dec)); }
  void run(CommunicatorType) override { setFinished(true); }
  DistributedFullGrid<T>& getDistributedFullGrid(size_t) override { return *g_; }
  const DistributedFullGrid<T>& getDistributedFullGrid(size_t) const override { return *g_; }
  void setZero() override { g_->setZero(); }
  std::unique_ptr<OwningDistributedFullGrid<T>> g_;
};
#ifdef VF_NATIVE
static void pause_(int n) { for (int i = 0; i < n; ++i) { struct timespec t = {0, 100000000}; nanosleep(&t, nullptr); } }
#else
extern "C" void vf_yield();
static void pause_(int n) { for (int i = 0; i < n; ++i) vf_yield(); }
#endif
#ifdef VF_NATIVE
static void copyFile(const std::string& a, const std::string& b) { std::filesystem::copy_file(a, b); }
#else
extern "C" void vmpi_file_copy(const char*, const char*);
static void copyFile(const std::string& a, const std::string& b) { vmpi_file_copy(a.c_str(), b.c_str()); }
#endif
static bool exists(const std::string& f) { return std::filesystem::exists(f); }

void vf_main() {
  MPI_Init(nullptr, nullptr);
  const int dim = cfg("dim", 1), S = cfg("S", 2), G = cfg("G", 1), parts = cfg("parts", 1);
  const int var = cfg("variant", -1) < 0 ? 1 + vf_choice("variant", 0, 2) : cfg("variant", 1);
  const CombinationVariant variant = var == 1 ? CombinationVariant::sparseGridReduce : var == 2 ? CombinationVariant::outgroupSparseGridReduce : CombinationVariant::chunkedOutgroupSparseGridReduce;
  Shape fine; fine.dim = dim; fine.procs = procsFromConfig(dim); gProcs = fine.procs; int P = 1; for (int p : fine.procs) P *= p;
  int me; MPI_Comm_rank(MPI_COMM_WORLD, &me); const int sys = me / (G * P), group = me / P;
  MPI_Comm sysComm; MPI_Comm_split(MPI_COMM_WORLD, sys, me, &sysComm);
  theMPISystem()->initWorldReusable(sysComm, G, P, false, false); if (parts > 1) theMPISystem()->initOutputGroupComm((uint16_t)parts);
  LevelVector lmin(dim), lmax(dim), red(dim); std::vector<BoundaryType> bdry(dim); fine.level.resize(dim); fine.bdry.resize(dim); fine.n.resize(dim);
  for (int d = 0; d < dim; ++d) {
    fine.bdry[d] = cfgi("b", d, -1); if (fine.bdry[d] < 0) fine.bdry[d] = choicei("b", d, 0, 2);
    bdry[d] = (BoundaryType)fine.bdry[d]; lmin[d] = (LevelType)cfgi("lmin", d, 1); lmax[d] = (LevelType)cfgi("lmax", d, 3); red[d] = cfg("red", 0) ? (LevelType)choicei("red", d, 0, cfg("red", 0)) : 0;
    fine.level[d] = lmax[d]; fine.n[d] = npts(lmax[d], fine.bdry[d]); if (fine.n[d] < fine.procs[d]) vf_stop();
  }
  std::vector<LevelVector> levels; std::vector<real> coeffs;
  if (cfg("tasks", 0)) {
    const double cs[] = {1., -2., 3., 0.5, -1.};
    for (int t = 0; t < cfg("tasks", 0); ++t) { LevelVector l(dim); for (int d = 0; d < dim; ++d) l[d] = (LevelType)choicei("level", t * dim + d, lmin[d], lmax[d]); levels.push_back(l); coeffs.push_back(cs[t % 5]); }
  } else { CombiMinMaxScheme s((DimType)dim, lmin, lmax); s.createAdaptiveCombischeme(); levels = s.getCombiSpaces(); coeffs = s.getCoeffs(); }
  const int nt = (int)levels.size();
  chooseDecomposition(fine);
  std::vector<Shape> shapes; for (auto& l : levels) { shapes.push_back(derivedShape(fine, std::vector<int>(l.begin(), l.end()))); if (hasEmptyPart(shapes.back())) vf_stop(); }
  std::vector<int> owner(nt); int used = 0;
  for (int t = 0; t < nt; ++t) { owner[t] = cfg("assign", 1) ? choicei("group", t, 0, S * G - 1) : t % (S * G); used |= 1 << owner[t]; }
  if (used != (1 << (S * G)) - 1) vf_stop();
  std::vector<size_t> ids; for (int t = 0; t < nt; ++t) ids.push_back(t);
  std::vector<bool> hdims(dim, false);
  CombiParameters params((DimType)dim, lmin, lmax, bdry, levels, coeffs, hdims, ids, 1, 1, variant, LevelVector(dim, 0), red, (uint32_t)cfg("mib", 16), false);
  params.setParallelization(fine.procs);
  { std::vector<IndexVector> dec; for (auto& v : fine.dec) dec.push_back(IndexVector(v.begin(), v.end())); params.setDecomposition(dec); }
  {
  ProcessGroupWorker<T> w; w.setCombiParameters(std::move(params));
  std::vector<LevelVector> myL; std::vector<real> myC; std::vector<size_t> myT;
  for (int t = 0; t < nt; ++t) if (owner[t] == group) { myL.push_back(levels[t]); myC.push_back(coeffs[t]); myT.push_back(t); }
  w.template initializeAllTasks<GridTask>(myL, myC, myT, (LoadModel*)nullptr);
  w.initCombinedDSGVector();
  int lr; MPI_Comm_rank(theMPISystem()->getLocalComm(), &lr); const std::vector<int> coords = cartCoords(fine, lr);
  std::vector<LevelVector> sgLevels; { auto& dl = w.getCombinedDSGVector()[0]->getAllLevelVectors(); for (size_t i = 0; i < dl.size(); ++i) sgLevels.push_back(dl[i]); }
  auto inSG = [&](const std::vector<int>& l) { for (auto& s : sgLevels) { bool e = true; for (int d = 0; d < dim; ++d) e &= s[d] == l[d]; if (e) return true; } return false; };
  auto value = [&](int t, const std::vector<int>& v) { return vf_double_i("x", (int64_t)t * 10000 + shapes[t].lin(v), -64, 64); };
  auto& tasks = w.getTasks();
  std::vector<std::vector<std::vector<int>>> pts; for (size_t k = 0; k < tasks.size(); ++k) pts.push_back(localPoints(shapes[myT[k]], coords));
  // one of the systems may be late at any of the steps
  const int lateAt = cfg("late", 1) ? vf_choice("late", 0, 3) : 0; const bool late = sys == 0;
  auto step = [&](int k) { if (late && lateAt == k) pause_(12); };
  auto name = [&](const char* b, int s, int r) { std::string n(b); n += std::to_string(s); n += '_'; n += std::to_string(r); return n; };
  std::vector<std::string> files, tokens;
  const bool copies = S > 2;  // with three systems, each reads copies of its own
  auto others = [&](const char* b, int r, bool cp) { files.clear(); tokens.clear(); for (int s = 0; s < S; ++s) if (s != sys || S == 1) { files.push_back(name(b, s, r)); if (cp) files.back() += "_for" + std::to_string(sys); tokens.push_back(files.back() + "_token.txt"); } };
  step(1); others("sizes", 0, false); w.reduceExtraSubspaceSizesFileBased(name("sizes", sys, 0), name("sizes", sys, 0) + "_token.txt", files, tokens);
  for (size_t k = 0; k < tasks.size(); ++k) { auto& g = tasks[k]->getDistributedFullGrid(0); vf_assert_eq_i((int64_t)g.getNrLocalElements(), (int64_t)pts[k].size(), "C21: local size"); for (size_t i = 0; i < pts[k].size(); ++i) g.getData()[i] = value((int)myT[k], pts[k][i]); }
  std::vector<std::map<PointId, double>> cur(nt);
  for (int t = 0; t < nt; ++t) for (long i = 0; i < shapes[t].total(); ++i) { auto v = shapes[t].vec(i); if (ownerOf(shapes[t], v) == lr) cur[t][pointId(shapes[t], v)] = value(t, v); }
  const bool keep = vf_choice("keep", 0, 1), overwrite = S == 1;
  for (int r = 0; r < cfg("rounds", 1); ++r) {
    std::vector<std::map<PointId, double>> nxt(nt);
    for (int t = 0; t < nt; ++t) for (auto& kv : cur[t]) {
      if (!inSG(kv.first.lev)) { nxt[t][kv.first] = kv.second; continue; }
      double e = 0; for (int u = 0; u < nt; ++u) { auto it = cur[u].find(kv.first); if (it != cur[u].end()) e += coeffs[u] * it->second; }
      nxt[t][kv.first] = e;
    }
    const std::string mine = name("sg", sys, r); others("sg", r, copies);
    step(2); w.combineSystemWideAndWrite(mine, mine + "_token.txt");
    if (copies && theMPISystem()->getOutputGroupComm() != MPI_COMM_NULL && theMPISystem()->getOutputGroupRank() == 0) for (int s = 0; s < S; ++s) if (s != sys) { std::string to = mine + "_for" + std::to_string(s); copyFile(mine + "_0.part0", to + "_0.part0"); copyFile(mine + "_token.txt.part0", to + "_token.txt.part0"); }
    step(3); w.combineReadDistributeSystemWide(files, tokens, overwrite, keep);
    for (size_t k = 0; k < tasks.size(); ++k) { const Shape& s = shapes[myT[k]]; auto& g = tasks[k]->getDistributedFullGrid(0);
      for (size_t i = 0; i < pts[k].size(); ++i) vf_assert_eq_d(g.getData()[i], nxt[myT[k]][pointId(s, pts[k][i])], "C21: hierarchical coefficient combined across systems"); }
    MPI_Barrier(MPI_COMM_WORLD);
    if (S == 2 || S == 1) for (int p = 0; p < parts; ++p) { std::string part = ".part" + std::to_string(p); vf_assert(!exists(mine + "_token.txt" + part), "C21: a token is removed once its file was read"); vf_assert(exists(mine + "_0" + part) == keep, "C21: sparse grid files are kept or removed as requested"); }
    MPI_Barrier(MPI_COMM_WORLD);
    cur = nxt;
  }
  vf_cover("C21 systems");
  }
  MPI_Finalize();
}
