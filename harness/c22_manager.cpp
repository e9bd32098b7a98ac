// C22: the manager assigns every task once and its commands have the same effect for every order in which the groups finish.
#include <algorithm>
#include <filesystem>
#include "common.hpp"
#include "combischeme/CombiMinMaxScheme.hpp"
#include "manager/CombiParameters.hpp"
#include "manager/ProcessGroupManager.hpp"
#include "manager/ProcessGroupWorker.hpp"
#include "manager/ProcessManager.hpp"
#include "task/Task.hpp"
using namespace combigrid;
using namespace vfh;
using T = double;
static std::vector<int> gProcs, gRuns, gDiag;
static std::vector<Shape> gShapes;
static int gMe = 0;
#ifdef VF_NATIVE
static void pause_(int n) { for (int i = 0; i < n; ++i) { struct timespec t = {0, 50000000}; nanosleep(&t, nullptr); } }
#else
extern "C" void vf_yield();
static void pause_(int n) { for (int i = 0; i < 4 * n; ++i) vf_yield(); }
#endif
static double value(int t, const std::vector<int>& v) { return vf_double_i("x", (int64_t)t * 10000 + gShapes[t].lin(v), -64, 64); }
static double stepOf(int t, int k) { return (t + 1) * (k + 1); }
class GridTask : public Task<T> {
 public:
  GridTask(const LevelVector& l, const std::vector<BoundaryType>& b, real c, LoadModel* m) : Task<T>(l, b, c, m) {}
  void init(CommunicatorType comm, const std::vector<IndexVector>& dec) override { g_.reset(new OwningDistributedFullGrid<T>(getDim(), getLevelVector(), comm, getBoundary(), gProcs, false, dec)); }
  void run(CommunicatorType comm) override {
    const int t = (int)getID(); ++gRuns[t]; pause_(choicei("delay", t * 4 + std::min(steps_, 3), 0, steps_ < cfg("delays", 1) ? 2 : 0));
    if (steps_ == 0) { int r; MPI_Comm_rank(comm, &r); auto pts = localPoints(gShapes[t], cartCoords(gShapes[t], r)); vf_assert_eq_i((int64_t)g_->getNrLocalElements(), (int64_t)pts.size(), "C22: local size"); for (size_t i = 0; i < pts.size(); ++i) g_->getData()[i] = value(t, pts[i]); }
    else for (long i = 0; i < (long)g_->getNrLocalElements(); ++i) g_->getData()[i] += stepOf(t, steps_);
    ++steps_; setFinished(true);
  }
  DistributedFullGrid<T>& getDistributedFullGrid(size_t) override { return *g_; }
  const DistributedFullGrid<T>& getDistributedFullGrid(size_t) const override { return *g_; }
  void setZero() override { g_->setZero(); }
  void doDiagnostics() override { pause_(1); ++gDiag[getID()]; }
  std::unique_ptr<OwningDistributedFullGrid<T>> g_;
  int steps_ = 0;
 protected:
  GridTask() {}
 private:
  friend class boost::serialization::access;
  template <class A> void serialize(A& ar, const unsigned int) { ar& boost::serialization::base_object<Task<T>>(*this); ar& steps_; }
};
#include "utils/BoostExports.hpp"
BOOST_CLASS_EXPORT(GridTask)

struct Costs : LoadModel { std::map<LevelVector, int> c; real eval(const LevelVector& l) override { return c.at(l); } };
struct Mover : TaskRescheduler {
  LevelVector l; int by = 1, G = 1;
  std::vector<std::pair<LevelVector, int>> eval(const std::map<LevelVector, int>& m, const std::map<LevelVector, unsigned long>&, LoadModel*) override { std::vector<std::pair<LevelVector, int>> r; r.push_back({l, (m.at(l) + by) % G}); return r; }
};
enum Op { RUN, COMB, INTERP, NORM, PEVAL, UPDATE, MOVE, DIAG, MINMAX, WIDE };
using State = std::vector<std::map<PointId, double>>;
struct World {
  int dim, G, P, nt; Shape fine; LevelVector lmin, lmax; std::vector<BoundaryType> bdry; std::vector<LevelVector> levels; std::vector<real> coeffs; std::vector<int> hist;
  State cur; int steps = 0;
  bool inSG(const PointId& p) const { for (auto& l : levels) { bool e = true; for (int d = 0; d < dim; ++d) e &= p.lev[d] <= l[d]; if (e) return true; } return false; }
  void first() { cur.assign(nt, {}); for (int t = 0; t < nt; ++t) for (long i = 0; i < gShapes[t].total(); ++i) { auto v = gShapes[t].vec(i); cur[t][pointId(gShapes[t], v)] = value(t, v); } steps = 1; }
  void run() { for (int t = 0; t < nt; ++t) for (auto& kv : cur[t]) kv.second += stepOf(t, steps); ++steps; }
  double sum(const PointId& p) const { double e = 0; for (int u = 0; u < nt; ++u) { auto it = cur[u].find(p); if (it != cur[u].end()) e += coeffs[u] * it->second; } return e; }
  void combine() { State n(nt); for (int t = 0; t < nt; ++t) for (auto& kv : cur[t]) n[t][kv.first] = sum(kv.first); cur = n; }
};
// the multilinear interpolant of grid t
static double interpolant(const World& w, int t, const std::vector<double>& x) {
  const Shape& s = gShapes[t]; double r = 0;
  for (long i = 0; i < s.total(); ++i) { auto v = s.vec(i); double b = 1; for (int d = 0; d < s.dim; ++d) { const int N = 1 << s.level[d]; double h = std::max(0., 1 - std::abs(x[d] * N - s.pos(d, v[d]))); if (s.bdry[d] == 1 && v[d] == 0) h += std::max(0., 1 - std::abs(x[d] * N - N)); b *= h; } if (b != 0) r += b * w.cur[t].at(pointId(s, v)); }
  return r;
}
#ifdef VF_NATIVE
static void copyFile(const std::string& a, const std::string& b) { std::filesystem::copy_file(a, b); }
#else
extern "C" void vmpi_file_copy(const char*, const char*);
static void copyFile(const std::string& a, const std::string& b) { vmpi_file_copy(a.c_str(), b.c_str()); }
#endif
static bool exists(const std::string& f) { return std::filesystem::exists(f); }
static void worker(World& w) {
  std::vector<int> tracked; for (int o : w.hist) if (o == RUN || o == COMB || o == WIDE) tracked.push_back(o);
  size_t pos = 0; bool init = false, wide = false; std::vector<int> has(w.nt, 0);
  {
    ProcessGroupWorker<T> pg; SignalType sig = -1; int lr;
    while (sig != EXIT) {
      std::fill(has.begin(), has.end(), 0); for (auto& t : pg.getTasks()) ++has[t->getID()];
      sig = pg.wait(); MPI_Comm_rank(theMPISystem()->getLocalComm(), &lr);
      if (sig == INIT_DSGUS) { w.first(); init = true; }
      if (sig == RUN_NEXT || sig == COMBINE) {
        const int o = sig == RUN_NEXT ? RUN : COMB;
        while (pos < tracked.size() && tracked[pos] != o) { vf_assert(tracked[pos] == RUN && pg.getTasks().empty(), "C22: every group with tasks gets every command"); w.run(); ++pos; }
        vf_assert(pos < tracked.size(), "C22: no command is given twice"); if (o == RUN) w.run(); else w.combine(); ++pos;
      }
      // between the reduction and the result of a combination across systems the grids hold hierarchical coefficients
      if (sig == COMBINE_LOCAL_AND_GLOBAL) { wide = true; vf_assert(pos < tracked.size() && tracked[pos] == WIDE, "C22: no command is given twice"); ++pos; w.combine(); for (auto& g : w.cur) for (auto& kv : g) kv.second *= 2; }
      if (sig == WAIT_FOR_TL_COMBI_RESULT || sig == COMBINE_READ_DSGS_AND_REDUCE || sig == COMBINE_THIRD_LEVEL_FILE) wide = false;
      if (sig == UPDATE_COMBI_PARAMETERS) {
        auto& p = pg.getCombiParameters(); vf_assert_eq_i((int64_t)p.getNumLevels(), w.nt, "C22: number of grids in the parameters");
        for (int t = 0; t < w.nt; ++t) { vf_assert(p.getLevel(t) == w.levels[t], "C22: level in the parameters"); vf_assert(p.getCoeff(t) == w.coeffs[t], "C22: coefficient in the parameters"); }
        vf_assert(p.getLMin() == w.lmin && p.getLMax() == w.lmax && p.getBoundary() == w.bdry, "C22: levels and boundary in the parameters");
        for (int d = 0; d < w.dim; ++d) for (int c = 0; c < w.fine.procs[d]; ++c) vf_assert_eq_i(p.getDecomposition()[d][c], w.fine.dec[d][c], "C22: decomposition in the parameters");
      }
      if (init && !wide) for (auto& t : pg.getTasks()) {
        const int id = (int)t->getID(); auto& g = t->getDistributedFullGrid(0); auto pts = localPoints(gShapes[id], cartCoords(gShapes[id], lr));
        vf_assert(t->getLevelVector() == w.levels[id] && t->getCoefficient() == w.coeffs[id] && t->getBoundary() == w.bdry, "C22: the task is the one the manager knows by its number");
        vf_assert_eq_i((int64_t)g.getNrLocalElements(), (int64_t)pts.size(), "C22: local size");
        for (size_t i = 0; i < pts.size(); ++i) vf_assert_eq_d(g.getData()[i], w.cur[id].at(pointId(gShapes[id], pts[i])), "C22: grid value after the command");
      }
    }
  }
  const int group = gMe / w.P; std::vector<int> loc(w.nt); for (int t = 0; t < w.nt; ++t) loc[t] = has[t] * (group + 1);
  for (auto* v : {&gRuns, &has, &loc, &gDiag}) MPI_Reduce(v->data(), nullptr, w.nt, MPI_INT, MPI_SUM, w.G * w.P, MPI_COMM_WORLD);
}
static void manager(World& w, CombiParameters& params, std::vector<int>& moves) {
  std::vector<size_t> ids; TaskContainer<T> tasks; auto cost = std::make_unique<Costs>();
  for (int t = 0; t < w.nt; ++t) { cost->c[w.levels[t]] = choicei("cost", t, 0, cfg("costs", 0)); tasks.push_back(new GridTask(w.levels[t], w.bdry, w.coeffs[t], cost.get())); vf_assert_eq_i((int64_t)tasks.back()->getID(), t, "C22: task numbers"); }
  ProcessGroupManagerContainer<T> groups; for (int g = 0; g < w.G; ++g) groups.push_back(std::make_shared<ProcessGroupManager<T>>(g));
  auto mover = std::make_unique<Mover>(); Mover* mv = mover.get(); mv->G = w.G;
  ProcessManager<T> pm(groups, tasks, params, std::move(cost), std::move(mover));
  vf_assert(pm.runfirst(), "C22: no group failed"); w.first();
  if (w.nt >= w.G) for (auto& g : groups) vf_assert(g->getTaskContainer().size() > 0, "C22: every group gets a task when there are enough");
  int runs = 1, evals = 0; std::vector<int> diag(w.nt, 0);
  for (size_t k = 0; k < w.hist.size(); ++k) switch (w.hist[k]) {
    case RUN: vf_assert(pm.runnext(), "C22: no group failed"); w.run(); ++runs; break;
    case COMB: pm.combine(); w.combine(); break;
    case INTERP: {
      std::vector<std::vector<real>> x; for (int i = 0; i < 2; ++i) { x.push_back({}); for (int d = 0; d < w.dim; ++d) x.back().push_back(i ? 0.3125 : choicei("coord", d, cfg("coordlo", 0), 8) / 8.); }
      auto r = pm.interpolateValues(x); vf_assert_eq_i((int64_t)r.size(), 2, "C22: number of interpolated values");
      for (int i = 0; i < 2; ++i) { double e = 0; for (int t = 0; t < w.nt; ++t) e += w.coeffs[t] * interpolant(w, t, x[i]); vf_assert_eq_d(r[i], e, "C22: interpolated value of the combination"); }
      break; }
    case NORM: {
      auto m = pm.getLpNorms(1); vf_assert_eq_i((int64_t)m.size(), w.nt, "C22: one norm per task");
      for (int t = 0; t < w.nt; ++t) { double s = 0, h = 1; for (int d = 0; d < w.dim; ++d) h /= 1 << gShapes[t].level[d]; for (long i = 0; i < gShapes[t].total(); ++i) { auto v = gShapes[t].vec(i); double f = 1; for (int d = 0; d < w.dim; ++d) if (gShapes[t].bdry[d] == 2 && (v[d] == 0 || v[d] == gShapes[t].n[d] - 1)) f /= 2; double a = w.cur[t].at(pointId(gShapes[t], v)); s += f * (a < 0 ? -a : a); } vf_assert(m.count(t) == 1, "C22: norm of the task"); vf_assert_eq_d(m[t], s * h, "C22: norm of the task"); }
      break; }
    case PEVAL: {
      std::string f = "vf_c22_" + std::to_string(evals++); pm.parallelEval(w.lmax, f, (size_t)choicei("evalgroup", (int)k, 0, w.G - 1));
      MPI_File h; vf_assert_eq_i(MPI_File_open(MPI_COMM_SELF, f.c_str(), MPI_MODE_RDONLY, MPI_INFO_NULL, &h), MPI_SUCCESS, "C22: the file exists when parallelEval returns"); MPI_Offset sz; MPI_File_get_size(h, &sz);
      const long head = (1 + w.dim) * sizeof(int); vf_assert_eq_i((int64_t)sz, (int64_t)(head + w.fine.total() * sizeof(T)), "C22: the file is complete when parallelEval returns");
      std::vector<double> data(w.fine.total()); MPI_File_read_at(h, head, data.data(), (int)w.fine.total(), MPI_DOUBLE, MPI_STATUS_IGNORE); MPI_File_close(&h);
      // after a combination the values of the grids are those of the sparse grid
      for (long i = 0; i < w.fine.total(); ++i) { PointId p = pointId(w.fine, w.fine.vec(i)); double e = 0; for (int t = 0; t < w.nt; ++t) if (w.cur[t].count(p)) e = w.cur[t].at(p); vf_assert_eq_d(data[i], e, "C22: value in the file"); }
      break; }
    case UPDATE: pm.updateCombiParameters(); break;
    case MOVE: mv->l = w.levels[moves[k]]; mv->by = 1; pm.reschedule(); vf_assert_eq_i((int64_t)tasks.size(), w.nt, "C22: number of tasks after rescheduling"); break;
    case MINMAX: pm.writeSparseGridMinMaxCoefficients("vf_c22_minmax" + std::to_string(k)); break;
    case WIDE: {
      // the system exchanges its sparse grid with itself: the result is twice the combination
      const std::string f = "vf_c22_wide" + std::to_string(k), tok = "vf_c22_token" + std::to_string(k); pm.combineSystemWide(); w.combine(); for (auto& g : w.cur) for (auto& kv : g) kv.second *= 2;
      groups[0]->combineThirdLevelFileBasedWrite(f, tok); vf_assert(exists(f + "_0"), "C22: the sparse grid is in the file asked for"); vf_assert(exists(tok + ".part0"), "C22: the token is the file asked for");
      copyFile(f + "_0", f + "_0.part0"); groups[0]->combineThirdLevelFileBasedReadReduce(f, tok);
      vf_assert(!exists(f + "_0.part0") && !exists(tok + ".part0"), "C22: the files that were read are removed"); break; }
    case DIAG: { int t = choicei("diag", (int)k, 0, w.nt - 1); pm.doDiagnostics(t); ++diag[t]; break; }
  }
  std::vector<int> where(w.nt, 0), count(w.nt, 0); for (int g = 0; g < w.G; ++g) for (auto t : groups[g]->getTaskContainer()) { ++count[t->getID()]; where[t->getID()] = g + 1; }
  pm.exit();
  std::vector<int> r(w.nt), has(w.nt), loc(w.nt), dg(w.nt), zero(w.nt, 0); for (auto* v : {&r, &has, &loc, &dg}) MPI_Reduce(zero.data(), v->data(), w.nt, MPI_INT, MPI_SUM, w.G * w.P, MPI_COMM_WORLD);
  for (size_t k = 0; k < w.hist.size(); ++k) if (w.hist[k] == MINMAX) vf_assert(exists("vf_c22_minmax" + std::to_string(k) + "_0.txt"), "C22: the minimum and maximum coefficients are in the file asked for");
  for (int t = 0; t < w.nt; ++t) {
    vf_assert_eq_i(count[t], 1, "C22: the manager lists every task once"); vf_assert_eq_i(has[t], w.P, "C22: every task is on exactly one group"); vf_assert_eq_i(loc[t], w.P * where[t], "C22: the task is on the group the manager lists it for");
    vf_assert_eq_i(r[t], w.P * runs, "C22: every task runs once per step"); vf_assert_eq_i(dg[t], w.P * diag[t], "C22: diagnostics of the requested task");
  }
}
void vf_main() {
  MPI_Init(nullptr, nullptr);
  World w; const int dim = w.dim = cfg("dim", 1); w.G = cfg("G", 2);
  Shape& fine = w.fine; fine.dim = dim; fine.procs = procsFromConfig(dim); gProcs = fine.procs; w.P = 1; for (int p : fine.procs) w.P *= p;
  MPI_Comm_rank(MPI_COMM_WORLD, &gMe);
  w.lmin.resize(dim); w.lmax.resize(dim); w.bdry.resize(dim); fine.level.resize(dim); fine.bdry.resize(dim); fine.n.resize(dim);
  for (int d = 0; d < dim; ++d) { fine.bdry[d] = cfgi("b", d, -1); if (fine.bdry[d] < 0) fine.bdry[d] = choicei("b", d, 0, 2); w.bdry[d] = (BoundaryType)fine.bdry[d]; w.lmin[d] = (LevelType)cfgi("lmin", d, 1); w.lmax[d] = (LevelType)cfgi("lmax", d, 3); fine.level[d] = w.lmax[d]; fine.n[d] = npts(w.lmax[d], fine.bdry[d]); }
  const double cs[] = {1., -2., 3., 0.5};
  if (cfg("tasks", 0)) for (int t = 0; t < cfg("tasks", 0); ++t) { w.levels.push_back(LevelVector(1, (LevelType)(w.lmin[0] + t))); w.coeffs.push_back(cs[t % 4]); }
  else { CombiMinMaxScheme s((DimType)dim, w.lmin, w.lmax); s.createAdaptiveCombischeme(); w.levels = s.getCombiSpaces(); w.coeffs = s.getCoeffs(); }
  w.nt = (int)w.levels.size(); chooseDecomposition(fine);
  for (auto& l : w.levels) { gShapes.push_back(derivedShape(fine, std::vector<int>(l.begin(), l.end()))); if (hasEmptyPart(gShapes.back())) vf_stop(); }
  gRuns.assign(w.nt, 0); gDiag.assign(w.nt, 0);
  // the history: letters of "ops" chosen at each position; the sparse grid and moves need a combination directly before
  std::vector<int> moves;
  for (int k = 0; k < cfg("steps", 2); ++k) { int o = cfgi("op", k, -1); if (o < 0) o = choicei("op", k, 0, cfg("ops", 8)); if ((o == NORM || o == MINMAX) && cfg("nonorm", 0)) vf_stop(); if (o == PEVAL || o == MOVE || o == MINMAX) { if (cfg("variant", 1) != 1) vf_stop(); bool fresh = false; for (int q : w.hist) fresh = q == COMB ? true : q == RUN || q == WIDE ? false : fresh; if (!fresh) vf_stop(); } w.hist.push_back(o); moves.push_back(o == MOVE ? choicei("move", k, 0, w.nt - 1) : 0); }
  theMPISystem()->initWorldReusable(MPI_COMM_WORLD, w.G, w.P, true, false);
  std::vector<size_t> ids; for (int t = 0; t < w.nt; ++t) ids.push_back(t);
  CombiParameters params((DimType)dim, w.lmin, w.lmax, w.bdry, w.levels, w.coeffs, std::vector<bool>(dim, false), ids, 1, 1, cfg("variant", 1) == 1 ? CombinationVariant::sparseGridReduce : cfg("variant", 1) == 2 ? CombinationVariant::outgroupSparseGridReduce : CombinationVariant::chunkedOutgroupSparseGridReduce, LevelVector(dim, 0), LevelVector(dim, 0), 16, false);
  params.setParallelization(fine.procs);
  { std::vector<IndexVector> dec; for (auto& v : fine.dec) dec.push_back(IndexVector(v.begin(), v.end())); params.setDecomposition(dec); }
  if (gMe == w.G * w.P) manager(w, params, moves); else worker(w);
  vf_cover("C22 manager");
  MPI_Finalize();
}
