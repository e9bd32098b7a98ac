// C24: two systems that exchange through the third level manager hold the combination of all their grids.
#include <sys/select.h>
#include <sys/socket.h>
#include <netdb.h>
#include <arpa/inet.h>
#include <algorithm>
#include "common.hpp"
#include "manager/CombiParameters.hpp"
#include "manager/ProcessGroupManager.hpp"
#include "manager/ProcessGroupWorker.hpp"
#include "manager/ProcessManager.hpp"
#include "task/Task.hpp"
using namespace combigrid;
using namespace vfh;
using T = double;
// ---- sockets: every call of send is a message of the side communicator; recv returns (parts of) one message
static MPI_Comm gNet; static int gMe = 0, gBroker = 0, gPer = 1, gAccepted = 0; static int gPeer[8]; static int gOrder[2] = {0, 1};
static std::vector<char> gBuf[8]; static size_t gPos[8];
size_t vf_broker_chunk = 131072; unsigned vf_broker_systems = 2;
void vf_broker();
#ifdef VF_NATIVE
#define SOCK(x) __wrap_##x
extern "C" int __real_close(int);
static void pause_(int n) { for (int i = 0; i < n; ++i) { struct timespec t = {0, 50000000}; nanosleep(&t, nullptr); } }
#else
#define SOCK(x) x
extern "C" void vf_yield();
static void pause_(int n) { for (int i = 0; i < 8 * n; ++i) vf_yield(); }
#endif
enum { FD = 900 };
extern "C" {
int SOCK(socket)(int, int, int) { return FD; }
int SOCK(bind)(int, const struct sockaddr*, socklen_t) { return 0; }
int SOCK(listen)(int, int) { return 0; }
int SOCK(connect)(int, const struct sockaddr*, socklen_t) { gPeer[0] = gBroker; return 0; }
int SOCK(accept)(int, struct sockaddr* a, socklen_t*) { memset(a, 0, sizeof(struct sockaddr_in)); const int i = ++gAccepted; gPeer[i] = gOrder[i - 1] * gPer + gPer - 1; return FD + i; }
int SOCK(close)(int fd) {
#ifdef VF_NATIVE
  if (fd >= 0 && (fd < FD || fd > FD + 7)) return __real_close(fd);
#endif
  return 0;
}
unsigned SOCK(sleep)(unsigned) { return 0; }
char* SOCK(inet_ntoa)(struct in_addr) { static char s[] = "127.0.0.1"; return s; }
struct hostent* SOCK(gethostbyname)(const char*) { static struct hostent h; static char a[4] = {127, 0, 0, 1}; static char* l[2] = {a, nullptr}; h.h_addr_list = l; h.h_length = 4; return &h; }
ssize_t SOCK(send)(int fd, const void* b, size_t n, int) { MPI_Send(b, (int)n, MPI_BYTE, gPeer[fd - FD], 7, gNet); return (ssize_t)n; }
static void fetch(int i) { MPI_Status st; int n; MPI_Probe(gPeer[i], 7, gNet, &st); MPI_Get_count(&st, MPI_BYTE, &n); gBuf[i].resize(n); gPos[i] = 0; MPI_Recv(gBuf[i].data(), n, MPI_BYTE, gPeer[i], 7, gNet, MPI_STATUS_IGNORE); }
ssize_t SOCK(recv)(int fd, void* b, size_t n, int) { const int i = fd - FD; if (gPos[i] >= gBuf[i].size()) fetch(i); const size_t k = std::min(n, gBuf[i].size() - gPos[i]); memcpy(b, gBuf[i].data() + gPos[i], k); gPos[i] += k; return (ssize_t)k; }
int SOCK(select)(int nfd, fd_set* r, fd_set*, fd_set*, struct timeval*) { const int i = nfd - 1 - FD; int f = gPos[i] < gBuf[i].size(); if (!f) MPI_Iprobe(gPeer[i], 7, gNet, &f, MPI_STATUS_IGNORE); if (!f) FD_CLR(nfd - 1, r); return f; }
}
// the random points: different ones in the two systems
#ifdef VF_NATIVE
#define POINTS __wrap__ZN9combigrid10montecarlo20getRandomCoordinatesEim
#else
#define POINTS vfm__ZN9combigrid10montecarlo20getRandomCoordinatesEim
#endif
static int gSys = 0;
extern "C" std::vector<std::vector<real>> POINTS(int n, size_t dim) { std::vector<std::vector<real>> r; for (int i = 0; i < n; ++i) { r.push_back({}); for (size_t d = 0; d < dim; ++d) r.back().push_back((1 + 3 * gSys + 2 * i + (int)d) / 8.); } return r; }
static std::vector<int> gProcs; static std::vector<Shape> gShapes; static std::vector<int> gMine;
static double value(int t, const std::vector<int>& v) { return vf_double_i("x", (int64_t)t * 10000 + gShapes[t].lin(v), -64, 64); }
static double stepOf(int t, int k) { return (t + 1) * (k + 1); }
class GridTask : public Task<T> {
 public:
  GridTask(const LevelVector& l, const std::vector<BoundaryType>& b, real c, LoadModel* m) : Task<T>(l, b, c, m) {}
  void init(CommunicatorType comm, const std::vector<IndexVector>& dec) override { g_.reset(new OwningDistributedFullGrid<T>(getDim(), getLevelVector(), comm, getBoundary(), gProcs, false, dec)); }
  void run(CommunicatorType comm) override {
    const int t = gMine[getID()]; pause_(choicei("delay", gSys * 4 + std::min(steps_, 3), 0, steps_ < cfg("delays", 1) && getID() == 0 ? 1 : 0));
    if (steps_ == 0) { int r; MPI_Comm_rank(comm, &r); auto pts = localPoints(gShapes[t], cartCoords(gShapes[t], r)); vf_assert_eq_i((int64_t)g_->getNrLocalElements(), (int64_t)pts.size(), "C24: local size"); for (size_t i = 0; i < pts.size(); ++i) g_->getData()[i] = value(t, pts[i]); }
    else for (long i = 0; i < (long)g_->getNrLocalElements(); ++i) g_->getData()[i] += stepOf(t, steps_);
    ++steps_; setFinished(true);
  }
  DistributedFullGrid<T>& getDistributedFullGrid(size_t) override { return *g_; }
  const DistributedFullGrid<T>& getDistributedFullGrid(size_t) const override { return *g_; }
  void setZero() override { g_->setZero(); }
  std::unique_ptr<OwningDistributedFullGrid<T>> g_;
  int steps_ = 0;
 protected:
  GridTask() {}
 private:
  friend class boost::serialization::access;
  template <class A> void serialize(A& ar, const unsigned int) { ar& boost::serialization::base_object<Task<T>>(*this); ar& steps_; }
};
#include "utils/BoostExports.hpp"
BOOST_CLASS_EXPORT(GridTask)
struct Unit : LoadModel { real eval(const LevelVector&) override { return 1; } };
using State = std::vector<std::map<PointId, double>>;
struct World {
  int G, P, nt; Shape fine; LevelVector lmin, lmax; std::vector<BoundaryType> bdry; std::vector<LevelVector> levels; std::vector<real> coeffs; std::vector<int> sys; State cur; int steps = 0;
  void first() { cur.assign(nt, {}); for (int t = 0; t < nt; ++t) for (long i = 0; i < gShapes[t].total(); ++i) { auto v = gShapes[t].vec(i); cur[t][pointId(gShapes[t], v)] = value(t, v); } steps = 1; }
  void run() { for (int t = 0; t < nt; ++t) for (auto& kv : cur[t]) kv.second += stepOf(t, steps); ++steps; }
  double sum(const PointId& p, int s) const { double e = 0; for (int u = 0; u < nt; ++u) if (s < 0 || sys[u] == s) { auto it = cur[u].find(p); if (it != cur[u].end()) e += coeffs[u] * it->second; } return e; }
  // with an extra sparse grid only the subspaces that both systems have are exchanged
  bool has(const PointId& p, int s) const { for (int u = 0; u < nt; ++u) if (sys[u] == s && cur[u].count(p)) return true; return false; }
  void combine(bool across) { State n(nt); for (int t = 0; t < nt; ++t) for (auto& kv : cur[t]) n[t][kv.first] = sum(kv.first, across ? -1 : sys[t]); cur = n; }
};
static void compare(World& w, ProcessGroupWorker<T>& pg) {
  int lr; MPI_Comm_rank(theMPISystem()->getLocalComm(), &lr);
  for (auto& t : pg.getTasks()) {
    const int id = gMine[t->getID()]; auto& g = t->getDistributedFullGrid(0); auto pts = localPoints(gShapes[id], cartCoords(gShapes[id], lr)); vf_assert_eq_i((int64_t)g.getNrLocalElements(), (int64_t)pts.size(), "C24: local size");
    for (size_t i = 0; i < pts.size(); ++i) vf_assert_eq_d(g.getData()[i], w.cur[id].at(pointId(gShapes[id], pts[i])), "C24: grid value after the exchange");
  }
}
static void worker(World& w) {
  ProcessGroupWorker<T> pg; SignalType sig = -1; bool init = false, wide = false;
  while (sig != EXIT) {
    sig = pg.wait();
    if (sig == INIT_DSGUS) { w.first(); init = true; }
    if (sig == RUN_NEXT) w.run();
    if (sig == COMBINE) w.combine(false);
    if (sig == COMBINE_LOCAL_AND_GLOBAL) wide = true;
    if (sig == WAIT_FOR_TL_COMBI_RESULT || sig == COMBINE_THIRD_LEVEL) { wide = false; w.combine(true); }
    if (init && !wide) compare(w, pg);
  }
}
// the multilinear interpolant of grid t
static double interpolant(const World& w, int t, const std::vector<double>& x) {
  const Shape& s = gShapes[t]; double r = 0;
  for (long i = 0; i < s.total(); ++i) { auto v = s.vec(i); double b = 1; for (int d = 0; d < s.dim; ++d) { const int N = 1 << s.level[d]; double h = std::max(0., 1 - std::abs(x[d] * N - s.pos(d, v[d]))); if (s.bdry[d] == 1 && v[d] == 0) h += std::max(0., 1 - std::abs(x[d] * N - N)); b *= h; } if (b != 0) r += b * w.cur[t].at(pointId(s, v)); }
  return r;
}
// the systems agree on points and add up their values there
static void evaluate(World& w, ProcessManager<T>& pm) {
  const int dim = w.fine.dim; std::vector<std::vector<real>> x; std::vector<T> v; pm.monteCarloThirdLevel(2, x, v); vf_assert_eq_i((int64_t)x.size(), 2, "C24: number of points"); vf_assert_eq_i((int64_t)v.size(), 2, "C24: number of values");
  std::vector<double> mine, other; for (auto& c : x) { vf_assert_eq_i((int64_t)c.size(), dim, "C24: dimension of the points"); mine.insert(mine.end(), c.begin(), c.end()); } other.resize(mine.size());
  const int peer = (1 - gSys) * gPer + gPer - 1; MPI_Sendrecv(mine.data(), (int)mine.size(), MPI_DOUBLE, peer, 9, other.data(), (int)mine.size(), MPI_DOUBLE, peer, 9, gNet, MPI_STATUS_IGNORE);
  for (size_t i = 0; i < mine.size(); ++i) vf_assert(mine[i] == other[i], "C24: both systems use the same points");
  for (int i = 0; i < 2; ++i) { double e = 0; for (int t = 0; t < w.nt; ++t) e += w.coeffs[t] * interpolant(w, t, x[i]); vf_assert_eq_d(v[i], e, "C24: value at a point, summed over the systems"); }
}
static void manager(World& w, CombiParameters& params) {
  TaskContainer<T> tasks; auto lm = std::make_unique<Unit>(); for (int t : gMine) tasks.push_back(new GridTask(w.levels[t], w.bdry, w.coeffs[t], lm.get()));
  ProcessGroupManagerContainer<T> groups; for (int g = 0; g < w.G; ++g) groups.push_back(std::make_shared<ProcessGroupManager<T>>(g));
  { ProcessManager<T> pm(groups, tasks, params, std::move(lm));
    pm.runfirst(); const bool extra = cfg("extra", 0); size_t n = pm.unifySubspaceSizesThirdLevel(extra);
    // the number of values the systems exchange
    std::set<std::vector<int>> mine, other; w.first(); std::set<PointId> pm_, po_; for (int t = 0; t < w.nt; ++t) for (auto& kv : w.cur[t]) (w.sys[t] == gSys ? pm_ : po_).insert(kv.first);
    size_t e = 0; std::set<PointId> all = pm_; all.insert(po_.begin(), po_.end()); for (auto& p : all) e += extra ? pm_.count(p) && po_.count(p) : 1; vf_assert_eq_i((int64_t)n, (int64_t)e, "C24: number of exchanged values");
    for (int k = 0; k < cfg("steps", 1); ++k) { const int o = cfgi("op", k, -1) >= 0 ? cfgi("op", k, 0) : choicei("op", k, 0, cfg("ops", 3)); if (o == 0) { pm.combineThirdLevel(); w.combine(true); } else if (o == 1) { pm.runnext(); w.run(); } else if (o == 2) { pm.combine(); w.combine(false); } else evaluate(w, pm); }
    pm.exit(); }
}
void vf_main() {
  MPI_Init(nullptr, nullptr);
  World w; const int dim = cfg("dim", 1); w.G = cfg("G", 1); Shape& fine = w.fine; fine.dim = dim; fine.procs = procsFromConfig(dim); gProcs = fine.procs; w.P = 1; for (int p : fine.procs) w.P *= p;
  MPI_Comm_rank(MPI_COMM_WORLD, &gMe); gPer = w.G * w.P + 1; gBroker = 2 * gPer; gSys = gMe / gPer; MPI_Comm_dup(MPI_COMM_WORLD, &gNet); MPI_Comm mine; MPI_Comm_split(MPI_COMM_WORLD, gSys, gMe, &mine);
  w.lmin.resize(dim); w.lmax.resize(dim); w.bdry.resize(dim); fine.level.resize(dim); fine.bdry.resize(dim); fine.n.resize(dim);
  for (int d = 0; d < dim; ++d) { fine.bdry[d] = cfgi("b", d, -1); if (fine.bdry[d] < 0) fine.bdry[d] = choicei("b", d, 0, 2); w.bdry[d] = (BoundaryType)fine.bdry[d]; w.lmin[d] = (LevelType)cfgi("lmin", d, 1); w.lmax[d] = (LevelType)cfgi("lmax", d, 2); fine.level[d] = w.lmax[d]; fine.n[d] = npts(w.lmax[d], fine.bdry[d]); }
  const double cs[] = {1., -2., 3., 0.5}; w.nt = cfg("tasks", 2); int used = 0;
  for (int t = 0; t < w.nt; ++t) { LevelVector l(dim); for (int d = 0; d < dim; ++d) l[d] = (LevelType)choicei("level", t * dim + d, w.lmin[d], w.lmax[d]); w.levels.push_back(l); w.coeffs.push_back(cs[t % 4]); w.sys.push_back(cfg("assign", 1) ? choicei("sys", t, 0, 1) : t % 2); }
  for (int s = 0; s < 2; ++s) { int n = 0; for (int t = 0; t < w.nt; ++t) n += w.sys[t] == s; if (n < w.G) vf_stop(); } (void)used;
  { int top = 0, df = 0; for (int d = 0; d < dim; ++d) { top += w.lmin[d]; df = std::max(df, (int)(w.lmax[d] - w.lmin[d])); } for (auto& l : w.levels) { int s = 0; for (auto x : l) s += x; if (s > top + df) vf_stop(); } }  // grids inside the sparse grid
  chooseDecomposition(fine); for (auto& l : w.levels) { gShapes.push_back(derivedShape(fine, std::vector<int>(l.begin(), l.end()))); if (hasEmptyPart(gShapes.back())) vf_stop(); }
  if (gMe == gBroker) { vf_broker_chunk = cfg("chunk", 4096); gOrder[0] = choicei("first", 0, 0, 1); gOrder[1] = 1 - gOrder[0]; vf_broker(); for (int i = 1; i <= 2; ++i) vf_assert(gPos[i] >= gBuf[i].size(), "C24: the broker read every message"); vf_cover("C24 exchange"); MPI_Finalize(); return; }
  std::vector<LevelVector> myL; std::vector<real> myC; std::vector<size_t> ids; for (int t = 0; t < w.nt; ++t) if (w.sys[t] == gSys) { gMine.push_back(t); myL.push_back(w.levels[t]); myC.push_back(w.coeffs[t]); ids.push_back(ids.size()); }
  theMPISystem()->initWorldReusable(mine, w.G, w.P, true, false);
  const int pg = w.G > 1 ? choicei("tlgroup", gSys, 0, w.G - 1) : 0; const int var = cfg("variant", 0);
  CombiParameters params((DimType)dim, w.lmin, w.lmax, w.bdry, myL, myC, std::vector<bool>(dim, false), ids, 1, 1, var == 0 ? CombinationVariant::sparseGridReduce : CombinationVariant::outgroupSparseGridReduce, LevelVector(dim, 0), LevelVector(dim, 0), 16, false, "broker", 9999, (size_t)pg);
  params.setParallelization(fine.procs); { std::vector<IndexVector> dec; for (auto& v : fine.dec) dec.push_back(IndexVector(v.begin(), v.end())); params.setDecomposition(dec); }
  if (gMe % gPer == gPer - 1) manager(w, params); else worker(w);
  vf_cover("C24 exchange");
  MPI_Finalize();
}
