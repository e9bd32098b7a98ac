// C18: proposals of the rescheduler and the averages of the load models.
#include "common.hpp"
#include <chrono>
#include "loadmodel/AverageOfLastNLoadModel.hpp"
#include "loadmodel/LinearLoadModel.hpp"
#include "rescheduler/RebalancingTaskRescheduler.hpp"
#include "rescheduler/StaticTaskRescheduler.hpp"
using namespace combigrid;
using namespace vfh;
struct Fixed : MicrocsecondsLearningLoadModel {
  std::map<LevelVector, unsigned long> d;
  void addDurationInformation(const DurationInformation&, const LevelVector&) override {}
  std::chrono::microseconds evalSpecificUOT(const LevelVector& l) override { return std::chrono::microseconds{(long)d.at(l)}; }
  real eval(const LevelVector& l) override { return (real)d.at(l); }
};
static void moves() {
  const int n = vf_choice("n", 1, cfg("n", 3)), g = cfg("g", 3), other = cfg("other", 0); const long hi = cfg("hi", 255);
  std::map<LevelVector, int> group; std::map<LevelVector, unsigned long> dur; Fixed model; std::vector<LevelVector> lv; std::vector<unsigned long> m(n); std::vector<int> at(n);
  for (int i = 0; i < n; ++i) {
    LevelVector l{(LevelType)(1 + i % 2), (LevelType)(1 + i / 2)}; lv.push_back(l);
    at[i] = choicei("group", i, 0, g - 1); m[i] = (unsigned long)vf_long(nm("duration", i).c_str(), 0, hi);
    group[l] = 2 + 3 * at[i]; dur[l] = m[i]; model.d[l] = other ? (unsigned long)vf_long(nm("forecast", i).c_str(), 0, hi) : m[i];
  }
  const unsigned it = (unsigned)vf_choice("iterations", 0, cfg("it", 2)); const double inb = vf_choice("imbalance", 0, 2) * 0.75;
  RebalancingTaskRescheduler r(it, inb);
  auto p = r.eval(group, dur, &model);
  vf_assert(p.size() <= it, "C18: at most one move per iteration");
  std::vector<int> to = at; std::vector<int> times(n, 0);
  for (auto& x : p) {
    int k = -1; for (int i = 0; i < n; ++i) if (lv[i] == x.first) k = i;
    vf_assert(k >= 0, "C18: the proposed task is known"); if (k < 0) return;
    vf_assert_eq_i(++times[k], 1, "C18: a task is proposed at most once");
    int q = -1; for (int i = 0; i < n; ++i) if (group[lv[i]] == x.second) q = at[i];
    vf_assert(q >= 0, "C18: the proposed group is one of the groups that hold tasks"); if (q < 0) return;
    to[k] = q;
  }
  if (!other) {
    std::vector<unsigned long> a(g, 0), b(g, 0); for (int i = 0; i < n; ++i) { a[at[i]] += m[i]; b[to[i]] += m[i]; }
    for (int k = 0; k < g; ++k) { bool ok = false; for (int q = 0; q < g; ++q) ok = ok | (b[k] <= a[q]); vf_assert(ok, "C18: no group becomes slower than the slowest was"); }
  }
  struct Lin : LinearLoadModel {} plain;
  vf_assert(r.eval(group, dur, &plain).empty(), "C18: no proposals without a learning model");
  StaticTaskRescheduler st; vf_assert(st.eval(group, dur, &model).empty(), "C18: the static rescheduler proposes nothing");
  vf_cover("C18 moves");
}
static void average() {
  const int N = vf_choice("N", 1, cfg("N", 3)), k = vf_choice("k", 0, cfg("k", 5)), k2 = vf_choice("k2", 0, 1);
  LevelVector a{2, 3}, b{3, 2};
  struct Fallback : LoadModel { double v; real eval(const LevelVector& l) override { return v + l[0]; } };
  auto fb = std::make_unique<Fallback>(); fb->v = vf_real("fallback", 0, 1000); const double f = fb->v;
  AverageOfLastNLoadModel m((unsigned)N, {a, b}, std::move(fb));
  auto avg = [&](const std::vector<unsigned long>& d, const LevelVector& l) {
    const int c = std::min<int>((int)d.size(), N);
    if (c == 0) { vf_assert_eq_d(m.eval(l), f + l[0], "C18: value of the fallback model without history"); vf_assert_eq_i(m.evalSpecificUOT(l).count(), 0, "C18: zero duration without history"); return; }
    unsigned long s = 0; for (int i = 0; i < c; ++i) s += d[d.size() - 1 - i];
    long q = (long)m.evalSpecificUOT(l).count();
    vf_assert((q >= 0) & ((unsigned long)q * c <= s) & (s < ((unsigned long)q + 1) * c), "C18: average of the last N durations");
    vf_assert_eq_d(m.eval(l), (double)q, "C18: load is the average");
  };
  std::vector<unsigned long> da, db;
  for (int i = 0; i < k; ++i) {
    if (i == 2 && k2) { db.push_back(17); m.addDurationInformation(DurationInformation{1, 17, 0., 0., 0, 1}, b); }
    unsigned long x = (unsigned long)vf_long(nm("t", i).c_str(), 0, 1l << 44); da.push_back(x);
    m.addDurationInformation(DurationInformation{0, x, 0., 0., 0, 1}, a);
  }
  avg(da, a); avg(db, b);
  vf_cover("C18 average");
}
static void linear() {
  const int dim = vf_choice("dim", 1, 4); LevelVector l(dim); long s = 0; for (int d = 0; d < dim; ++d) { l[d] = (LevelType)choicei("l", d, 0, cfg("hi", 7)); s += l[d]; }
  LinearLoadModel m; vf_assert_eq_d(m.eval(l), (double)(1l << s), "C18: linear load is two to the level sum"); vf_cover("C18 linear");
}
void vf_main() { int w = cfg("what", 0); if (w == 0) moves(); else if (w == 1) average(); else linear(); }
