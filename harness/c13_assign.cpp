// C13: component grids are distributed over process groups / systems without loss or duplication.
#include "common.hpp"
#include "combischeme/CombiMinMaxScheme.hpp"
#include "combischeme/CombiThirdLevelScheme.hpp"
using namespace combigrid;
using namespace vfh;
struct Scheme { std::vector<LevelVector> lev; std::vector<real> co; };
static Scheme pick(int n, int dim, int hi) {
  Scheme s;
  for (int i = 0; i < n; ++i) {
    LevelVector l(dim); for (int d = 0; d < dim; ++d) l[d] = (LevelType)(cfg("split", 0) ? vf_choice((nm("lev", i) + char('a' + d)).c_str(), 1, hi) : vf_int((nm("lev", i) + char('a' + d)).c_str(), 1, hi));
    s.lev.push_back(l); s.co.push_back(vf_real(nm("co", i).c_str(), -5, 5));
  }
  return s;
}
static long dof(const LevelVector& l, const std::vector<BoundaryType>& b) { long r = 1; for (size_t d = 0; d < l.size(); ++d) r *= (1 << l[d]) - 1 + b[d]; return r; }
static void groups() {
  const int n = vf_choice("n", 1, cfg("n", 4)), g = vf_choice("g", 1, std::min(n, cfg("g", 3))), dim = cfg("dim", 1), lb = cfg("lb", 0);
  Scheme s = pick(n, dim, cfg("hi", 5)); std::vector<BoundaryType> b(dim); for (int d = 0; d < dim; ++d) b[d] = (BoundaryType)choicei("b", d, 0, 2);
  CombiMinMaxScheme cs(s.lev, s.co);
  std::vector<int> owner(n, -1); std::vector<long> load(g, 0), last(g, 0); std::vector<int> num(g, 0);
  for (int k = 0; k < g; ++k) {
    std::vector<LevelVector> lv; std::vector<real> c; std::vector<size_t> t;
    size_t tot = lb ? getLoadBalancedLevels(cs, k, g, b, lv, c, t) : getRoundRobinLevels(cs, k, g, lv, c, t);
    vf_assert_eq_i((int64_t)tot, n, "C13: number of grids in the scheme");
    vf_assert(lv.size() == t.size() && c.size() == t.size(), "C13: one level and coefficient per assigned grid"); if (lv.size() != t.size() || c.size() != t.size()) return;
    num[k] = (int)t.size(); long mn = -1;
    for (size_t i = 0; i < t.size(); ++i) {
      vf_assert(t[i] < (size_t)n, "C13: assigned grid exists"); if (t[i] >= (size_t)n) return;
      vf_assert_eq_i(owner[t[i]], -1, "C13: assigned once"); owner[t[i]] = k;
      for (int d = 0; d < dim; ++d) vf_assert_eq_i(lv[i][d], s.lev[t[i]][d], "C13: level of the assigned grid");
      vf_assert_eq_d(c[i], s.co[t[i]], "C13: coefficient of the assigned grid");
      long w = dof(lv[i], b); load[k] += w; if (mn < 0 || w < mn) mn = w;
    }
    last[k] = std::max(0L, mn);
  }
  for (int i = 0; i < n; ++i) vf_assert(owner[i] >= 0, "C13: every grid is assigned");
  for (int a = 0; a < g; ++a) for (int c = 0; c < g; ++c) {
    if (lb) vf_assert(load[a] - last[a] <= load[c], "C13: no group is heavier than another by more than one grid");
    else vf_assert(num[a] <= num[c] + 1, "C13: round robin counts differ by at most one");
  }
  vf_cover("C13 groups");
}
static void systems() {
  const int n = vf_choice("n", 1, cfg("n", 6)), g = vf_choice("g", 1, cfg("g", 3)), dim = 2; Scheme s = pick(n, dim, 9);
  std::vector<real> f(g); real sum = 0; for (int k = 0; k + 1 < g; ++k) { f[k] = vf_real(nm("frac", k).c_str(), 0, 1); sum += f[k]; } f[g - 1] = 1. - sum; vf_assume(f[g - 1] >= 0);
  int next = 0; real scan = 0;
  for (int k = 0; k < g; ++k) {
    std::vector<LevelVector> lv; std::vector<real> c;
    CombiThirdLevelScheme::createThirdLevelScheme(s.lev, s.co, k, g, lv, c, f);
    vf_assert_eq_i((int64_t)lv.size(), (int64_t)c.size(), "C13: one coefficient per grid of a system"); if (lv.size() != c.size()) return;
    for (size_t i = 0; i < lv.size(); ++i, ++next) {
      vf_assert(next < n, "C13: systems do not share grids"); if (next >= n) return;
      for (int d = 0; d < dim; ++d) vf_assert_eq_i(lv[i][d], s.lev[next][d], "C13: grids of a system follow the previous system's");
      vf_assert_eq_d(c[i], s.co[next], "C13: coefficient follows its grid");
    }
    scan += f[k];
    if (g > 1) { vf_assert(next <= scan * n + 0.5 + 1e-9, "C13: share of a system"); vf_assert(next >= scan * n - 0.5 - 1e-9, "C13: share of a system"); }
  }
  vf_assert_eq_i(next, n, "C13: every grid belongs to a system");
  vf_cover("C13 systems");
}
void vf_main() { if (cfg("what", 0)) systems(); else groups(); }
