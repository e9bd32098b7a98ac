// C20: the serial full grid: index conversions, level/index notation, evaluation, addition, hierarchization.
#include "common.hpp"
#include <iostream>
#include <iomanip>
#include "fullgrid/FullGrid.hpp"
#include "hierarchization/Hierarchization.hpp"
using namespace combigrid;
using namespace vfh;
static FullGrid<double> mk(const Shape& s) { return FullGrid<double>((DimType)s.dim, LevelVector(s.level.begin(), s.level.end()), std::vector<BoundaryType>(s.bdry.begin(), s.bdry.end())); }
static Shape sub(const Shape& s) { return s; }
static void indices() {
  Shape s = chooseShape(); const int dim = s.dim; FullGrid<double> g = mk(s);
  vf_assert_eq_i(g.getNrElements(), s.total(), "C20: number of points"); long off = 1;
  for (int d = 0; d < dim; ++d) { vf_assert_eq_i(g.length((DimType)d), s.n[d], "C20: points per dimension"); vf_assert_eq_i(g.getOffset((DimType)d), off, "C20: offset"); off *= s.n[d]; }
  g.createFullGrid(); vf_assert_eq_i((int64_t)g.getElementVector().size(), s.total(), "C20: allocated points");
  for (long i = 0; i < s.total(); ++i) {
    auto v = s.vec(i); IndexVector q(dim); g.getVectorIndex((IndexType)i, q);
    for (int d = 0; d < dim; ++d) vf_assert_eq_i(q[d], v[d], "C20: vector index");
    vf_assert_eq_i(g.getLinearIndex(q), i, "C20: linear index");
    std::vector<real> c(dim); g.getCoords((IndexType)i, c); LevelVector l(dim); IndexVector x(dim); g.getLI((IndexType)i, l, x);
    for (int d = 0; d < dim; ++d) {
      const int p = s.pos(d, v[d]), N = 1 << s.level[d];
      vf_assert_eq_d(c[d], (double)p / N, "C20: coordinate");
      // level and index describe the same coordinate (the lower boundary is (0,0), the upper (0,1)), and are reduced
      vf_assert_eq_i(l[d], levelOf(p, s.level[d]), "C20: hierarchical level");
      vf_assert_eq_d((double)x[d] / (double)(1 << l[d]), (double)p / N, "C20: level and index describe the coordinate");
    }
  }
  vf_cover("C20 indices");
}
static void fill(FullGrid<double>& g, const Shape& s, const char* n) { g.createFullGrid(); for (long i = 0; i < s.total(); ++i) g.getData()[i] = vf_double_i(n, i, -64, 64); }
// weights of the points of one dimension at position (cell k, offset t): linear between neighbours, continued linearly outside the outermost points; a single point: its hat
static std::vector<double> weights(int n, int first, int k, double t) {
  std::vector<double> w(n, 0.);
  if (n == 1) { w[0] = k == 0 ? t : 1. - t; return w; }
  int lo = std::min(std::max(k - first, 0), n - 2); double x = (k - first - lo) + t;
  w[lo] = 1. - x; w[lo + 1] = x; return w;
}
static double interpolate(const FullGrid<double>& g, const Shape& s, const std::vector<std::vector<double>>& w) {
  double r = 0; for (long i = 0; i < s.total(); ++i) { auto v = s.vec(i); double f = 1; for (int d = 0; d < s.dim; ++d) f *= w[d][v[d]]; r += f * g.getData()[i]; } return r;
}
static void evaluate() {
  Shape s = chooseShape(); const int dim = s.dim; FullGrid<double> g = mk(s); fill(g, s, "v");
  std::vector<real> c(dim); std::vector<std::vector<double>> w(dim);
  for (int d = 0; d < dim; ++d) {
    const int N = 1 << s.level[d], k = choicei("cell", d, 0, N - 1); double t = vf_real(nm("t", d).c_str(), 0, 1);
    c[d] = (k + t) / N; w[d] = weights(s.n[d], s.bdry[d] == 0 ? 1 : 0, k, t);
  }
  vf_assert_eq_d(g.eval(c), interpolate(g, s, w), "C20: value at a coordinate"); vf_cover("C20 eval");
}
static void add() {
  Shape a = chooseShape(), b = a; const int dim = a.dim;
  for (int d = 0; d < dim; ++d) { b.level[d] = choicei("other", d, 1, cfgi("l", d, 3)); b.bdry[d] = choicei("ob", d, 0, 2); b.n[d] = npts(b.level[d], b.bdry[d]); }
  FullGrid<double> g = mk(a), h = mk(b); const bool created = vf_choice("created", 0, 1); if (created) fill(g, a, "v"); fill(h, b, "w"); std::vector<double> old(a.total(), 0.); if (created) old = g.getElementVector();
  const double co = vf_choice("co", 0, 1) ? 1. : -2.5;
  g.add(h, co);
  for (long i = 0; i < a.total(); ++i) {
    auto v = a.vec(i); std::vector<std::vector<double>> w(dim);
    for (int d = 0; d < dim; ++d) { double y = (double)a.pos(d, v[d]) / (1 << a.level[d]) * (1 << b.level[d]); int k = std::min((int)std::floor(y), (1 << b.level[d]) - 1); w[d] = weights(b.n[d], b.bdry[d] == 0 ? 1 : 0, k, y - k); }
    vf_assert_eq_d(g.getData()[i], old[i] + co * interpolate(h, b, w), "C20: sum of the grids");
  }
  vf_cover("C20 add");
}
static void hier() {
  Shape s = chooseShape(); const int dim = s.dim; for (int d = 0; d < dim; ++d) if (s.bdry[d] == 1) vf_stop();
  FullGrid<double> g = mk(s); fill(g, s, "v"); std::vector<double> old = g.getElementVector();
  Hierarchization::hierarchize(g); vf_assert(g.isHierarchized(), "C20: marked as hierarchized");
  // hierarchical surplus: value minus the mean of the hierarchical parents, dimension by dimension
  std::vector<double> ref = old;
  for (int d = 0; d < dim; ++d) {
    std::vector<double> in = ref;
    for (long i = 0; i < s.total(); ++i) {
      auto v = s.vec(i); int p = s.pos(d, v[d]), l = levelOf(p, s.level[d]); if (l == 0) continue; int h = 1 << (s.level[d] - l);
      for (int q : {p - h, p + h}) { int j = q - s.pos(d, 0); if (j < 0 || j >= s.n[d]) continue; auto u = v; u[d] = j; ref[i] -= 0.5 * in[s.lin(u)]; }
    }
  }
  for (long i = 0; i < s.total(); ++i) vf_assert_eq_d(g.getData()[i], ref[i], "C20: hierarchical surplus");
  Hierarchization::dehierarchize(g); vf_assert(!g.isHierarchized(), "C20: marked as nodal");
  for (long i = 0; i < s.total(); ++i) vf_assert_eq_d(g.getData()[i], old[i], "C20: values after the round trip");
  vf_cover("C20 hier");
}
static void norms() {
  Shape s = chooseShape(); FullGrid<double> g = mk(s); g.createFullGrid(); const int z = vf_choice("zeros", 0, (int)s.total() - 1);
  for (long i = 0; i < s.total(); ++i) g.getData()[i] = i == z ? vf_double_i("v", i, -64, 64) : (i % 2 ? -1. : 1.) * vf_double_i("v", i, 1, 64);
  auto abs = [&](long i) { double x = g.getData()[i]; return x < 0 ? -x : x; };
  double s1 = 0; for (long i = 0; i < s.total(); ++i) s1 += abs(i);
  vf_assert_eq_d(g.getlpNorm(1), s1, "C20: l1 norm");
  double mx = g.getlpNorm(0); bool attained = false; for (long i = 0; i < s.total(); ++i) { vf_assert(mx >= abs(i), "C20: maximum norm"); attained = attained | (mx == abs(i)); } vf_assert(attained, "C20: maximum norm is attained");
  vf_cover("C20 norms");
}
void vf_main() { int w = cfg("what", 0); if (w == 0) indices(); else if (w == 1) evaluate(); else if (w == 2) add(); else if (w == 3) hier(); else norms(); }
