// C11: interpolation on a distributed grid; C12: operations on the whole distributed grid.
#include <algorithm>
#include <iostream>
#include <iomanip>
#include "common.hpp"
#include "fullgrid/DistributedFullGrid.hpp"
using namespace combigrid;
using namespace vfh;
using T = double;
static std::unique_ptr<OwningDistributedFullGrid<T>> grid(const Shape& s, MPI_Comm c) {
  std::vector<IndexVector> dec; for (auto& x : s.dec) dec.push_back(IndexVector(x.begin(), x.end()));
  return std::unique_ptr<OwningDistributedFullGrid<T>>(new OwningDistributedFullGrid<T>((DimType)s.dim, LevelVector(s.level.begin(), s.level.end()), c, std::vector<BoundaryType>(s.bdry.begin(), s.bdry.end()), s.procs, cfg("fwd", 0) != 0, dec));
}
static double value(const Shape& s, const std::vector<int>& v) { return vf_double_i("v", s.lin(v), -64, 64); }
// weight of the hat function of each point at the coordinate (cell + t) / 2^level
static std::vector<double> weights(const Shape& s, int d, int cell, double t) {
  std::vector<double> w(s.n[d], 0.); const int N = 1 << s.level[d];
  for (int k = 0; k < 2; ++k) { int x = cell + k; double f = k ? t : 1. - t; if (s.bdry[d] == 1 && x == N) x = 0; int i = x - (s.bdry[d] == 0 ? 1 : 0); if (i >= 0 && i < s.n[d]) w[i] += f; }
  return w;
}
static double interpolant(const Shape& s, const std::vector<std::vector<double>>& w) {
  double r = 0; for (long g = 0; g < s.total(); ++g) { auto v = s.vec(g); double f = 1; for (int d = 0; d < s.dim; ++d) f *= w[d][v[d]]; r += f * value(s, v); } return r;
}
static void evaluate() {
  Shape s = chooseShape(); chooseDecomposition(s); MPI_Comm c = cartComm(s.procs, 0); auto g = grid(s, c); const int nc = cfg("coords", 1);
  auto pts = localPoints(s, cartCoords(s, g->getRank())); for (size_t i = 0; i < pts.size(); ++i) g->getData()[i] = value(s, pts[i]);
  std::vector<std::vector<real>> xs; std::vector<double> want;
  for (int k = 0; k < nc; ++k) {
    std::vector<real> x(s.dim); std::vector<std::vector<double>> w(s.dim);
    // kind of coordinate: anywhere in a cell, or exactly a multiple of the mesh width including both ends
    for (int d = 0; d < s.dim; ++d) {
      const int N = 1 << s.level[d]; const bool node = choicei("node", k * s.dim + d, 0, 1) != 0; const int cell = choicei("cell", k * s.dim + d, 0, node ? N : N - 1);
      if (node) { x[d] = (double)cell / N; w[d] = weights(s, d, cell, 0.); }
      else { double t = vf_real(nm("t", k * s.dim + d).c_str(), 0, 1); x[d] = (cell + t) / N; w[d] = weights(s, d, cell, t); }
    }
    xs.push_back(x); want.push_back(interpolant(s, w));
  }
  auto r = g->getInterpolatedValues(xs); vf_assert_eq_i((int64_t)r.size(), nc, "C11: number of values");
  for (int k = 0; k < nc; ++k) vf_assert_eq_d(r[k], want[k], "C11: interpolated value");
  // the contributions of the processes sum up to the value
  double l = g->evalLocal(xs[0]), sum = 0; MPI_Allreduce(&l, &sum, 1, MPI_DOUBLE, MPI_SUM, c); vf_assert_eq_d(sum, want[0], "C11: sum of the local contributions");
  vf_cover("C11 eval");
}
static void collect() {
  Shape s = chooseShape(); chooseDecomposition(s); auto g = grid(s, cartComm(s.procs, 0));
  auto pts = localPoints(s, cartCoords(s, g->getRank())); for (size_t i = 0; i < pts.size(); ++i) g->getData()[i] = value(s, pts[i]);
  std::vector<int> P = s.procs; int n = 1; for (int p : P) n *= p; const int root = vf_choice("root", 0, n - 1);
  FullGrid<T> fg((DimType)s.dim, LevelVector(s.level.begin(), s.level.end()), std::vector<BoundaryType>(s.bdry.begin(), s.bdry.end()));
  if (vf_choice("created", 0, 1)) fg.createFullGrid();
  g->gatherFullGrid(fg, root);
  if (g->getRank() == root) { vf_assert_eq_i((int64_t)fg.getNrElements(), s.total(), "C12: gathered size"); for (long i = 0; i < s.total(); ++i) vf_assert_eq_d(fg.getData()[i], value(s, s.vec(i)), "C12: gathered value"); }
  auto cv = g->getCornersValues(); auto ci = g->getCornersGlobalVectorIndices(); vf_assert_eq_i((int64_t)cv.size(), 1 << s.dim, "C12: number of corners"); vf_assert_eq_i((int64_t)ci.size(), 1 << s.dim, "C12: number of corners");
  std::set<std::vector<int>> seen;
  for (size_t k = 0; k < cv.size(); ++k) { std::vector<int> v(s.dim), key(s.dim); for (int d = 0; d < s.dim; ++d) { v[d] = (int)ci[k][d]; vf_assert((v[d] == 0) | (v[d] == s.n[d] - 1), "C12: corner index"); } seen.insert(v); vf_assert_eq_d(cv[k], value(s, v), "C12: corner value"); }
  long distinct = 1; for (int d = 0; d < s.dim; ++d) distinct *= s.n[d] > 1 ? 2 : 1; vf_assert_eq_i((int64_t)seen.size(), distinct, "C12: every corner");
  for (size_t i = 0; i < pts.size(); ++i) vf_assert_eq_d(g->getData()[i], value(s, pts[i]), "C12: data unchanged");
  vf_cover("C12 collect");
}
static void norms() {
  Shape s = chooseShape(); chooseDecomposition(s); auto g = grid(s, cartComm(s.procs, 0)); const int p = cfg("pn", -1) < 0 ? vf_choice("p", 0, 2) : cfg("pn", 0), free = vf_choice("free", 0, (int)s.total() - 1);
  // one value of any sign, the others of alternating fixed sign (keeps the number of sign cases small)
  auto val = [&](long i) { return i == free ? vf_double_i("v", i, -8, 8) : (i % 2 ? -1. : 1.) * vf_double_i("v", i, 0, 8); };
  auto abs = [&](long i) { double x = val(i); return i == free ? std::abs(x) : i % 2 ? -x : x; };
  auto pts = localPoints(s, cartCoords(s, g->getRank())); for (size_t i = 0; i < pts.size(); ++i) g->getData()[i] = val(s.lin(pts[i]));
  const double r = g->getLpNorm(p);
  if (p == 0) { bool attained = false; for (long i = 0; i < s.total(); ++i) { vf_assert(r >= abs(i), "C12: maximum norm"); attained = attained | (r == abs(i)); } vf_assert(attained, "C12: maximum norm is attained"); }
  else {  // sum of |v|^p weighted with the integrals of the nodal basis functions
    double sum = 0, h = 1; for (int d = 0; d < s.dim; ++d) h /= 1 << s.level[d];
    for (long i = 0; i < s.total(); ++i) { auto v = s.vec(i); double w = 1; for (int d = 0; d < s.dim; ++d) if (s.bdry[d] == 2 && (v[d] == 0 || v[d] == s.n[d] - 1)) w *= 0.5; double a = abs(i); sum += w * (p == 1 ? a : a * a); }
    if (p == 1) vf_assert_eq_d(r, sum * h, "C12: l1 norm"); else { vf_assert(r >= 0, "C12: l2 norm is not negative"); vf_assert_eq_d(r, std::sqrt(sum * (h * h)), "C12: l2 norm"); }
  }
  vf_cover("C12 norms");
}
static void layers() {
  Shape s = chooseShape(); chooseDecomposition(s); const int d = vf_choice("dir", 0, s.dim - 1), what = vf_choice("op", 0, 3);
  const bool copy = what == 3; if (copy && s.bdry[d] != 2) vf_stop();
  int per = 0; for (int k = 0; k < s.dim; ++k) per += s.bdry[k] == 1;
  if (!copy && per != 0 && per != s.dim) vf_stop();  // the communicator is periodic in all dimensions or none
  auto g = grid(s, cartComm(s.procs, !copy && per ? 1 : 0)); const auto c = cartCoords(s, g->getRank());
  auto pts = localPoints(s, c); for (size_t i = 0; i < pts.size(); ++i) g->getData()[i] = value(s, pts[i]);
  if (copy) {
    g->writeLowerBoundaryToUpperBoundary((DimType)d);
    for (size_t i = 0; i < pts.size(); ++i) { auto v = pts[i]; if (v[d] == s.n[d] - 1) v[d] = 0; vf_assert_eq_d(g->getData()[i], value(s, v), "C12: upper boundary equals lower boundary"); }
    vf_cover("C12 copy"); return;
  }
  std::vector<int> ext; std::vector<T> layer;
  if (what == 0) layer = g->exchangeGhostLayerUpward((DimType)d, ext);
  else if (what == 1) g->exchangeGhostLayerUpward((DimType)d, ext, layer);
  else { MPI_Request q; g->exchangeGhostLayerUpward((DimType)d, ext, layer, &q); MPI_Wait(&q, MPI_STATUS_IGNORE); }
  const bool has = per || c[d] > 0; vf_assert_eq_i((int64_t)ext.size(), s.dim, "C12: extents of the ghost layer"); long n = 1;
  for (int k = 0; k < s.dim; ++k) { const int e = !has ? 0 : k == d ? 1 : s.hi(k, c[k]) - s.lo(k, c[k]); vf_assert_eq_i(ext[k], e, "C12: extent of the ghost layer"); n *= e; }
  vf_assert_eq_i((int64_t)layer.size(), n, "C12: size of the ghost layer");
  if (has) {  // the layer of points directly below the own points, in storage order
    long i = 0; for (auto v : pts) if (v[d] == s.lo(d, c[d])) { v[d] = (v[d] + s.n[d] - 1) % s.n[d]; vf_assert_eq_d(layer[i++], value(s, v), "C12: ghost value"); }
  }
  for (size_t i = 0; i < pts.size(); ++i) vf_assert_eq_d(g->getData()[i], value(s, pts[i]), "C12: data unchanged");
  vf_cover("C12 ghost");
}
static void plot() {
  Shape s = chooseShape(); chooseDecomposition(s); auto g = grid(s, cartComm(s.procs, 0));
  auto pts = localPoints(s, cartCoords(s, g->getRank())); for (size_t i = 0; i < pts.size(); ++i) g->getData()[i] = value(s, pts[i]);
  const char* name = "vf_c12_plot.dat";
  g->writePlotFile(name);
  MPI_File f; vf_assert_eq_i(MPI_File_open(MPI_COMM_WORLD, name, MPI_MODE_RDONLY, MPI_INFO_NULL, &f), MPI_SUCCESS, "C12: plot file exists"); MPI_Offset sz; MPI_File_get_size(f, &sz);
  vf_assert_eq_i((int64_t)sz, (int64_t)((1 + s.dim) * sizeof(int) + s.total() * sizeof(T)), "C12: size of the plot file");
  std::vector<int> head(1 + s.dim); MPI_File_read_at(f, 0, head.data(), 1 + s.dim, MPI_INT, MPI_STATUS_IGNORE); vf_assert_eq_i(head[0], s.dim, "C12: plot file dimension"); for (int d = 0; d < s.dim; ++d) vf_assert_eq_i(head[1 + d], s.n[d], "C12: plot file resolution");
  std::vector<T> data(s.total()); MPI_File_read_at(f, (1 + s.dim) * sizeof(int), data.data(), (int)s.total(), MPI_DOUBLE, MPI_STATUS_IGNORE);
  for (long i = 0; i < s.total(); ++i) vf_assert_eq_d(data[i], value(s, s.vec(i)), "C12: plot file value");
  MPI_File_close(&f); if (g->getRank() == 0) MPI_File_delete(name, MPI_INFO_NULL);
  vf_cover("C12 plot");
}
void vf_main() {
  MPI_Init(nullptr, nullptr);
  switch (cfg("what", 0)) { case 0: evaluate(); break; case 1: collect(); break; case 2: norms(); break; case 3: layers(); break; case 4: plot(); break; }
  MPI_Finalize();
}
