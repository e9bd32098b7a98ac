// Shared helpers of the verification harnesses.  Compiled both to bitcode (symx) and natively (replay).
#pragma once
#include <mpi.h>
#include <array>
#include <cmath>
#include <complex>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <string>
#include <vector>
#include "vf.h"

namespace vfh {
inline std::string nm(const char* b, int i) { return std::string(b) + char('0' + i / 10 % 10) + char('0' + i % 10); }
inline int cfg(const char* k, int d) { return (int)vf_config(k, d); }
inline int cfgi(const char* b, int i, int d) { return (int)vf_config(nm(b, i).c_str(), d); }
inline int choicei(const char* b, int i, int lo, int hi) { return vf_choice(nm(b, i).c_str(), lo, hi); }

// process grid from configuration p00,p01,...
inline std::vector<int> procsFromConfig(int dim) {
  std::vector<int> p(dim);
  for (int d = 0; d < dim; ++d) p[d] = cfgi("p", d, 1);
  return p;
}
inline MPI_Comm cartComm(const std::vector<int>& procs, int periodic = 0, MPI_Comm base = MPI_COMM_WORLD) {
  std::vector<int> periods(procs.size(), periodic);
  MPI_Comm c;
  MPI_Cart_create(base, (int)procs.size(), procs.data(), periods.data(), 0, &c);
  return c;
}
// number of points of a one-dimensional grid: the definition
inline int npts(int level, int bdry) { return bdry == 2 ? (1 << level) + 1 : bdry == 1 ? (1 << level) : (1 << level) - 1; }
// hierarchical level of grid position x in [0, 2^l] (position counted including the lower boundary)
inline int levelOf(int x, int l) {
  if (x == 0 || x == (1 << l)) return 0;
  int r = l;
  while (x % 2 == 0) { x /= 2; --r; }
  return r;
}
struct Shape {
  int dim; std::vector<int> level, bdry, n, procs; std::vector<std::vector<int>> dec;  // dec: first index per process
  long total() const { long t = 1; for (int x : n) t *= x; return t; }
  int pos(int d, int i) const { return i + (bdry[d] == 0 ? 1 : 0); }
  int lev(int d, int i) const { return levelOf(pos(d, i), level[d]); }
  std::vector<int> vec(long g) const { std::vector<int> r(dim); for (int d = 0; d < dim; ++d) { r[d] = (int)(g % n[d]); g /= n[d]; } return r; }
  long lin(const std::vector<int>& v) const { long r = 0; for (int d = dim - 1; d >= 0; --d) r = r * n[d] + v[d]; return r; }
  int lo(int d, int c) const { return dec[d][c]; }
  int hi(int d, int c) const { return c + 1 < procs[d] ? dec[d][c + 1] : n[d]; }
};
// choose an arbitrary decomposition with non-empty parts ("dec" = 1) or leave it to the code (0)
inline void chooseDecomposition(Shape& s, const char* name = "cut") {
  s.dec.assign(s.dim, {});
  for (int d = 0; d < s.dim; ++d) {
    s.dec[d].push_back(0);
    for (int c = 1; c < s.procs[d]; ++c) {
      std::string k = nm(name, d) + char('a' + c);
      s.dec[d].push_back(vf_choice(k.c_str(), s.dec[d].back() + 1, s.n[d] - (s.procs[d] - c)));
    }
  }
}
// dimension, process grid from the configuration; level (lmin..lNN), boundary kind and decomposition chosen by the solver
inline Shape chooseShape() {
  Shape s; s.dim = cfg("dim", 1); s.procs = procsFromConfig(s.dim); s.level.resize(s.dim); s.bdry.resize(s.dim); s.n.resize(s.dim);
  int budget = cfg("lsum", 99);
  for (int d = 0; d < s.dim; ++d) {
    s.bdry[d] = cfgi("b", d, -1); if (s.bdry[d] < 0) s.bdry[d] = choicei("b", d, 0, 2);
    s.level[d] = choicei("level", d, cfg("lmin", 1), std::min(cfgi("l", d, 3), budget)); budget -= s.level[d];
    s.n[d] = npts(s.level[d], s.bdry[d]);
    if (s.n[d] < s.procs[d]) vf_stop();
  }
  return s;
}
// cartesian coordinates of a rank (MPI: row-major, last dimension fastest)
inline std::vector<int> cartCoords(const Shape& s, int r) { std::vector<int> c(s.dim); for (int d = s.dim - 1; d >= 0; --d) { c[d] = r % s.procs[d]; r /= s.procs[d]; } return c; }
inline int cartRank(const Shape& s, const std::vector<int>& c) { int r = 0; for (int d = 0; d < s.dim; ++d) r = r * s.procs[d] + c[d]; return r; }
inline int ownerCoord(const Shape& s, int d, int i) { int c = 0; while (c + 1 < s.procs[d] && s.dec[d][c + 1] <= i) ++c; return c; }
inline int ownerOf(const Shape& s, const std::vector<int>& v) { std::vector<int> c(s.dim); for (int d = 0; d < s.dim; ++d) c[d] = ownerCoord(s, d, v[d]); return cartRank(s, c); }
// the same grid at another level, distributed like s (every shared point on the same process); empty parts are returned as they are
inline Shape derivedShape(const Shape& s, const std::vector<int>& level) {
  Shape c = s; c.level = level; c.dec.assign(s.dim, {});
  for (int d = 0; d < s.dim; ++d) {
    c.n[d] = npts(level[d], s.bdry[d]);
    for (int p = 0; p < s.procs[d]; ++p) {  // first coarse point at or above the first fine point of process p
      if (p == 0) { c.dec[d].push_back(0); continue; }
      int fine = s.pos(d, s.dec[d][p]), step = 1 << (s.level[d] - level[d]);
      int first = (fine + step - 1) / step - (s.bdry[d] == 0 ? 1 : 0);
      c.dec[d].push_back(std::min(first, c.n[d]));
    }
  }
  return c;
}
inline bool hasEmptyPart(const Shape& s) { for (int d = 0; d < s.dim; ++d) for (int p = 0; p < s.procs[d]; ++p) if (s.hi(d, p) <= s.lo(d, p)) return true; return false; }
// hierarchical level (boundary counted as level one) of a local point, and its identity independent of the grid level
struct PointId { std::vector<int> lev, num; bool operator<(const PointId& o) const { return lev != o.lev ? lev < o.lev : num < o.num; } };
inline PointId pointId(const Shape& s, const std::vector<int>& v) {
  PointId p; for (int d = 0; d < s.dim; ++d) { int x = s.pos(d, v[d]), l = levelOf(x, s.level[d]); p.lev.push_back(std::max(1, l)); p.num.push_back(x << (20 - s.level[d])); } return p;
}
// global index vectors of the local points of process coordinates c, in storage order
inline std::vector<std::vector<int>> localPoints(const Shape& s, const std::vector<int>& c) {
  std::vector<std::vector<int>> r; long n = 1; for (int d = 0; d < s.dim; ++d) n *= s.hi(d, c[d]) - s.lo(d, c[d]);
  for (long i = 0; i < n; ++i) { long q = i; std::vector<int> v(s.dim); for (int d = 0; d < s.dim; ++d) { int w = s.hi(d, c[d]) - s.lo(d, c[d]); v[d] = (int)(q % w) + s.lo(d, c[d]); q /= w; } r.push_back(v); }
  return r;
}
}  // namespace vfh
