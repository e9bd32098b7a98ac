// C19: derived decompositions keep every shared point on its process; default decompositions are valid.
#include "common.hpp"
#include "utils/LevelSetUtils.hpp"
#include "utils/LevelVector.hpp"
#include "utils/PowerOfTwo.hpp"
#include "utils/DecompositionUtils.hpp"
using namespace combigrid;
using namespace vfh;
static void down() {
  const int dim = cfg("dim", 1); LevelVector R(dim), C(dim); std::vector<BoundaryType> b(dim); std::vector<IndexVector> dec(dim); std::vector<std::vector<int>> cut(dim); std::vector<int> N(dim), M(dim);
  for (int d = 0; d < dim; ++d) {
    R[d] = (LevelType)choicei("ref", d, 1, cfg("hi", 8)); C[d] = (LevelType)choicei("new", d, 1, R[d]); b[d] = (BoundaryType)choicei("b", d, 0, 2); N[d] = npts(R[d], b[d]); M[d] = npts(C[d], b[d]);
    dec[d].push_back(0);
    for (int c = 1; c < cfgi("p", d, 3); ++c) { int x = vf_int((nm("cut", d) + char('a' + c)).c_str(), 1, N[d]); vf_assume(x < N[d]); vf_assume(x > dec[d].back()); dec[d].push_back(x); }
  }
  auto nd = downsampleDecomposition(dec, R, C, b);
  vf_assert_eq_i((int64_t)nd.size(), dim, "C19: dimension of the derived decomposition");
  for (int d = 0; d < dim; ++d) {
    vf_assert_eq_i((int64_t)nd[d].size(), (int64_t)dec[d].size(), "C19: same number of processes");
    vf_assert_eq_i(nd[d][0], 0, "C19: the derived decomposition starts at the first point");
    // any coarse point: on process p or later on the coarse grid exactly if on the fine grid
    int c = vf_int(nm("pt", d).c_str(), 0, M[d]); vf_assume(c < M[d]);
    int off = b[d] == 0 ? 1 : 0, fine = ((c + off) << (R[d] - C[d])) - off;
    for (size_t p = 0; p < dec[d].size(); ++p) {
      vf_assert_eq_i((int)(c >= nd[d][p]), (int)(fine >= dec[d][p]), "C19: shared points stay on their process");
      vf_assert(nd[d][p] <= M[d], "C19: derived bounds within the grid");
      if (p) vf_assert(nd[d][p] >= nd[d][p - 1], "C19: derived bounds are monotone");
    }
  }
  vf_cover("C19 down");
}
static void deflt() {
  const int P = vf_choice("P", 1, cfg("P", 8)), fwd = vf_choice("fwd", 0, 1), N = vf_int("N", 1, cfg("N", 1 << 20)); vf_assume(N >= P);
  const int dim = 2; IndexVector n{(IndexType)N, 5}; std::vector<int> pr{P, 2};
  auto dec = getDefaultDecomposition(n, pr, fwd);
  vf_assert_eq_i((int64_t)dec.size(), dim, "C19: one vector per dimension"); vf_assert_eq_i((int64_t)dec[0].size(), P, "C19: one bound per process"); vf_assert_eq_i((int64_t)dec[1].size(), 2, "C19: one bound per process");
  vf_assert_eq_i(dec[0][0], 0, "C19: starts at the first point"); vf_assert_eq_i(dec[1][0], 0, "C19: starts at the first point"); vf_assert_eq_i(dec[1][1], fwd ? 3 : 2, "C19: points on a process boundary go to the chosen side");
  for (int j = 0; j < P; ++j) {
    int64_t hi = j + 1 < P ? (int64_t)dec[0][j + 1] : N, lo = dec[0][j];
    vf_assert(hi > lo, "C19: every process has points"); vf_assert((hi - lo) * P < (int64_t)N + P, "C19: no process has more than its share rounded up"); vf_assert((hi - lo) * P > (int64_t)N - P, "C19: no process has less than its share rounded down");
  }
  vf_cover("C19 default");
}
static void toomany() {
  const int P = vf_choice("P", 2, 6), N = vf_int("N", 1, 5); vf_assume(N < P); bool thrown = false; std::vector<int> pr{P};
  try { auto d = getDefaultDecomposition(IndexVector{(IndexType)N}, pr, true); (void)d; } catch (std::invalid_argument&) { thrown = true; }
  vf_assert(thrown, "C19: more processes than points are rejected"); vf_cover("C19 toomany");
}
static void standard() {
  const int P = vf_choice("P", 1, 4), l = vf_choice("l", 1, cfg("hi", 12)); if ((1 << l) + 1 < P) vf_stop();
  std::vector<int> pr{P}; auto dec = getStandardDecomposition(LevelVector{(LevelType)l}, pr);
  vf_assert_eq_i((int64_t)dec[0].size(), P, "C19: one bound per process"); vf_assert_eq_i(dec[0][0], 0, "C19: starts at the first point");
  for (int j = 0; j < P; ++j) vf_assert((j + 1 < P ? (int)dec[0][j + 1] : (1 << l) + 1) > dec[0][j], "C19: every process has points");
  vf_cover("C19 standard");
}
void vf_main() { switch (cfg("what", 0)) { case 0: down(); break; case 1: deflt(); break; case 2: toomany(); break; default: standard(); } }
