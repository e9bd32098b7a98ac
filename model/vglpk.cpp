// Model of the part of GLPK's interface the fault tolerance uses: 0/1 programs with equality rows. glp_intopt finds all
// optimal solutions (up to 8) by branch and bound and picks any of them; glp_get_col_prim stands for the continuous
// relaxation: any point of the relaxation at least as good as the integer optimum.
#include <vector>
#include "vf.h"
struct glp_prob { int dir, rows, cols, picks; std::vector<double> obj, lo, up, a, w, best; std::vector<int> kind; double top; std::vector<std::vector<double>> all; bool relaxed, solved; std::vector<double> r; };
static const double EPS = 1e-12;
static void search(glp_prob* p, int c, double val, double rest) {
  if (!p->all.empty() && val + rest < p->top - EPS) return;
  if (p->all.size() >= 8 && val + rest <= p->top + EPS) return;
  // a row that can no longer reach its bound ends the branch
  for (int i = 0; i < p->rows; ++i) { double s = 0, mn = 0, mx = 0; for (int j = 0; j < p->cols; ++j) { double x = p->a[i * p->cols + j]; if (j < c) s += x * p->w[j]; else if (x > 0) mx += x; else mn += x; } if (s + mx < p->lo[i] - EPS || s + mn > p->up[i] + EPS) return; }
  if (c == p->cols) { if (p->all.empty() || val > p->top + EPS) { p->all.clear(); p->top = val; } if (p->all.size() < 8) p->all.push_back(p->w); return; }
  const double o = p->dir * p->obj[c]; const double left = rest - (o > 0 ? o : 0);
  for (int k = 0; k < 2; ++k) { p->w[c] = o > 0 ? 1 - k : k; search(p, c + 1, val + o * p->w[c], left); }
  p->w[c] = 0;
}
extern "C" {
glp_prob* glp_create_prob() { glp_prob* p = new glp_prob; p->dir = 1; p->rows = p->cols = p->picks = 0; p->top = 0; p->relaxed = p->solved = false; return p; }
void glp_delete_prob(glp_prob* p) { delete p; }
void glp_set_prob_name(glp_prob*, const char*) {}
void glp_set_obj_dir(glp_prob* p, int d) { p->dir = d == 2 ? 1 : -1; }  // GLP_MIN = 1, GLP_MAX = 2
int glp_add_rows(glp_prob* p, int n) { if (n < 1) vf_fail("abort", "glp_add_rows: invalid number of rows"); p->rows += n; p->lo.resize(p->rows); p->up.resize(p->rows); return p->rows - n + 1; }
int glp_add_cols(glp_prob* p, int n) { if (n < 1) vf_fail("abort", "glp_add_cols: invalid number of columns"); p->cols += n; p->obj.resize(p->cols); p->kind.resize(p->cols); p->w.resize(p->cols); return p->cols - n + 1; }
void glp_set_row_name(glp_prob*, int, const char*) {}
void glp_set_col_name(glp_prob*, int, const char*) {}
void glp_set_row_bnds(glp_prob* p, int i, int type, double lb, double ub) {
  if (i < 1 || i > p->rows) vf_fail("abort", "glp_set_row_bnds: row number out of range");
  const double inf = 1e100; p->lo[i - 1] = type == 1 || type == 3 ? -inf : lb; p->up[i - 1] = type == 5 ? lb : type == 1 || type == 2 ? inf : ub;  // FR LO UP DB FX = 1..5
}
void glp_set_col_bnds(glp_prob* p, int j, int, double, double) { if (j < 1 || j > p->cols) vf_fail("abort", "glp_set_col_bnds: column number out of range"); }
void glp_set_obj_coef(glp_prob* p, int j, double c) { if (j < 1 || j > p->cols) vf_fail("abort", "glp_set_obj_coef: column number out of range"); p->obj[j - 1] = c; }
void glp_set_col_kind(glp_prob* p, int j, int k) { if (j < 1 || j > p->cols) vf_fail("abort", "glp_set_col_kind: column number out of range"); p->kind[j - 1] = k; }
void glp_load_matrix(glp_prob* p, int n, const int* ia, const int* ja, const double* ar) {
  p->a.assign(p->rows * p->cols, 0.); std::vector<int> seen(p->rows * p->cols, 0);
  for (int k = 1; k <= n; ++k) {
    if (ia[k] < 1 || ia[k] > p->rows || ja[k] < 1 || ja[k] > p->cols) vf_fail("abort", "glp_load_matrix: index out of range");
    const int q = (ia[k] - 1) * p->cols + ja[k] - 1; if (seen[q]++) vf_fail("abort", "glp_load_matrix: duplicate indices not allowed"); p->a[q] = ar[k];
  }
}
int glp_simplex(glp_prob* p, const void*) { p->relaxed = true; return 0; }
int glp_intopt(glp_prob* p, const void*) {
  if (!p->relaxed) vf_fail("abort", "glp_intopt: optimal basis required");
  for (int k : p->kind) if (k != 3) vf_unsupported("only binary columns are modelled");
  p->all.clear(); double rest = 0; for (double o : p->obj) if (p->dir * o > 0) rest += p->dir * o;
  search(p, 0, 0, rest); p->solved = !p->all.empty();
  if (p->solved) { char nm[8] = {'g', 'l', 'p', 0}; p->best = p->all[vf_choice(nm, 0, (int)p->all.size() - 1)]; }
  return 0;
}
int glp_mip_status(glp_prob* p) { return p->solved ? 5 : 4; }  // GLP_OPT, GLP_NOFEAS
double glp_mip_col_val(glp_prob* p, int j) { if (j < 1 || j > p->cols) vf_fail("abort", "glp_mip_col_val: column number out of range"); return p->solved ? p->best[j - 1] : 0; }
double glp_get_col_prim(glp_prob* p, int j) {
  if (j < 1 || j > p->cols) vf_fail("abort", "glp_get_col_prim: column number out of range");
  if (p->r.empty()) {
    double val = 0; for (int c = 0; c < p->cols; ++c) { p->r.push_back(vf_double_i("relaxed", c, 0, 1)); val += p->dir * p->obj[c] * p->r[c]; }
    for (int i = 0; i < p->rows; ++i) { double s = 0; for (int c = 0; c < p->cols; ++c) s += p->a[i * p->cols + c] * p->r[c]; vf_assume(s == p->lo[i]); }
    vf_assume(val >= p->top);
  }
  return p->r[j - 1];
}
}
