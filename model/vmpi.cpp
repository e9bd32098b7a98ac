// Executable model of MPI for symx. All ranks live in one address space; globals whose name starts with
// vfshared_ are shared between ranks. Blocking = cooperative yield until some rank makes progress.
// Semantics chosen: message matching at post time (non-overtaking); transfer as late as progress rules allow
// (receiver's completion call or sender's completion call), so that touching a buffer of a pending operation
// is observable; MPI_Send is buffered when sendmode=0 and synchronous when sendmode=1; collectives synchronise;
// every mismatch (kind, root, op, size), truncation, invalid rank or use of a freed communicator is a violation.
#include <mpi.h>
#include <cstring>
#include <cstdlib>
#include "vf.h"
extern "C" void vf_yield();
#define SH(x) vfshared_##x
template <class T> struct V { T* d = nullptr; int n = 0, cap = 0; void push(const T& x) { if (n == cap) { cap = cap ? cap * 2 : 8; T* q = (T*)malloc(sizeof(T) * cap); if (n) memcpy((void*)q, (void*)d, sizeof(T) * n); free(d); d = q; } d[n++] = x; } T& operator[](int i) { return d[i]; } void erase(int i) { for (int k = i; k + 1 < n; k++) d[k] = d[k + 1]; n--; } };
struct vmpi_group { int n; int* r; };
struct Coll;
struct vmpi_comm { int id, n; int* mem; int nd; int* dims; int* per; int* seq; V<Coll*> colls; int freed; vmpi_comm* self; };
struct Rec { bool send; int src, dst, tag; vmpi_comm* c; void* buf; int cnt; vmpi_type* t; Rec* match; bool done; char* eager; size_t bytes; bool consumed; };
struct vmpi_req { int kind; Rec* rec; Coll* coll; };
enum CK { C_BARRIER = 1, C_BCAST, C_REDUCE, C_ALLREDUCE, C_SCAN, C_EXSCAN, C_GATHER, C_ALLGATHER, C_SCATTER, C_ALLTOALL, C_SPLIT, C_CREATE, C_DUP, C_CART, C_FOPEN, C_CARTSUB };
struct CArg { const void* sb; void* rb; int sc, rc; vmpi_type *st, *rt; const int *rcs, *disp; int color, key; void* out; };
struct Coll { int kind, root, arrived; vmpi_op* op; CArg* a; bool done; bool* here; };
struct FObj { char name[256]; char* d; size_t n, cap; bool exists; };
struct vmpi_file { FObj* f; long long disp; vmpi_type *et, *ft; long long pos; int amode; vmpi_comm* c; };
struct Shared { V<Rec*> sends, recvs; V<FObj*> files; int nextComm; vmpi_comm** self; };
extern "C" {
Shared* vfshared_S; vmpi_comm* vfshared_world; vmpi_comm* vfshared_commnull;
static ptrdiff_t SH(zero)[1] = {0};
static size_t SH(l1)[1] = {1}, SH(l2)[1] = {2}, SH(l4)[1] = {4}, SH(l8)[1] = {8}, SH(l16)[1] = {16};
enum TK { T_CHAR, T_SCHAR, T_UCHAR, T_BYTE, T_SHORT, T_USHORT, T_INT, T_UINT, T_LONG, T_ULONG, T_LLONG, T_ULLONG, T_FLOAT, T_DOUBLE, T_LDOUBLE, T_BOOL, T_CFLOAT, T_CDOUBLE, T_PACKED, T_2INT, T_DINT, T_DERIVED };
#define DT(n, k, s) vmpi_type vfshared_t_##n = {k, s, 0, s, 1, SH(zero), SH(l##s), nullptr, 0, 0, 0, 0, nullptr, nullptr, nullptr, 1};
DT(char, T_CHAR, 1) DT(schar, T_SCHAR, 1) DT(uchar, T_UCHAR, 1) DT(byte, T_BYTE, 1) DT(short, T_SHORT, 2) DT(ushort, T_USHORT, 2) DT(int, T_INT, 4) DT(uint, T_UINT, 4) DT(long, T_LONG, 8) DT(ulong, T_ULONG, 8) DT(llong, T_LLONG, 8) DT(ullong, T_ULLONG, 8) DT(float, T_FLOAT, 4) DT(double, T_DOUBLE, 8) DT(ldouble, T_LDOUBLE, 16) DT(bool, T_BOOL, 1) DT(cfloat, T_CFLOAT, 8) DT(cdouble, T_CDOUBLE, 16) DT(packed, T_PACKED, 1) DT(2int, T_2INT, 8) DT(doubleint, T_DINT, 16)
enum OK { O_SUM = 1, O_PROD, O_MAX, O_MIN, O_LAND, O_LOR, O_BAND, O_BOR, O_BXOR, O_LXOR, O_MAXLOC, O_MINLOC, O_REPLACE, O_USER };
vmpi_op vfshared_o_sum = {O_SUM, 0}, vfshared_o_prod = {O_PROD, 0}, vfshared_o_max = {O_MAX, 0}, vfshared_o_min = {O_MIN, 0}, vfshared_o_land = {O_LAND, 0}, vfshared_o_lor = {O_LOR, 0}, vfshared_o_band = {O_BAND, 0}, vfshared_o_bor = {O_BOR, 0}, vfshared_o_bxor = {O_BXOR, 0}, vfshared_o_lxor = {O_LXOR, 0}, vfshared_o_maxloc = {O_MAXLOC, 0}, vfshared_o_minloc = {O_MINLOC, 0}, vfshared_o_replace = {O_REPLACE, 0};
}
static void bad(const char* m) { vf_fail("mpi", m); }
static vmpi_comm* mkComm(int n) { vmpi_comm* c = (vmpi_comm*)calloc(1, sizeof(vmpi_comm)); c->n = n; c->mem = (int*)calloc(n, sizeof(int)); c->seq = (int*)calloc(n, sizeof(int)); c->id = vfshared_S->nextComm++; c->nd = -1; c->self = c; return c; }
static Shared* S() {
  if (!vfshared_S) {
    vfshared_S = (Shared*)calloc(1, sizeof(Shared)); int n = vf_nranks();
    vmpi_comm* w = mkComm(n); for (int i = 0; i < n; i++) w->mem[i] = i; vfshared_world = w;
    vfshared_S->self = (vmpi_comm**)calloc(n, sizeof(void*)); for (int i = 0; i < n; i++) { vmpi_comm* c = mkComm(1); c->mem[0] = i; vfshared_S->self[i] = c; }
  }
  return vfshared_S;
}
static int rankIn(vmpi_comm* c) { int w = vf_rank(); for (int i = 0; i < c->n; i++) if (c->mem[i] == w) return i; return MPI_UNDEFINED; }
static void chkComm(vmpi_comm* c) { if (c == MPI_COMM_NULL || c == nullptr) bad("operation on MPI_COMM_NULL"); if (c->self != c) bad("operation on an invalid communicator"); if (rankIn(c) == MPI_UNDEFINED) bad("rank is not a member of the communicator"); }
static void chkType(vmpi_type* t) { if (t == nullptr || t == MPI_DATATYPE_NULL) bad("invalid datatype"); if (!t->committed) bad("datatype used without MPI_Type_commit or after MPI_Type_free"); }
static size_t tbytes(int cnt, vmpi_type* t) { if (cnt < 0) bad("negative count"); return (size_t)cnt * t->size; }
static bool contig(vmpi_type* t) { return t->nseg == 1 && t->off[0] == 0 && (ptrdiff_t)t->size == t->extent; }
static void pack(char* out, const void* buf, int cnt, vmpi_type* t) {
  if (cnt == 0 || t->size == 0) return;
  if (contig(t)) { memcpy(out, buf, (size_t)cnt * t->size); return; }
  for (int i = 0; i < cnt; i++) for (int k = 0; k < t->nseg; k++) { memcpy(out, (const char*)buf + i * t->extent + t->off[k], t->len[k]); out += t->len[k]; }
}
static void unpack(void* buf, int cnt, vmpi_type* t, const char* in, size_t bytes) {
  if (bytes == 0) return;
  if (contig(t)) { memcpy(buf, in, bytes); return; }
  for (int i = 0; i < cnt && bytes; i++) for (int k = 0; k < t->nseg && bytes; k++) { size_t l = t->len[k] < bytes ? t->len[k] : bytes; memcpy((char*)buf + i * t->extent + t->off[k], in, l); in += l; bytes -= l; }
}
static void copyTyped(void* db, int dc, vmpi_type* dt, const void* sb, int sc, vmpi_type* st) {
  size_t b = tbytes(sc, st); if (b == 0) return;
  if (contig(dt) && contig(st)) { memmove(db, sb, b); return; }
  char* tmp = (char*)malloc(b); pack(tmp, sb, sc, st); unpack(db, dc, dt, tmp, b); free(tmp);
}
// ---- point to point
static bool matches(Rec* s, Rec* r) { return s->c == r->c && s->dst == r->dst && (r->src == MPI_ANY_SOURCE || r->src == s->src) && (r->tag == MPI_ANY_TAG || r->tag == s->tag); }
static void tryMatch(Rec* x) {
  Shared* g = S();
  if (x->send) { for (int i = 0; i < g->recvs.n; i++) if (matches(x, g->recvs[i])) { Rec* r = g->recvs[i]; g->recvs.erase(i); x->match = r; r->match = x; vf_progress(); return; } g->sends.push(x); }
  else { for (int i = 0; i < g->sends.n; i++) if (matches(g->sends[i], x)) { Rec* s = g->sends[i]; g->sends.erase(i); x->match = s; s->match = x; vf_progress(); return; } g->recvs.push(x); }
  vf_progress();
}
static void transfer(Rec* s) {  // s = send side, matched
  if (s->done && s->match->done) return; Rec* r = s->match;
  if (r->done) return;
  size_t cap = tbytes(r->cnt, r->t);
  if (s->bytes > cap) bad("message truncated: receive buffer smaller than message");
  if (s->eager) unpack(r->buf, r->cnt, r->t, s->eager, s->bytes); else copyTyped(r->buf, r->cnt, r->t, s->buf, s->cnt, s->t);
  if (s->eager) { free(s->eager); s->eager = nullptr; }
  s->done = true; r->done = true; r->bytes = s->bytes; r->src = s->src; r->tag = s->tag; vf_progress();
}
static Rec* mkRec(bool send, int src, int dst, int tag, vmpi_comm* c, const void* buf, int cnt, vmpi_type* t) {
  Rec* r = (Rec*)calloc(1, sizeof(Rec)); r->send = send; r->src = src; r->dst = dst; r->tag = tag; r->c = c; r->buf = (void*)buf; r->cnt = cnt; r->t = t; r->bytes = tbytes(cnt, t); return r;
}
static void chkP2P(int peer, int tag, vmpi_comm* c, vmpi_type* t, int cnt, bool recv) {
  chkComm(c); chkType(t); if (cnt < 0) bad("negative count in point-to-point call");
  if (peer == MPI_PROC_NULL) return; if (recv && peer == MPI_ANY_SOURCE) {} else if (peer < 0 || peer >= c->n) bad("peer rank out of range");
  if (tag < 0 && !(recv && tag == MPI_ANY_TAG)) bad("invalid tag");
}
static void stat(MPI_Status* s, int src, int tag, size_t bytes) { if (s) { s->MPI_SOURCE = src; s->MPI_TAG = tag; s->MPI_ERROR = 0; s->_bytes = bytes; s->_cancelled = 0; } }
static int sendImpl(const void* b, int n, vmpi_type* t, int d, int tag, vmpi_comm* c, bool sync) {
  chkP2P(d, tag, c, t, n, false); if (d == MPI_PROC_NULL) return 0;
  Rec* r = mkRec(true, rankIn(c), d, tag, c, b, n, t);
  if (!sync) { if (r->bytes) { r->eager = (char*)malloc(r->bytes); pack(r->eager, b, n, t); } else r->eager = (char*)malloc(1); tryMatch(r); if (r->match && vf_config("early", 0)) transfer(r); return 0; }
  tryMatch(r); while (!r->match) vf_block("MPI_Send"); transfer(r); return 0;
}
// ---- collectives
static double* dp(void* p) { return (double*)p; }
template <class T> static void redT(int k, T* io, const T* in, size_t n) {
  for (size_t i = 0; i < n; i++) { T a = io[i], b = in[i]; switch (k) { case O_SUM: io[i] = b + a; break; case O_PROD: io[i] = a * b; break; case O_MAX: io[i] = b > a ? b : a; break; case O_MIN: io[i] = b < a ? b : a; break; case O_LAND: io[i] = a && b; break; case O_LOR: io[i] = a || b; break; case O_REPLACE: io[i] = b; break; default: bad("reduction op not defined for type"); } }
}
template <class T> static void redI(int k, T* io, const T* in, size_t n) {
  if (k == O_BAND || k == O_BOR || k == O_BXOR) { for (size_t i = 0; i < n; i++) io[i] = k == O_BAND ? io[i] & in[i] : k == O_BOR ? io[i] | in[i] : io[i] ^ in[i]; return; }
  redT<T>(k, io, in, n);
}
static vmpi_type* baseOf(vmpi_type* t) { while (t->kind == T_DERIVED) t = t->base; return t; }
static void reduceBuf(vmpi_op* op, vmpi_type* t, void* io, const void* in, int cnt) {  // packed layouts
  if (op->kind == O_USER) {
    int n = cnt; vmpi_type* tt = t; if (contig(t)) { op->fn((void*)in, io, &n, &tt); return; }
    ptrdiff_t lo = 0, hi = 0; for (int k = 0; k < t->nseg; k++) { if (t->off[k] < lo) lo = t->off[k]; ptrdiff_t e = t->off[k] + (ptrdiff_t)t->len[k]; if (e > hi) hi = e; } hi += (cnt - 1) * t->extent;  // user functions see the layout of the datatype
    char* a = (char*)calloc(1, hi - lo); char* b = (char*)calloc(1, hi - lo); size_t by = (size_t)cnt * t->size; unpack(a - lo, cnt, t, (const char*)in, by); unpack(b - lo, cnt, t, (const char*)io, by);
    op->fn(a - lo, b - lo, &n, &tt); pack((char*)io, b - lo, cnt, t); free(a); free(b); return;
  }
  if (t->kind == T_DERIVED) bad("predefined reduction op used with a derived datatype");
  vmpi_type* b = baseOf(t); size_t n = (size_t)cnt;
  switch (b->kind) {
    case T_CHAR: case T_SCHAR: redI<signed char>(op->kind, (signed char*)io, (const signed char*)in, n); break; case T_UCHAR: case T_BYTE: redI<unsigned char>(op->kind, (unsigned char*)io, (const unsigned char*)in, n); break; case T_BOOL: redI<unsigned char>(op->kind, (unsigned char*)io, (const unsigned char*)in, n); break;
    case T_SHORT: redI<short>(op->kind, (short*)io, (const short*)in, n); break; case T_USHORT: redI<unsigned short>(op->kind, (unsigned short*)io, (const unsigned short*)in, n); break;
    case T_INT: redI<int>(op->kind, (int*)io, (const int*)in, n); break; case T_UINT: redI<unsigned>(op->kind, (unsigned*)io, (const unsigned*)in, n); break;
    case T_LONG: case T_LLONG: redI<long>(op->kind, (long*)io, (const long*)in, n); break; case T_ULONG: case T_ULLONG: redI<unsigned long>(op->kind, (unsigned long*)io, (const unsigned long*)in, n); break;
    case T_FLOAT: redT<float>(op->kind, (float*)io, (const float*)in, n); break; case T_DOUBLE: redT<double>(op->kind, (double*)io, (const double*)in, n); break;
    case T_CDOUBLE: if (op->kind != O_SUM) bad("complex reduction"); redT<double>(O_SUM, (double*)io, (const double*)in, 2 * n); break; case T_CFLOAT: if (op->kind != O_SUM) bad("complex reduction"); redT<float>(O_SUM, (float*)io, (const float*)in, 2 * n); break;
    default: bad("reduction on unsupported datatype");
  }
}
static vmpi_comm* subComm(vmpi_comm* c, int* sel, int m) { vmpi_comm* r = mkComm(m); for (int i = 0; i < m; i++) r->mem[i] = c->mem[sel[i]]; return r; }
static void performFOpen(Coll* q, vmpi_comm* c);
static void perform(Coll* q, vmpi_comm* c) {
  int n = c->n; CArg* a = q->a; q->done = true;
  switch (q->kind) {
    case C_BARRIER: break;
    case C_BCAST: { size_t b = tbytes(a[q->root].rc, a[q->root].rt); for (int i = 0; i < n; i++) { if (tbytes(a[i].rc, a[i].rt) != b) bad("MPI_Bcast: message sizes differ between ranks"); if (i != q->root) copyTyped(a[i].rb, a[i].rc, a[i].rt, a[q->root].rb, a[q->root].rc, a[q->root].rt); } break; }
    case C_REDUCE: case C_ALLREDUCE: case C_SCAN: case C_EXSCAN: {
      size_t b = tbytes(a[0].sc, a[0].st); for (int i = 1; i < n; i++) if (tbytes(a[i].sc, a[i].st) != b) bad("reduction: counts differ between ranks");
      // one packed contribution per rank
      char** in = (char**)malloc(sizeof(char*) * n); for (int i = 0; i < n; i++) { in[i] = (char*)malloc(b ? b : 1); pack(in[i], a[i].sb == MPI_IN_PLACE ? a[i].rb : a[i].sb, a[i].sc, a[i].st); }
      int cnt = a[0].sc; vmpi_type* t = a[0].st;
      if (q->kind == C_REDUCE || q->kind == C_ALLREDUCE) {
        for (int i = 1; i < n; i++) if (b) reduceBuf(q->op, t, in[0], in[i], cnt);
        for (int i = 0; i < n; i++) if (q->kind == C_ALLREDUCE || i == q->root) unpack(a[i].rb, a[i].sc, a[i].st, in[0], b);
      } else {
        char* acc = (char*)malloc(b ? b : 1); if (b) memcpy(acc, in[0], b);
        for (int i = 0; i < n; i++) {
          if (q->kind == C_SCAN) { if (i && b) { reduceBuf(q->op, t, acc, in[i], cnt); } unpack(a[i].rb, a[i].sc, a[i].st, acc, b); }
          else { if (i) { unpack(a[i].rb, a[i].sc, a[i].st, acc, b); if (b) reduceBuf(q->op, t, acc, in[i], cnt); } }
        }
        free(acc);
      }
      for (int i = 0; i < n; i++) free(in[i]); free(in); break;
    }
    case C_GATHER: case C_ALLGATHER:
      for (int r = 0; r < n; r++) if (q->kind == C_ALLGATHER || r == q->root)
        for (int i = 0; i < n; i++) {
          int cnt = a[r].rcs ? a[r].rcs[i] : a[r].rc; ptrdiff_t d = (ptrdiff_t)(a[r].disp ? a[r].disp[i] : i * (ptrdiff_t)a[r].rc) * a[r].rt->extent;
          if (a[i].sb == MPI_IN_PLACE) { if (i != r && q->kind == C_GATHER) bad("MPI_IN_PLACE at non-root"); if (i == r) continue; ptrdiff_t di = (ptrdiff_t)(a[i].disp ? a[i].disp[i] : i * (ptrdiff_t)a[i].rc) * a[i].rt->extent; copyTyped((char*)a[r].rb + d, cnt, a[r].rt, (char*)a[i].rb + di, a[i].rcs ? a[i].rcs[i] : a[i].rc, a[i].rt); continue; }
          if (tbytes(a[i].sc, a[i].st) != tbytes(cnt, a[r].rt)) bad("gather: send and receive sizes differ");
          copyTyped((char*)a[r].rb + d, cnt, a[r].rt, a[i].sb, a[i].sc, a[i].st);
        }
      break;
    case C_SCATTER: { int r = q->root; for (int i = 0; i < n; i++) { int cnt = a[r].rcs ? a[r].rcs[i] : a[r].sc; ptrdiff_t d = (ptrdiff_t)(a[r].disp ? a[r].disp[i] : i * (ptrdiff_t)a[r].sc) * a[r].st->extent; if (i == r && a[i].rb == MPI_IN_PLACE) continue; if (tbytes(cnt, a[r].st) != tbytes(a[i].rc, a[i].rt)) bad("scatter: send and receive sizes differ"); copyTyped(a[i].rb, a[i].rc, a[i].rt, (const char*)a[r].sb + d, cnt, a[r].st); } break; }
    case C_ALLTOALL: for (int r = 0; r < n; r++) for (int i = 0; i < n; i++) copyTyped((char*)a[r].rb + (ptrdiff_t)i * a[r].rc * a[r].rt->extent, a[r].rc, a[r].rt, (const char*)a[i].sb + (ptrdiff_t)r * a[i].sc * a[i].st->extent, a[i].sc, a[i].st); break;
    case C_SPLIT: {
      int* sel = (int*)malloc(sizeof(int) * n);
      for (int i = 0; i < n; i++) {
        if (a[i].out) continue; if (a[i].color == MPI_UNDEFINED) { a[i].out = (void*)MPI_COMM_NULL; continue; }
        if (a[i].color < 0) bad("MPI_Comm_split: negative color");
        int m = 0; for (int j = 0; j < n; j++) if (a[j].color == a[i].color) sel[m++] = j;
        for (int x = 1; x < m; x++) for (int y = x; y > 0 && a[sel[y - 1]].key > a[sel[y]].key; y--) { int t = sel[y]; sel[y] = sel[y - 1]; sel[y - 1] = t; }
        vmpi_comm* nc = subComm(c, sel, m); for (int x = 0; x < m; x++) a[sel[x]].out = nc;
      }
      free(sel); break;
    }
    case C_CREATE: {
      for (int i = 0; i < n; i++) {
        if (a[i].out) continue; vmpi_group* g = (vmpi_group*)a[i].sb; bool in = false; for (int k = 0; k < g->n; k++) if (g->r[k] == c->mem[i]) in = true;
        if (!in) { a[i].out = (void*)MPI_COMM_NULL; continue; }
        vmpi_comm* nc = mkComm(g->n); for (int k = 0; k < g->n; k++) nc->mem[k] = g->r[k];
        for (int j = 0; j < n; j++) { bool mm = false; for (int k = 0; k < g->n; k++) if (g->r[k] == c->mem[j]) mm = true; if (mm) { vmpi_group* gj = (vmpi_group*)a[j].sb; bool same = gj->n == g->n; for (int k = 0; same && k < g->n; k++) same = gj->r[k] == g->r[k]; if (!same) bad("MPI_Comm_create: members pass different groups"); a[j].out = nc; } }
      }
      break;
    }
    case C_DUP: { vmpi_comm* nc = mkComm(n); for (int i = 0; i < n; i++) nc->mem[i] = c->mem[i]; if (c->nd >= 0) { nc->nd = c->nd; nc->dims = (int*)malloc(sizeof(int) * (c->nd + 1)); nc->per = (int*)malloc(sizeof(int) * (c->nd + 1)); for (int k = 0; k < c->nd; k++) { nc->dims[k] = c->dims[k]; nc->per[k] = c->per[k]; } } for (int i = 0; i < n; i++) a[i].out = nc; break; }
    case C_CART: {
      int nd = a[0].sc; const int* dims = (const int*)a[0].sb; long tot = 1;
      for (int k = 0; k < nd; k++) { if (dims[k] <= 0) bad("MPI_Cart_create: non-positive dimension"); tot *= dims[k]; }
      for (int i = 1; i < n; i++) { if (a[i].sc != nd) bad("MPI_Cart_create: ndims differ"); for (int k = 0; k < nd; k++) if (((const int*)a[i].sb)[k] != dims[k]) bad("MPI_Cart_create: dims differ between ranks"); }
      if (tot > n) bad("MPI_Cart_create: more grid positions than ranks");
      vmpi_comm* nc = mkComm((int)tot); for (int i = 0; i < tot; i++) nc->mem[i] = c->mem[i]; nc->nd = nd; nc->dims = (int*)malloc(sizeof(int) * (nd + 1)); nc->per = (int*)malloc(sizeof(int) * (nd + 1)); for (int k = 0; k < nd; k++) { nc->dims[k] = dims[k]; nc->per[k] = ((const int*)a[0].rb)[k]; }
      for (int i = 0; i < n; i++) a[i].out = i < tot ? nc : (void*)MPI_COMM_NULL; break;
    }
    case C_FOPEN: performFOpen(q, c); break;
    default: bad("unknown collective");
  }
  vf_progress();
}
static Coll* enter(vmpi_comm* c, int kind, int root, vmpi_op* op, const CArg& arg, int* meOut) {
  chkComm(c); int me = rankIn(c); int sq = c->seq[me]++; if (meOut) *meOut = me;
  if (root < 0 || root >= c->n) bad("collective root out of range");
  while (c->colls.n <= sq) c->colls.push(nullptr);
  Coll* q = c->colls[sq];
  if (!q) { q = (Coll*)calloc(1, sizeof(Coll)); q->kind = kind; q->root = root; q->op = op; q->a = (CArg*)calloc(c->n, sizeof(CArg)); q->here = (bool*)calloc(c->n, 1); c->colls[sq] = q; }
  else { if (q->kind != kind) bad("ranks call different collectives on the same communicator"); if (q->root != root) bad("ranks pass different roots to a collective"); if ((q->op ? q->op->kind : 0) != (op ? op->kind : 0)) bad("ranks pass different reduction ops"); }
  q->a[me] = arg; q->here[me] = true; q->arrived++; vf_progress();
  return q;
}
static void finishColl(Coll* q, vmpi_comm* c, const char* nm) { while (q->arrived < c->n) vf_block(nm); if (!q->done) perform(q, c); }
static void* coll(vmpi_comm* c, int kind, int root, vmpi_op* op, const CArg& arg, const char* nm) { int me; Coll* q = enter(c, kind, root, op, arg, &me); finishColl(q, c, nm); return q->a[me].out; }
static CArg A(const void* sb, int sc, vmpi_type* st, void* rb, int rc, vmpi_type* rt) { CArg a; memset(&a, 0, sizeof a); a.sb = sb; a.sc = sc; a.st = st; a.rb = rb; a.rc = rc; a.rt = rt; return a; }
static vmpi_req* mkReq(int kind, Rec* r, Coll* q) { vmpi_req* x = (vmpi_req*)calloc(1, sizeof(vmpi_req)); x->kind = kind; x->rec = r; x->coll = q; return x; }
static void chkAlias(const void* s, void* r, int n) { if (n > 0 && s == r && s != MPI_IN_PLACE) bad("send and receive buffer alias (use MPI_IN_PLACE)"); }
static int SH(sendmode) = -1;
static bool syncMode() { if (vfshared_sendmode < 0) vfshared_sendmode = (int)vf_config("sendmode", 0); return vfshared_sendmode == 1; }
// request completion: returns true if complete (or can be completed now)
static bool ready(vmpi_req* q) { if (q->kind == 2) return true; if (q->kind == 1) return q->coll->done || q->coll->arrived == ((vmpi_comm*)q->rec)->n; Rec* r = q->rec; if (r->done || r->match) return true; if (r->send && !syncMode()) return true; return false; }
static void complete(vmpi_req* q, MPI_Status* st) {
  if (q->kind == 2) { stat(st, MPI_PROC_NULL, MPI_ANY_TAG, 0); return; }
  if (q->kind == 1) { if (!q->coll->done) perform(q->coll, (vmpi_comm*)q->rec); stat(st, 0, 0, 0); return; }
  Rec* r = q->rec;
  if (r->done) {} else if (r->match) transfer(r->send ? r : r->match);
  else { r->eager = (char*)malloc(r->bytes ? r->bytes : 1); pack(r->eager, r->buf, r->cnt, r->t); }
  stat(st, r->src, r->tag, r->bytes);
}
extern "C" {
vmpi_comm* vmpi_world() { S(); return vfshared_world; }
vmpi_comm* vmpi_self() { return S()->self[vf_rank()]; }
// number of sends never received plus receives never satisfied, over all ranks
int vmpi_pending() { return S()->sends.n + S()->recvs.n; }
static int inited = 0;
int MPI_Init(int*, char***) { S(); inited = 1; return 0; }
int MPI_Init_thread(int*, char***, int want, int* p) { S(); inited = 1; if (p) *p = want; return 0; }
int MPI_Initialized(int* f) { *f = inited; return 0; } int MPI_Finalized(int* f) { *f = 0; return 0; } int MPI_Finalize() { return 0; }
int MPI_Abort(MPI_Comm, int code) { vf_fail("abort", "MPI_Abort called"); return code; }
int MPI_Query_thread(int* p) { *p = 3; return 0; } int MPI_Get_version(int* a, int* b) { *a = 3; *b = 1; return 0; }
int MPI_Get_processor_name(char* n, int* l) { n[0] = 'h'; n[1] = 0; *l = 1; return 0; }
int MPI_Comm_rank(MPI_Comm c, int* r) { chkComm(c); *r = rankIn(c); return 0; }
int MPI_Comm_size(MPI_Comm c, int* r) { chkComm(c); *r = c->n; return 0; }
int MPI_Comm_remote_size(MPI_Comm, int*) { bad("remote_size"); return 0; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* o) { *o = (MPI_Comm)coll(c, C_DUP, 0, 0, A(0, 0, 0, 0, 0, 0), "MPI_Comm_dup"); return 0; }
int MPI_Comm_free(MPI_Comm* c) { if (*c == MPI_COMM_NULL) bad("MPI_Comm_free of MPI_COMM_NULL"); chkComm(*c); *c = MPI_COMM_NULL; return 0; }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* o) { CArg a = A(0, 0, 0, 0, 0, 0); a.color = color; a.key = key; *o = (MPI_Comm)coll(c, C_SPLIT, 0, 0, a, "MPI_Comm_split"); return 0; }
int MPI_Comm_split_type(MPI_Comm c, int, int key, MPI_Info, MPI_Comm* o) { return MPI_Comm_split(c, 0, key, o); }
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm* o) { *o = (MPI_Comm)coll(c, C_CREATE, 0, 0, A(g, 0, 0, 0, 0, 0), "MPI_Comm_create"); return 0; }
int MPI_Comm_create_group(MPI_Comm, MPI_Group, int, MPI_Comm*) { vf_unsupported("MPI_Comm_create_group"); return 0; }
int MPI_Comm_group(MPI_Comm c, MPI_Group* g) { chkComm(c); vmpi_group* x = (vmpi_group*)malloc(sizeof(vmpi_group)); x->n = c->n; x->r = (int*)malloc(sizeof(int) * c->n); for (int i = 0; i < c->n; i++) x->r[i] = c->mem[i]; *g = x; return 0; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* r) { if (a == b) *r = MPI_IDENT; else { bool same = a->n == b->n; for (int i = 0; same && i < a->n; i++) same = a->mem[i] == b->mem[i]; *r = same ? MPI_CONGRUENT : MPI_UNEQUAL; } return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; } int MPI_Comm_set_name(MPI_Comm, const char*) { return 0; }
static int tagub = 0x7fffffff;
int MPI_Comm_get_attr(MPI_Comm, int, void* v, int* f) { *(int**)v = &tagub; *f = 1; return 0; }
int MPI_Group_incl(MPI_Group g, int n, const int* r, MPI_Group* o) { vmpi_group* x = (vmpi_group*)malloc(sizeof(vmpi_group)); x->n = n; x->r = (int*)malloc(sizeof(int) * (n + 1)); for (int i = 0; i < n; i++) { if (r[i] < 0 || r[i] >= g->n) bad("MPI_Group_incl: rank out of range"); x->r[i] = g->r[r[i]]; } for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (r[i] == r[j]) bad("MPI_Group_incl: duplicate rank"); *o = x; return 0; }
int MPI_Group_excl(MPI_Group g, int n, const int* r, MPI_Group* o) { vmpi_group* x = (vmpi_group*)malloc(sizeof(vmpi_group)); x->r = (int*)malloc(sizeof(int) * (g->n + 1)); x->n = 0; for (int i = 0; i < g->n; i++) { bool ex = false; for (int k = 0; k < n; k++) ex |= r[k] == i; if (!ex) x->r[x->n++] = g->r[i]; } *o = x; return 0; }
int MPI_Group_size(MPI_Group g, int* n) { *n = g->n; return 0; }
int MPI_Group_rank(MPI_Group g, int* r) { *r = MPI_UNDEFINED; for (int i = 0; i < g->n; i++) if (g->r[i] == vf_rank()) *r = i; return 0; }
int MPI_Group_free(MPI_Group* g) { free((*g)->r); free(*g); *g = MPI_GROUP_NULL; return 0; }
int MPI_Group_translate_ranks(MPI_Group a, int n, const int* r, MPI_Group b, int* o) { for (int i = 0; i < n; i++) { o[i] = MPI_UNDEFINED; for (int k = 0; k < b->n; k++) if (b->r[k] == a->r[r[i]]) o[i] = k; } return 0; }
int MPI_Cart_create(MPI_Comm c, int nd, const int* d, const int* per, int, MPI_Comm* o) { *o = (MPI_Comm)coll(c, C_CART, 0, 0, A(d, nd, 0, (void*)per, 0, 0), "MPI_Cart_create"); return 0; }
static void chkCart(MPI_Comm c) { chkComm(c); if (c->nd < 0) bad("communicator has no cartesian topology"); }
static void coordsOf(vmpi_comm* c, int r, int* co) { for (int k = c->nd - 1; k >= 0; k--) { co[k] = r % c->dims[k]; r /= c->dims[k]; } }
static int rankOf(vmpi_comm* c, const int* co) { int r = 0; for (int k = 0; k < c->nd; k++) { int x = co[k]; if (c->per[k]) x = ((x % c->dims[k]) + c->dims[k]) % c->dims[k]; else if (x < 0 || x >= c->dims[k]) return -1; r = r * c->dims[k] + x; } return r; }
int MPI_Cart_get(MPI_Comm c, int m, int* d, int* p, int* co) { chkCart(c); int mine[32]; coordsOf(c, rankIn(c), mine); for (int k = 0; k < c->nd && k < m; k++) { d[k] = c->dims[k]; p[k] = c->per[k]; co[k] = mine[k]; } return 0; }
int MPI_Cart_coords(MPI_Comm c, int r, int m, int* co) { chkCart(c); if (r < 0 || r >= c->n) bad("MPI_Cart_coords: rank out of range"); if (m < c->nd) bad("MPI_Cart_coords: maxdims too small"); coordsOf(c, r, co); return 0; }
int MPI_Cart_rank(MPI_Comm c, const int* co, int* r) { chkCart(c); *r = rankOf(c, co); if (*r < 0) bad("MPI_Cart_rank: coordinates out of range"); return 0; }
int MPI_Cart_shift(MPI_Comm c, int dir, int disp, int* s, int* d) { chkCart(c); if (dir < 0 || dir >= c->nd) bad("MPI_Cart_shift: direction out of range"); int mine[32]; coordsOf(c, rankIn(c), mine); int x = mine[dir]; mine[dir] = x - disp; *s = rankOf(c, mine); if (*s < 0) *s = MPI_PROC_NULL; mine[dir] = x + disp; *d = rankOf(c, mine); if (*d < 0) *d = MPI_PROC_NULL; return 0; }
int MPI_Cartdim_get(MPI_Comm c, int* n) { chkCart(c); *n = c->nd; return 0; }
int MPI_Topo_test(MPI_Comm c, int* t) { chkComm(c); *t = c->nd >= 0 ? MPI_CART : MPI_UNDEFINED; return 0; }
int MPI_Cart_sub(MPI_Comm c, const int* rem, MPI_Comm* o) { chkCart(c); int mine[32]; coordsOf(c, rankIn(c), mine); int color = 0, key = 0; for (int k = 0; k < c->nd; k++) { if (rem[k]) key = key * c->dims[k] + mine[k]; else color = color * c->dims[k] + mine[k]; } int r = MPI_Comm_split(c, color, key, o); int nd = 0; for (int k = 0; k < c->nd; k++) nd += rem[k] ? 1 : 0; if ((*o)->nd < 0) { (*o)->dims = (int*)malloc(sizeof(int) * (nd + 1)); (*o)->per = (int*)malloc(sizeof(int) * (nd + 1)); int q = 0; for (int k = 0; k < c->nd; k++) if (rem[k]) { (*o)->dims[q] = c->dims[k]; (*o)->per[q++] = c->per[k]; } (*o)->nd = nd; } return r; }
int MPI_Dims_create(int n, int nd, int* d) { int left = n, fr = 0; for (int i = 0; i < nd; i++) { if (d[i] > 0) left /= d[i]; else fr++; } for (int i = 0; i < nd; i++) if (d[i] == 0) { if (fr == 1) { d[i] = left; } else { int q = 1; for (int f = 1; f * f <= left; f++) if (left % f == 0) q = left / f; d[i] = q; left /= q; } fr--; } return 0; }
static int vfLag = -1;  // configuration "lag": every rank may be slower than the others by a chosen amount at each send
static void lag() { if (vfLag < 0) { const int m = (int)vf_config("lag", 0); vfLag = 0; if (m) { char nm_[8] = {'l', 'a', 'g', (char)('0' + vf_rank() / 10), (char)('0' + vf_rank() % 10), 0}; vfLag = vf_choice(nm_, 0, m); } } for (int i = 0; i < vfLag; i++) vf_yield(); }
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { lag(); return sendImpl(b, n, t, d, tag, c, syncMode()); }
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return sendImpl(b, n, t, d, tag, c, true); }
int MPI_Bsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return sendImpl(b, n, t, d, tag, c, false); }
int MPI_Rsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return sendImpl(b, n, t, d, tag, c, false); }
int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* q) { chkP2P(s, tag, c, t, n, true); if (s == MPI_PROC_NULL) { *q = mkReq(2, 0, 0); return 0; } Rec* r = mkRec(false, s, rankIn(c), tag, c, b, n, t); *q = mkReq(0, r, 0); tryMatch(r); lag(); return 0; }
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* q) { chkP2P(d, tag, c, t, n, false); if (d == MPI_PROC_NULL) { *q = mkReq(2, 0, 0); return 0; } Rec* r = mkRec(true, rankIn(c), d, tag, c, b, n, t); *q = mkReq(0, r, 0); tryMatch(r); return 0; }
int MPI_Issend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* q) { return MPI_Isend(b, n, t, d, tag, c, q); }
int MPI_Wait(MPI_Request* q, MPI_Status* st) { if (*q == MPI_REQUEST_NULL) { stat(st, MPI_ANY_SOURCE, MPI_ANY_TAG, 0); return 0; } while (!ready(*q)) vf_block("MPI_Wait"); complete(*q, st); free(*q); *q = MPI_REQUEST_NULL; return 0; }
int MPI_Waitall(int n, MPI_Request* q, MPI_Status* st) { for (int i = 0; i < n; i++) MPI_Wait(&q[i], st ? &st[i] : nullptr); return 0; }
int MPI_Waitany(int n, MPI_Request* q, int* ix, MPI_Status* st) { bool any = false; for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL) any = true; if (!any) { *ix = MPI_UNDEFINED; return 0; } while (true) { for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL && ready(q[i])) { complete(q[i], st); free(q[i]); q[i] = MPI_REQUEST_NULL; *ix = i; return 0; } vf_block("MPI_Waitany"); } }
int MPI_Waitsome(int n, MPI_Request* q, int* oc, int* ix, MPI_Status* st) { int k; MPI_Waitany(n, q, &k, st); if (k == MPI_UNDEFINED) { *oc = MPI_UNDEFINED; return 0; } *oc = 1; ix[0] = k; return 0; }
int MPI_Test(MPI_Request* q, int* f, MPI_Status* st) { if (*q == MPI_REQUEST_NULL) { *f = 1; return 0; } if (ready(*q)) { complete(*q, st); free(*q); *q = MPI_REQUEST_NULL; *f = 1; } else { *f = 0; vf_yield(); } return 0; }
int MPI_Testall(int n, MPI_Request* q, int* f, MPI_Status* st) { for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL && !ready(q[i])) { *f = 0; vf_yield(); return 0; } *f = 1; return MPI_Waitall(n, q, st); }
int MPI_Testany(int n, MPI_Request* q, int* ix, int* f, MPI_Status* st) { for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL && ready(q[i])) { complete(q[i], st); free(q[i]); q[i] = MPI_REQUEST_NULL; *ix = i; *f = 1; return 0; } *f = 0; vf_yield(); return 0; }
int MPI_Request_free(MPI_Request* q) { if (*q != MPI_REQUEST_NULL) { if ((*q)->kind == 0 && (*q)->rec->send) { /* message must still be delivered: buffer it now */ complete(*q, nullptr); } free(*q); *q = MPI_REQUEST_NULL; } return 0; }
int MPI_Cancel(MPI_Request*) { vf_unsupported("MPI_Cancel"); return 0; }
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* st) { MPI_Request q; MPI_Irecv(b, n, t, s, tag, c, &q); while (!ready(q)) vf_block("MPI_Recv"); complete(q, st); free(q); return 0; }
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype st, int d, int stag, void* rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status* stt) { if (sn && rn && sb == rb && d >= 0 && s >= 0 && contig(st) && contig(rt)) bad("MPI_Sendrecv: buffers alias"); MPI_Request a, b; MPI_Irecv(rb, rn, rt, s, rtag, c, &a); MPI_Isend(sb, sn, st, d, stag, c, &b); MPI_Wait(&b, nullptr); MPI_Wait(&a, stt); return 0; }
int MPI_Sendrecv_replace(void* b, int n, MPI_Datatype t, int d, int stag, int s, int rtag, MPI_Comm c, MPI_Status* st) { size_t by = tbytes(n, t); char* tmp = (char*)malloc(by ? by : 1); pack(tmp, b, n, t); MPI_Request q; MPI_Irecv(b, n, t, s, rtag, c, &q); MPI_Send(tmp, (int)by, MPI_BYTE, d, stag, c); MPI_Wait(&q, st); free(tmp); return 0; }
static Rec* findSend(int s, int tag, vmpi_comm* c) { Shared* g = S(); int me = rankIn(c); for (int i = 0; i < g->sends.n; i++) { Rec* r = g->sends[i]; if (r->c == c && r->dst == me && (s == MPI_ANY_SOURCE || s == r->src) && (tag == MPI_ANY_TAG || tag == r->tag)) return r; } return nullptr; }
int MPI_Probe(int s, int tag, MPI_Comm c, MPI_Status* st) { chkComm(c); Rec* r; while (!(r = findSend(s, tag, c))) vf_block("MPI_Probe"); stat(st, r->src, r->tag, r->bytes); return 0; }
int MPI_Iprobe(int s, int tag, MPI_Comm c, int* f, MPI_Status* st) { chkComm(c); Rec* r = findSend(s, tag, c); *f = r != nullptr; if (r) stat(st, r->src, r->tag, r->bytes); else vf_yield(); return 0; }
int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* n) { if (t->size == 0) { *n = 0; return 0; } *n = st->_bytes % t->size ? MPI_UNDEFINED : (int)(st->_bytes / t->size); return 0; }
int MPI_Get_elements(const MPI_Status* st, MPI_Datatype t, int* n) { return MPI_Get_count(st, t, n); }
int MPI_Barrier(MPI_Comm c) { coll(c, C_BARRIER, 0, 0, A(0, 0, 0, 0, 0, 0), "MPI_Barrier"); return 0; }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) { chkType(t); coll(c, C_BCAST, root, 0, A(0, 0, 0, b, n, t), "MPI_Bcast"); return 0; }
static int icoll(Coll* q, vmpi_comm* c, MPI_Request* r) { *r = mkReq(1, (Rec*)c, q); return 0; }
int MPI_Ibcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c, MPI_Request* r) { chkType(t); return icoll(enter(c, C_BCAST, root, 0, A(0, 0, 0, b, n, t), nullptr), c, r); }
int MPI_Ibarrier(MPI_Comm c, MPI_Request* r) { return icoll(enter(c, C_BARRIER, 0, 0, A(0, 0, 0, 0, 0, 0), nullptr), c, r); }
static CArg redArg(const void* s, void* r, int n, vmpi_type* t) { chkType(t); if (n < 0) bad("negative count in reduction"); chkAlias(s, r, n); return A(s, n, t, r, n, t); }
static CArg rootArg(const void* s, void* r, int n, vmpi_type* t, int root, vmpi_comm* c) { chkType(t); chkComm(c); bool isRoot = rankIn(c) == root; if (isRoot) chkAlias(s, r, n); else if (s == MPI_IN_PLACE) bad("MPI_Reduce: MPI_IN_PLACE at non-root"); return A(s, n, t, r, n, t); }
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c) { coll(c, C_REDUCE, root, o, rootArg(s, r, n, t, root, c), "MPI_Reduce"); return 0; }
int MPI_Ireduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c, MPI_Request* q) { return icoll(enter(c, C_REDUCE, root, o, rootArg(s, r, n, t, root, c), nullptr), c, q); }
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { coll(c, C_ALLREDUCE, 0, o, redArg(s, r, n, t), "MPI_Allreduce"); return 0; }
int MPI_Iallreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c, MPI_Request* q) { return icoll(enter(c, C_ALLREDUCE, 0, o, redArg(s, r, n, t), nullptr), c, q); }
int MPI_Scan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { coll(c, C_SCAN, 0, o, redArg(s, r, n, t), "MPI_Scan"); return 0; }
int MPI_Exscan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { coll(c, C_EXSCAN, 0, o, redArg(s, r, n, t), "MPI_Exscan"); return 0; }
int MPI_Gather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { coll(c, C_GATHER, root, 0, A(s, sn, st, r, rn, rt), "MPI_Gather"); return 0; }
int MPI_Gatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* rn, const int* d, MPI_Datatype rt, int root, MPI_Comm c) { CArg a = A(s, sn, st, r, 0, rt); a.rcs = rn; a.disp = d; coll(c, C_GATHER, root, 0, a, "MPI_Gatherv"); return 0; }
int MPI_Allgather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm c) { coll(c, C_ALLGATHER, 0, 0, A(s, sn, st, r, rn, rt), "MPI_Allgather"); return 0; }
int MPI_Allgatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* rn, const int* d, MPI_Datatype rt, MPI_Comm c) { CArg a = A(s, sn, st, r, 0, rt); a.rcs = rn; a.disp = d; coll(c, C_ALLGATHER, 0, 0, a, "MPI_Allgatherv"); return 0; }
int MPI_Scatter(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { coll(c, C_SCATTER, root, 0, A(s, sn, st, r, rn, rt), "MPI_Scatter"); return 0; }
int MPI_Scatterv(const void* s, const int* sn, const int* d, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { CArg a = A(s, 0, st, r, rn, rt); a.rcs = sn; a.disp = d; coll(c, C_SCATTER, root, 0, a, "MPI_Scatterv"); return 0; }
int MPI_Alltoall(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm c) { coll(c, C_ALLTOALL, 0, 0, A(s, sn, st, r, rn, rt), "MPI_Alltoall"); return 0; }
int MPI_Op_create(MPI_User_function* f, int, MPI_Op* o) { *o = (MPI_Op)malloc(sizeof(vmpi_op)); (*o)->kind = O_USER; (*o)->fn = f; return 0; }
int MPI_Op_free(MPI_Op* o) { free(*o); *o = MPI_OP_NULL; return 0; }
// ---- datatypes
struct TB { V<ptrdiff_t> off; V<size_t> len; };
static void addSeg(TB& b, ptrdiff_t o, size_t l) { if (!l) return; if (b.off.n && b.off[b.off.n - 1] + (ptrdiff_t)b.len[b.len.n - 1] == o) { b.len[b.len.n - 1] += l; return; } b.off.push(o); b.len.push(l); }
static void addType(TB& b, ptrdiff_t at, int n, vmpi_type* t) { for (int i = 0; i < n; i++) for (int k = 0; k < t->nseg; k++) addSeg(b, at + i * t->extent + t->off[k], t->len[k]); }
static vmpi_type* fin(TB& b, vmpi_type* base, int comb) {
  vmpi_type* t = (vmpi_type*)calloc(1, sizeof(vmpi_type)); t->kind = T_DERIVED; t->nseg = b.off.n; t->off = b.off.d; t->len = b.len.d; t->base = base; t->combiner = comb; ptrdiff_t lo = 0, hi = 0; for (int i = 0; i < b.off.n; i++) { t->size += b.len[i]; if (i == 0 || b.off[i] < lo) lo = b.off[i]; if (i == 0 || b.off[i] + (ptrdiff_t)b.len[i] > hi) hi = b.off[i] + (ptrdiff_t)b.len[i]; } t->lb = lo; t->extent = hi - lo; return t;
}
int MPI_Type_commit(MPI_Datatype* t) { if (*t == MPI_DATATYPE_NULL) bad("commit of null type"); (*t)->committed = 1; return 0; }
int MPI_Type_free(MPI_Datatype* t) { if (*t == MPI_DATATYPE_NULL || !*t) bad("MPI_Type_free of a null datatype"); if ((*t)->kind != T_DERIVED) bad("MPI_Type_free of a predefined datatype"); /* pending operations may still use it: keep storage */ (*t)->committed = 0; *t = MPI_DATATYPE_NULL; return 0; }
int MPI_Type_size(MPI_Datatype t, int* s) { *s = (int)t->size; return 0; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint* lb, MPI_Aint* e) { *lb = t->lb; *e = t->extent; return 0; }
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype* o) { TB b; addType(b, 0, n, t); *o = fin(b, t, MPI_COMBINER_CONTIGUOUS); return 0; }
int MPI_Type_vector(int n, int bl, int st, MPI_Datatype t, MPI_Datatype* o) { TB b; for (int i = 0; i < n; i++) addType(b, (ptrdiff_t)i * st * t->extent, bl, t); *o = fin(b, t, MPI_COMBINER_VECTOR); return 0; }
int MPI_Type_indexed(int n, const int* bl, const int* d, MPI_Datatype t, MPI_Datatype* o) { TB b; for (int i = 0; i < n; i++) addType(b, (ptrdiff_t)d[i] * t->extent, bl[i], t); vmpi_type* r = fin(b, t, MPI_COMBINER_INDEXED); r->ni = 2 * n + 1; r->nd = 1; r->ints = (int*)malloc(sizeof(int) * (2 * n + 1)); r->ints[0] = n; for (int i = 0; i < n; i++) { r->ints[1 + i] = bl[i]; r->ints[1 + n + i] = d[i]; } r->types = (vmpi_type**)malloc(sizeof(void*)); r->types[0] = t; *o = r; return 0; }
int MPI_Type_create_indexed_block(int n, int bl, const int* d, MPI_Datatype t, MPI_Datatype* o) { TB b; for (int i = 0; i < n; i++) addType(b, (ptrdiff_t)d[i] * t->extent, bl, t); *o = fin(b, t, MPI_COMBINER_INDEXED_BLOCK); return 0; }
int MPI_Type_create_hindexed(int n, const int* bl, const MPI_Aint* d, MPI_Datatype t, MPI_Datatype* o) { TB b; for (int i = 0; i < n; i++) addType(b, d[i], bl[i], t); *o = fin(b, t, MPI_COMBINER_HINDEXED); return 0; }
int MPI_Type_create_hindexed_block(int n, int bl, const MPI_Aint* d, MPI_Datatype t, MPI_Datatype* o) { TB b; for (int i = 0; i < n; i++) addType(b, d[i], bl, t); *o = fin(b, t, MPI_COMBINER_HINDEXED_BLOCK); return 0; }
int MPI_Type_create_struct(int n, const int* bl, const MPI_Aint* d, const MPI_Datatype* t, MPI_Datatype* o) { TB b; for (int i = 0; i < n; i++) addType(b, d[i], bl[i], t[i]); *o = fin(b, n ? t[0] : MPI_BYTE, MPI_COMBINER_STRUCT); return 0; }
int MPI_Type_create_subarray(int nd, const int* sz, const int* sub, const int* st, int order, MPI_Datatype t, MPI_Datatype* o) {
  for (int k = 0; k < nd; k++) if (sub[k] < 1 || sz[k] < 1 || st[k] < 0 || st[k] + sub[k] > sz[k]) bad("MPI_Type_create_subarray: invalid sizes or starts");
  TB b; int idx[32]; for (int k = 0; k < nd; k++) idx[k] = 0; ptrdiff_t tot = 1; for (int k = 0; k < nd; k++) tot *= sz[k];
  // fastest dimension: first for FORTRAN, last for C
  int fast = order == MPI_ORDER_FORTRAN ? 0 : nd - 1;
  while (true) {
    ptrdiff_t lin = 0, mul = 1; for (int q = 0; q < nd; q++) { int k = order == MPI_ORDER_FORTRAN ? q : nd - 1 - q; lin += (ptrdiff_t)(st[k] + idx[k]) * mul; mul *= sz[k]; }
    addType(b, lin * t->extent, sub[fast], t);
    int q = 1; for (; q < nd; q++) { int k = order == MPI_ORDER_FORTRAN ? q : nd - 1 - q; if (++idx[k] < sub[k]) break; idx[k] = 0; }
    if (q == nd) break;
  }
  vmpi_type* r = fin(b, t, MPI_COMBINER_SUBARRAY); r->lb = 0; r->extent = tot * t->extent; *o = r; return 0;
}
int MPI_Type_create_resized(MPI_Datatype t, MPI_Aint lb, MPI_Aint e, MPI_Datatype* o) { TB b; addType(b, 0, 1, t); vmpi_type* r = fin(b, t, 0); r->lb = lb; r->extent = e; *o = r; return 0; }
int MPI_Type_dup(MPI_Datatype t, MPI_Datatype* o) { TB b; addType(b, 0, 1, t); vmpi_type* r = fin(b, t, MPI_COMBINER_DUP); r->lb = t->lb; r->extent = t->extent; r->committed = t->committed; *o = r; return 0; }
int MPI_Type_get_envelope(MPI_Datatype t, int* ni, int* na, int* nd, int* comb) { *ni = t->ni; *na = t->na; *nd = t->nd; *comb = t->kind == T_DERIVED ? t->combiner : MPI_COMBINER_NAMED; return 0; }
int MPI_Type_get_contents(MPI_Datatype t, int mi, int ma, int md, int* I, MPI_Aint* Aa, MPI_Datatype* D) { for (int i = 0; i < t->ni && i < mi; i++) I[i] = t->ints[i]; for (int i = 0; i < t->nd && i < md; i++) D[i] = t->types[i]; return 0; }
int MPI_Get_address(const void* p, MPI_Aint* a) { *a = (MPI_Aint)p; return 0; }
MPI_Aint MPI_Aint_diff(MPI_Aint a, MPI_Aint b) { return a - b; } MPI_Aint MPI_Aint_add(MPI_Aint a, MPI_Aint b) { return a + b; }
int MPI_Info_create(MPI_Info* i) { *i = (MPI_Info)malloc(8); return 0; } int MPI_Info_set(MPI_Info, const char*, const char*) { return 0; } int MPI_Info_free(MPI_Info* i) { if (*i != MPI_INFO_NULL) free(*i); *i = MPI_INFO_NULL; return 0; }
int MPI_Error_string(int, char* s, int* l) { s[0] = 0; *l = 0; return 0; } int MPI_Error_class(int e, int* c) { *c = e; return 0; }
// ---- files (shared in-memory file system)
static bool streq(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return *a == *b; }
static FObj* findF(const char* n) { Shared* g = S(); for (int i = 0; i < g->files.n; i++) if (g->files[i]->exists && streq(g->files[i]->name, n)) return g->files[i]; return nullptr; }
// raw access for other models (std::fstream-free helpers)
int vmpi_file_exists(const char* n) { return findF(n) != nullptr; }
long vmpi_file_size(const char* n) { FObj* f = findF(n); return f ? (long)f->n : -1; }
const char* vmpi_file_data(const char* n) { FObj* f = findF(n); return f ? f->d : nullptr; }
static FObj* mkF(const char* n) { FObj* f = (FObj*)calloc(1, sizeof(FObj)); int i = 0; for (; n[i] && i < 255; i++) f->name[i] = n[i]; f->cap = 64; f->d = (char*)calloc(64, 1); f->exists = true; S()->files.push(f); return f; }
static void growF(FObj* f, size_t n) { if (n > f->cap) { size_t c = f->cap; while (c < n) c *= 2; char* d = (char*)calloc(c, 1); memcpy(d, f->d, f->n); free(f->d); f->d = d; f->cap = c; } if (n > f->n) f->n = n; }
void vmpi_file_create(const char* n) { FObj* f = findF(n); if (f) f->n = 0; else mkF(n); vf_progress(); vf_yield(); }  // as an output stream does
int vmpi_file_remove(const char* n) { FObj* f = findF(n); if (!f) return 0; f->exists = false; vf_progress(); return 1; }
void vmpi_file_copy(const char* a, const char* b) { FObj* f = findF(a); FObj* g = findF(b); if (!g) g = mkF(b); growF(g, f->n); memcpy(g->d, f->d, f->n); vf_progress(); vf_yield(); }
int vmpi_file_count() { return S()->files.n; } const char* vmpi_file_name(int i) { FObj* f = S()->files[i]; return f->exists ? f->name : nullptr; }
static void performFOpen(Coll* q, vmpi_comm* c) {
  CArg* a = q->a; const char* n = (const char*)a[0].sb; int am = a[0].sc; for (int i = 1; i < c->n; i++) { if (a[i].sc != am) bad("MPI_File_open: amode differs between ranks"); if (!streq((const char*)a[i].sb, n)) bad("MPI_File_open: filename differs between ranks"); }
  FObj* f = findF(n); int err = 0; if (!f) { if (am & MPI_MODE_CREATE) f = mkF(n); else err = MPI_ERR_NO_SUCH_FILE; } else if ((am & MPI_MODE_CREATE) && (am & MPI_MODE_EXCL)) err = MPI_ERR_FILE_EXISTS;
  for (int i = 0; i < c->n; i++) { a[i].out = err ? nullptr : f; a[i].color = err; }
}
int MPI_File_open(MPI_Comm c, const char* n, int am, MPI_Info, MPI_File* fh) {
  int acc = ((am & MPI_MODE_RDONLY) ? 1 : 0) + ((am & MPI_MODE_WRONLY) ? 1 : 0) + ((am & MPI_MODE_RDWR) ? 1 : 0); if (acc != 1) { *fh = MPI_FILE_NULL; return MPI_ERR_AMODE; } if ((am & MPI_MODE_RDONLY) && (am & (MPI_MODE_CREATE | MPI_MODE_EXCL))) { *fh = MPI_FILE_NULL; return MPI_ERR_AMODE; }
  int me; Coll* q = enter(c, C_FOPEN, 0, 0, A(n, am, 0, 0, 0, 0), &me); finishColl(q, c, "MPI_File_open");
  if (q->a[me].color) { *fh = MPI_FILE_NULL; return q->a[me].color; }
  vmpi_file* f = (vmpi_file*)calloc(1, sizeof(vmpi_file)); f->f = (FObj*)q->a[me].out; f->et = f->ft = MPI_BYTE; f->amode = am; f->c = c; if (am & MPI_MODE_APPEND) f->pos = f->f->n; *fh = f; return 0;
}
int MPI_File_close(MPI_File* f) { if (*f == MPI_FILE_NULL || !*f) return MPI_ERR_FILE; MPI_Barrier((*f)->c); free(*f); *f = MPI_FILE_NULL; return 0; }
int MPI_File_delete(const char* n, MPI_Info) { FObj* f = findF(n); if (!f) return MPI_ERR_NO_SUCH_FILE; f->exists = false; vf_progress(); return 0; }
int MPI_File_get_size(MPI_File f, MPI_Offset* s) { *s = f->f->n; return 0; }
int MPI_File_set_size(MPI_File f, MPI_Offset s) { if ((size_t)s > f->f->n) growF(f->f, s); else f->f->n = s; return 0; }
int MPI_File_preallocate(MPI_File f, MPI_Offset s) { growF(f->f, s); return 0; }
int MPI_File_set_view(MPI_File f, MPI_Offset d, MPI_Datatype et, MPI_Datatype ft, const char*, MPI_Info) { chkType(et); chkType(ft); f->disp = d; f->et = et; f->ft = ft; f->pos = 0; return 0; }
int MPI_File_seek(MPI_File f, MPI_Offset o, int w) { if (w == MPI_SEEK_SET) f->pos = o * f->et->size; else if (w == MPI_SEEK_CUR) f->pos += o * f->et->size; else f->pos = (long long)f->f->n + o * (long long)f->et->size; return 0; }
int MPI_File_sync(MPI_File) { return 0; } int MPI_File_set_atomicity(MPI_File, int) { return 0; }
// translate byte position in the view to a byte position in the file
static long long vpos(vmpi_file* f, long long p, size_t* run) {
  vmpi_type* t = f->ft; if (contig(t)) { *run = (size_t)-1 >> 1; return f->disp + p; }
  long long tile = p / (long long)t->size, r = p % (long long)t->size; for (int k = 0; k < t->nseg; k++) { if (r < (long long)t->len[k]) { *run = t->len[k] - r; return f->disp + tile * t->extent + t->off[k] + r; } r -= t->len[k]; } bad("view"); return 0;
}
static size_t rw(vmpi_file* f, long long p, char* b, size_t n, bool wr) {
  size_t done = 0; while (done < n) { size_t run; long long q = vpos(f, p + done, &run); if (q < 0) bad("file access at negative offset"); size_t l = n - done < run ? n - done : run; if (wr) { growF(f->f, q + l); memcpy(f->f->d + q, b + done, l); } else { if ((size_t)q >= f->f->n) break; size_t av = f->f->n - q; if (l > av) { memcpy(b + done, f->f->d + q, av); done += av; break; } memcpy(b + done, f->f->d + q, l); } done += l; } return done;
}
static int fio(vmpi_file* f, long long p, void* b, int n, vmpi_type* t, MPI_Status* st, bool wr, bool adv) {
  if (wr) vf_yield();  // others may look at the file before it is complete
  if (f == MPI_FILE_NULL || !f) bad("I/O on null file"); chkType(t); if (wr && (f->amode & MPI_MODE_RDONLY)) return MPI_ERR_IO; if (!wr && (f->amode & MPI_MODE_WRONLY)) return MPI_ERR_IO; size_t by = tbytes(n, t), got; 
  if (contig(t)) got = by ? rw(f, p, (char*)b, by, wr) : 0; else { char* tmp = (char*)malloc(by ? by : 1); if (wr) pack(tmp, b, n, t); got = rw(f, p, tmp, by, wr); if (!wr) unpack(b, n, t, tmp, got); free(tmp); }
  if (adv) f->pos = p + got; stat(st, 0, 0, got); vf_progress(); return 0;
}
int MPI_File_write(MPI_File f, const void* b, int n, MPI_Datatype t, MPI_Status* s) { return fio(f, f->pos, (void*)b, n, t, s, true, true); }
int MPI_File_write_all(MPI_File f, const void* b, int n, MPI_Datatype t, MPI_Status* s) { int r = fio(f, f->pos, (void*)b, n, t, s, true, true); MPI_Barrier(f->c); return r; }
int MPI_File_write_at(MPI_File f, MPI_Offset o, const void* b, int n, MPI_Datatype t, MPI_Status* s) { return fio(f, o * (long long)f->et->size, (void*)b, n, t, s, true, false); }
int MPI_File_write_at_all(MPI_File f, MPI_Offset o, const void* b, int n, MPI_Datatype t, MPI_Status* s) { int r = MPI_File_write_at(f, o, b, n, t, s); MPI_Barrier(f->c); return r; }
int MPI_File_read(MPI_File f, void* b, int n, MPI_Datatype t, MPI_Status* s) { return fio(f, f->pos, b, n, t, s, false, true); }
int MPI_File_read_all(MPI_File f, void* b, int n, MPI_Datatype t, MPI_Status* s) { MPI_Barrier(f->c); return fio(f, f->pos, b, n, t, s, false, true); }
int MPI_File_read_at(MPI_File f, MPI_Offset o, void* b, int n, MPI_Datatype t, MPI_Status* s) { return fio(f, o * (long long)f->et->size, b, n, t, s, false, false); }
int MPI_File_read_at_all(MPI_File f, MPI_Offset o, void* b, int n, MPI_Datatype t, MPI_Status* s) { MPI_Barrier(f->c); return MPI_File_read_at(f, o, b, n, t, s); }
int MPI_Pack_size(int n, MPI_Datatype t, MPI_Comm, int* s) { *s = (int)(n * t->size); return 0; }
int MPI_Pack(const void* b, int n, MPI_Datatype t, void* o, int os, int* pos, MPI_Comm) { size_t by = tbytes(n, t); if (*pos + (int)by > os) bad("MPI_Pack: buffer too small"); pack((char*)o + *pos, b, n, t); *pos += (int)by; return 0; }
int MPI_Unpack(const void* i, int is, int* pos, void* b, int n, MPI_Datatype t, MPI_Comm) { size_t by = tbytes(n, t); if (*pos + (int)by > is) bad("MPI_Unpack: buffer too small"); unpack(b, n, t, (const char*)i + *pos, by); *pos += (int)by; return 0; }
int MPI_Alloc_mem(MPI_Aint n, MPI_Info, void* p) { *(void**)p = malloc(n); return 0; } int MPI_Free_mem(void* p) { free(p); return 0; }
}
