// Symbolic expressions: bit-vectors (hash-consed DAG, lowered to z3 BV/Bool) and doubles (exact linear
// forms over "atoms", lowered to z3 Real).
#pragma once
#include <gmpxx.h>
#include <z3.h>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include <stdexcept>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef int32_t i32; typedef uint8_t u8;
typedef uint16_t u16;

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

// ---------------------------------------------------------------- exact rationals (small fast path)
struct Rat {
  i64 n = 0, d = 1;
  mpq_class* b = nullptr;
  Rat() {}
  Rat(i64 x) : n(x) { if (x == INT64_MIN) { b = new mpq_class((long)x); } }
  Rat(const Rat& o) : n(o.n), d(o.d), b(o.b ? new mpq_class(*o.b) : nullptr) {}
  Rat(Rat&& o) noexcept : n(o.n), d(o.d), b(o.b) { o.b = nullptr; }
  Rat& operator=(const Rat& o) { if (this != &o) { delete b; n = o.n; d = o.d; b = o.b ? new mpq_class(*o.b) : nullptr; } return *this; }
  Rat& operator=(Rat&& o) noexcept { if (this != &o) { delete b; n = o.n; d = o.d; b = o.b; o.b = nullptr; } return *this; }
  ~Rat() { delete b; }
  mpq_class q() const { if (b) return *b; mpq_class r((long)n, (long)d); return r; }
  static Rat fromQ(const mpq_class& x) {
    Rat r;
    if (x.get_num().fits_slong_p() && x.get_den().fits_slong_p() && x.get_num().get_si() != INT64_MIN) {
      r.n = x.get_num().get_si(); r.d = x.get_den().get_si();
    } else r.b = new mpq_class(x);
    return r;
  }
  static i64 gcd(i64 a, i64 c) { u64 x = a < 0 ? -a : a, y = c < 0 ? -c : c; while (y) { u64 t = x % y; x = y; y = t; } return (i64)x; }
  static bool mk128(__int128 nn, __int128 dd, Rat& r) {
    if (nn == 0) { r.n = 0; r.d = 1; return true; }
    // dd > 0
    int z = 0;
    if ((dd & (dd - 1)) == 0) {
      while (!(dd & 1) && !(nn & 1)) { dd >>= 1; nn >>= 1; z++; }
    } else {
      unsigned __int128 x = nn < 0 ? -nn : nn, y = dd;
      while (y) { unsigned __int128 t = x % y; x = y; y = t; }
      nn /= (__int128)x; dd /= (__int128)x;
    }
    if (nn > INT64_MAX || nn <= INT64_MIN || dd > INT64_MAX) return false;
    r.n = (i64)nn; r.d = (i64)dd; return true;
  }
  bool isZero() const { return !b && n == 0; }
  bool isOne() const { return !b && n == 1 && d == 1; }
  int sign() const { return b ? sgn(*b) : (n > 0) - (n < 0); }
  bool operator==(const Rat& o) const { if (!b && !o.b) return n == o.n && d == o.d; if (!b || !o.b) return false; return *b == *o.b; }
  bool operator!=(const Rat& o) const { return !(*this == o); }
  bool operator<(const Rat& o) const { if (!b && !o.b) return (__int128)n * o.d < (__int128)o.n * d; return q() < o.q(); }
  Rat operator-() const { if (!b) { Rat r; r.n = -n; r.d = d; return r; } return fromQ(-*b); }
  Rat operator+(const Rat& o) const {
    if (!b && !o.b) {
      Rat r;
      if (d == 1 && o.d == 1) { i64 s; if (!__builtin_add_overflow(n, o.n, &s) && s != INT64_MIN) { r.n = s; return r; } }
      else {
        __int128 a1, a2, s;
        a1 = (__int128)n * o.d; a2 = (__int128)o.n * d;
        if (!__builtin_add_overflow(a1, a2, &s) && mk128(s, (__int128)d * o.d, r)) return r;
      }
    }
    return fromQ(q() + o.q());
  }
  Rat operator-(const Rat& o) const { return *this + (-o); }
  Rat operator*(const Rat& o) const {
    if (!b && !o.b) { Rat r; if (mk128((__int128)n * o.n, (__int128)d * o.d, r)) return r; }
    return fromQ(q() * o.q());
  }
  Rat operator/(const Rat& o) const {
    if (!b && !o.b) {
      Rat r; __int128 nn = (__int128)n * o.d, dd = (__int128)d * o.n; if (dd < 0) { dd = -dd; nn = -nn; }
      if (mk128(nn, dd, r)) return r;
    }
    return fromQ(q() / o.q());
  }
  double toDouble() const { return b ? b->get_d() : (double)n / (double)d; }
  static Rat fromDouble(double x) {
    if (std::isnan(x) || std::isinf(x)) throw Unsupported("non-finite double in symbolic arithmetic");
    if (x == (double)(i64)x && std::fabs(x) < 9e15) return Rat((i64)x);
    mpq_class m(x); return fromQ(m);
  }
  std::string str() const { if (b) return b->get_str(); return d == 1 ? std::to_string(n) : std::to_string(n) + "/" + std::to_string(d); }
  // exponent of lowest set bit, or INT_MIN if not dyadic ; zero -> large
  int lowbit() const {
    if (isZero()) return 1 << 20;
    if (!b) {
      if (d & (d - 1)) return INT32_MIN;
      return __builtin_ctzll((u64)(n < 0 ? -n : n)) - __builtin_ctzll((u64)d);
    }
    mpz_class den = b->get_den();
    if (mpz_popcount(den.get_mpz_t()) != 1) return INT32_MIN;
    return (int)mpz_scan1(b->get_num().get_mpz_t(), 0) - (int)mpz_scan1(den.get_mpz_t(), 0);
  }
  size_t hash() const { if (b) { return std::hash<std::string>()(b->get_str()); } return (size_t)n * 1000003u ^ (size_t)d * 7919u; }
};

// ---------------------------------------------------------------- expressions
enum Op : u8 {
  OConst, OVar, OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OAnd, OOr, OXor, OShl, OLShr, OAShr,
  OZExt, OSExt, OExtract, OConcat, OIte, OEq, OUlt, OUle, OSlt, OSle, ONot,
  ORLin,   // real: linear form
  ORCmpLt, // lin < 0
  ORCmpLe, // lin <= 0
  ORCmpEq, // lin == 0
  ORNear,  // |k0 - k1| <= 1e-7, operands kept apart (the solver decides)
};
struct Expr;
struct LinForm {
  std::vector<std::pair<u32, Rat>> t;  // atom id -> coefficient, sorted, nonzero
  Rat c;
  bool inexact = false;
};
typedef std::vector<u32> VarSet;
struct Expr {
  Op op; u8 w;  // width in bits; 0 = real
  u32 id;
  u64 imm;  // const value / var index / extract low bit
  Expr* k[3];
  LinForm* lin;
  Z3_ast z;
  const VarSet* vars;
  i64 slo, shi;  // signed interval
};
struct Atom {
  enum K { Var, Mul, Div, Ite, Sqrt, Fn, I2R } kind;
  u32 var;          // kind Var
  Expr* a = nullptr; Expr* b = nullptr; Expr* c = nullptr;
  std::string fn;
  double lo, hi;
  int gran;  // all values multiples of 2^gran ; INT32_MIN if unknown
  Z3_ast z = nullptr;
  const VarSet* vars = nullptr;
};
struct VarInfo {
  std::string name; int w;  // 0 real
  i64 lo, hi; double dlo, dhi; bool integral; bool uns;
  Z3_ast z = nullptr; Z3_ast bound = nullptr; Expr* e = nullptr; u32 atom = 0;
};
struct MV { u64 i = 0; Rat r; bool set = false; };
struct Model { std::vector<MV> v; };
typedef std::shared_ptr<Model> ModelP;

static inline u64 maskw(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, int w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v &= maskw(w); return (i64)((v ^ m) - m); }

struct ExprPool {
  Z3_context ctx;
  std::vector<VarInfo> vars;
  std::vector<Atom> atoms;
  std::map<std::string, u32> varByName;
  std::unordered_multimap<u64, Expr*> table;
  std::unordered_map<std::string, u32> atomTable;
  std::vector<std::unique_ptr<Expr>> all;
  std::map<VarSet, std::unique_ptr<VarSet>> vsTable;
  const VarSet* emptyVS;
  std::vector<Z3_ast> sideConstraints;       // definitional constraints of atoms (sqrt)
  u64 inexactOps = 0, exactOps = 0;
  Z3_sort realS, boolS;
  ExprPool() {
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    ctx = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    emptyVS = internVS({});
    realS = Z3_mk_real_sort(ctx); boolS = Z3_mk_bool_sort(ctx);
  }
  const VarSet* internVS(const VarSet& s) {
    auto it = vsTable.find(s); if (it != vsTable.end()) return it->second.get();
    auto p = std::make_unique<VarSet>(s); auto* r = p.get(); vsTable[s] = std::move(p); return r;
  }
  std::map<std::pair<const VarSet*, const VarSet*>, const VarSet*> unionCache;
  const VarSet* unionVS(const VarSet* a, const VarSet* b) {
    if (a == b || b->empty()) return a; if (a->empty()) return b;
    if (a > b) std::swap(a, b);
    auto key = std::make_pair(a, b); auto it = unionCache.find(key); if (it != unionCache.end()) return it->second;
    VarSet r; std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
    return unionCache[key] = internVS(r);
  }
  Expr* mkRaw(Op op, int w, u64 imm, Expr* a = nullptr, Expr* b = nullptr, Expr* c = nullptr) {
    u64 h = (u64)op * 0x9E3779B97F4A7C15ull ^ (u64)w * 1315423911ull ^ imm * 0xC2B2AE3D27D4EB4Full;
    h ^= (a ? a->id + 1 : 0) * 0x165667B19E3779F9ull; h = (h << 13) | (h >> 51);
    h ^= (b ? b->id + 1 : 0) * 0x27D4EB2F165667C5ull; h = (h << 13) | (h >> 51);
    h ^= (c ? c->id + 1 : 0) * 0x85EBCA77C2B2AE63ull;
    auto rg = table.equal_range(h);
    for (auto it = rg.first; it != rg.second; ++it) {
      Expr* e = it->second;
      if (e->op == op && e->w == w && e->imm == imm && e->k[0] == a && e->k[1] == b && e->k[2] == c) return e;
    }
    auto p = std::make_unique<Expr>(); Expr* e = p.get();
    e->op = op; e->w = w; e->imm = imm; e->k[0] = a; e->k[1] = b; e->k[2] = c; e->lin = nullptr; e->z = nullptr;
    e->id = all.size();
    e->vars = emptyVS;
    for (int i = 0; i < 3; i++) if (e->k[i]) e->vars = unionVS(e->vars, e->k[i]->vars);
    interval(e);
    all.push_back(std::move(p)); table.emplace(h, e);
    return e;
  }
  static i64 wmin(int w) { return w >= 64 ? INT64_MIN : -(1ll << (w - 1)); }
  static i64 wmax(int w) { return w >= 64 ? INT64_MAX : (1ll << (w - 1)) - 1; }
  void interval(Expr* e) {
    int w = e->w; if (w == 0) return;
    i64 lo = w == 1 ? -1 : wmin(w), hi = w == 1 ? 0 : wmax(w);
    auto A = e->k[0], B = e->k[1], C = e->k[2];
    auto set = [&](__int128 l, __int128 h) { if (l >= wmin(w) && h <= wmax(w)) { lo = (i64)l; hi = (i64)h; } };
    switch (e->op) {
      case OConst: lo = hi = sx(e->imm, w); break;
      case OVar: if (vars[e->imm].lo <= vars[e->imm].hi && !vars[e->imm].uns) { lo = vars[e->imm].lo; hi = vars[e->imm].hi; } break;
      case OAdd: set((__int128)A->slo + B->slo, (__int128)A->shi + B->shi); break;
      case OSub: set((__int128)A->slo - B->shi, (__int128)A->shi - B->slo); break;
      case OMul: {
        __int128 p[4] = {(__int128)A->slo * B->slo, (__int128)A->slo * B->shi, (__int128)A->shi * B->slo, (__int128)A->shi * B->shi};
        set(*std::min_element(p, p + 4), *std::max_element(p, p + 4)); break;
      }
      case OZExt: if (A->w == 1) { lo = 0; hi = 1; } else if (A->slo >= 0) { lo = A->slo; hi = A->shi; } else { lo = 0; hi = (i64)maskw(A->w); } break;
      case OSExt: lo = A->slo; hi = A->shi; break;
      case OExtract: if (e->imm == 0 && A->slo >= wmin(w) && A->shi <= wmax(w) && w > 1) { lo = A->slo; hi = A->shi; } break;
      case OIte: lo = std::min(B->slo, C->slo); hi = std::max(B->shi, C->shi); break;
      case OAnd: if (w > 1) { if (A->slo >= 0 && B->slo >= 0) { lo = 0; hi = std::min(A->shi, B->shi); } else if (A->slo >= 0) { lo = 0; hi = A->shi; } else if (B->slo >= 0) { lo = 0; hi = B->shi; } } break;
      case OShl: if (B->op == OConst && B->imm < 62) set((__int128)A->slo << B->imm, (__int128)A->shi << B->imm);
        else if (A->slo >= 0 && B->slo >= 0 && B->shi < 62) set(0, (__int128)A->shi << B->shi); break;
      case OAShr: if (B->op == OConst && B->imm < 64) { lo = A->slo >> B->imm; hi = A->shi >> B->imm; } break;
      case OLShr: if (A->slo >= 0) { lo = 0; hi = A->shi; if (B->op == OConst && B->imm < 64) { lo = A->slo >> B->imm; hi = A->shi >> B->imm; } } break;
      case OUDiv: if (A->slo >= 0 && B->slo > 0) { lo = A->slo / B->shi; hi = A->shi / B->slo; } break;
      case OSDiv: if (B->slo > 0 && A->slo > INT64_MIN) { lo = std::min(A->slo / B->slo, A->slo / B->shi); hi = std::max(A->shi / B->slo, A->shi / B->shi); } break;
      case OURem: if (A->slo >= 0 && B->slo > 0) { lo = 0; hi = std::min(A->shi, B->shi - 1); } break;
      case OSRem: if (B->slo > 0) { lo = A->slo >= 0 ? 0 : -(B->shi - 1); hi = B->shi - 1; } break;
      default: break;
    }
    e->slo = lo; e->shi = hi;
  }
  Expr* cst(u64 v, int w) { return mkRaw(OConst, w, v & maskw(w)); }
  static bool isC(Expr* e) { return e->op == OConst; }

  static u64 foldBin(Op op, u64 a, u64 b, int w, bool& ok) {
    ok = true; u64 m = maskw(w); a &= m; b &= m;
    switch (op) {
      case OAdd: return (a + b) & m; case OSub: return (a - b) & m; case OMul: return (a * b) & m;
      case OUDiv: if (!b) { ok = false; return 0; } return a / b;
      case OURem: if (!b) { ok = false; return 0; } return a % b;
      case OSDiv: { i64 x = sx(a, w), y = sx(b, w); if (!y || (y == -1 && x == wmin(w))) { ok = false; return 0; } return (u64)(x / y) & m; }
      case OSRem: { i64 x = sx(a, w), y = sx(b, w); if (!y || (y == -1 && x == wmin(w))) { ok = false; return 0; } return (u64)(x % y) & m; }
      case OAnd: return a & b; case OOr: return a | b; case OXor: return a ^ b;
      case OShl: return b >= (u64)w ? 0 : (a << b) & m;
      case OLShr: return b >= (u64)w ? 0 : a >> b;
      case OAShr: { i64 x = sx(a, w); if (b >= (u64)w) b = w - 1; return (u64)(x >> b) & m; }
      default: ok = false; return 0;
    }
  }
  Expr* bin(Op op, Expr* a, Expr* b) {
    int w = a->w; assert(a->w == b->w);
    if (a->w == 0) throw Unsupported("integer operation on symbolic double bits");
    if (isC(a) && isC(b)) { bool ok; u64 r = foldBin(op, a->imm, b->imm, w, ok); if (ok) return cst(r, w); }
    u64 m = maskw(w);
    bool comm = op == OAdd || op == OMul || op == OAnd || op == OOr || op == OXor;
    if (comm && isC(a)) std::swap(a, b);
    if (isC(b)) {
      u64 v = b->imm;
      switch (op) {
        case OAdd: case OSub: case OShl: case OLShr: case OAShr: if (v == 0) return a; break;
        case OMul: if (v == 0) return b; if (v == 1) return a; break;
        case OUDiv: case OSDiv: if (v == 1 && w > 1) return a; break;
        case OURem: if (v == 1) return cst(0, w); break;
        case OAnd: if (v == 0) return b; if (v == m) return a; break;
        case OOr: if (v == 0) return a; if (v == m) return b; break;
        case OXor: if (v == 0) return a; if (w == 1) return mkNot(a); break;
        default: break;
      }
      if (op == OSub && w > 1) return bin(OAdd, a, cst(-v, w));
      if (op == OAdd && a->op == OAdd && isC(a->k[1])) return bin(OAdd, a->k[0], cst(a->k[1]->imm + v, w));
      if (op == OMul && a->op == OMul && isC(a->k[1])) return bin(OMul, a->k[0], cst(a->k[1]->imm * v, w));
      if ((op == OAdd || op == OMul || op == OShl || op == OAnd || op == OSub || op==OUDiv||op==OLShr||op==OAShr) && a->op == OIte && isC(a->k[1]) && isC(a->k[2])) {
        return ite(a->k[0], bin(op, a->k[1], b), bin(op, a->k[2], b));
      }
    }
    if (a == b) {
      if (op == OSub || op == OXor) return cst(0, w);
      if (op == OAnd || op == OOr) return a;
    }
    if (op == OSub) {
      // (x + c1) - x etc.
      if (a->op == OAdd && a->k[0] == b) return a->k[1];
      if (a->op == OAdd && a->k[1] == b) return a->k[0];
      if (a->op == OAdd && b->op == OAdd && isC(a->k[1]) && isC(b->k[1])) return bin(OAdd, bin(OSub, a->k[0], b->k[0]), cst(a->k[1]->imm - b->k[1]->imm, w));
      if (b->op == OAdd && isC(b->k[1])) return bin(OAdd, bin(OSub, a, b->k[0]), cst(-b->k[1]->imm, w));
    }
    if ((op == OUDiv || op == OSDiv || op == OURem || op == OSRem) && w > 8 && a->slo >= 0 && b->slo >= 0 && (!isC(b) || a->shi < (1ll << 40))) {
      // division of small non-negative numbers: narrow (division by zero is excluded before)
      int v = 2; while (v < w && (v >= 62 || (1ll << (v - 1)) <= std::max(a->shi, b->shi))) ++v;
      if (v + 4 <= w) return zext(bin(op == OUDiv || op == OSDiv ? OUDiv : OURem, extract(a, 0, v), extract(b, 0, v)), w);
    }
    if (comm && !isC(b) && a->id > b->id) std::swap(a, b);
    Expr* r = mkRaw(op, w, 0, a, b);
    if (w > 1 && r->slo == r->shi) return cst((u64)r->slo, w);
    return r;
  }
  Expr* mkNot(Expr* a) {
    if (isC(a)) return cst(a->imm ^ 1, 1);
    if (a->op == ONot) return a->k[0];
    return mkRaw(ONot, 1, 0, a);
  }
  Expr* ite(Expr* c, Expr* a, Expr* b) {
    if (isC(c)) return c->imm ? a : b;
    if (a == b) return a;
    if (a->w == 0) return rite(c, a, b);
    if (c->op == ONot) return ite(c->k[0], b, a);
    if (a->w == 1) {
      if (isC(a) && isC(b)) return a->imm ? c : mkNot(c);
      if (isC(a)) return a->imm ? bin(OOr, c, b) : bin(OAnd, mkNot(c), b);
      if (isC(b)) return b->imm ? bin(OOr, mkNot(c), a) : bin(OAnd, c, a);
    }
    return mkRaw(OIte, a->w, 0, c, a, b);
  }
  Expr* cmp(Op op, Expr* a, Expr* b) {
    if (a->w == 0 || b->w == 0) throw Unsupported("integer comparison on symbolic double bits");
    assert(a->w == b->w);
    int w = a->w;
    if (isC(a) && isC(b)) {
      u64 x = a->imm, y = b->imm; i64 sxx = sx(x, w), syy = sx(y, w); bool r = false;
      switch (op) { case OEq: r = x == y; break; case OUlt: r = x < y; break; case OUle: r = x <= y; break; case OSlt: r = sxx < syy; break; case OSle: r = sxx <= syy; break; default: assert(0); }
      return cst(r, 1);
    }
    if (a == b) return cst(op == OEq || op == OUle || op == OSle, 1);
    if (w > 1) {
      bool nn = a->slo >= 0 && b->slo >= 0;
      if (op == OSlt || (op == OUlt && nn)) { if (a->shi < b->slo) return cst(1, 1); if (a->slo >= b->shi) return cst(0, 1); op = OSlt; }
      else if (op == OSle || (op == OUle && nn)) { if (a->shi <= b->slo) return cst(1, 1); if (a->slo > b->shi) return cst(0, 1); op = OSle; }
      else if (op == OEq) { if (a->shi < b->slo || b->shi < a->slo) return cst(0, 1); }
      else if (op == OUlt && isC(b) && b->imm != 0 && sx(b->imm, w) > 0 && a->slo < 0 && a->shi < 0) return cst(0, 1);
    }
    if (op == OEq) {
      if (isC(a)) std::swap(a, b);
      if (w == 1) { if (isC(b)) return b->imm ? a : mkNot(a); }
      if (isC(b)) {
        if (a->op == OIte) {
          Expr *x = cmp(OEq, a->k[1], b), *y = cmp(OEq, a->k[2], b);
          if (isC(x) || isC(y)) return ite(a->k[0], x, y);
        }
        if (a->op == OZExt) { if (b->imm & ~maskw(a->k[0]->w)) return cst(0, 1); return cmp(OEq, a->k[0], cst(b->imm, a->k[0]->w)); }
        if (a->op == OSExt) { u64 lo = b->imm & maskw(a->k[0]->w); if ((sx(lo, a->k[0]->w) & (i64)maskw(w)) != (i64)b->imm) return cst(0, 1); return cmp(OEq, a->k[0], cst(lo, a->k[0]->w)); }
        if (a->op == OAdd && isC(a->k[1])) return cmp(OEq, a->k[0], cst(b->imm - a->k[1]->imm, w));
        if (a->op == OXor && isC(a->k[1])) return cmp(OEq, a->k[0], cst(b->imm ^ a->k[1]->imm, w));
      }
      if (!isC(b) && a->id > b->id) std::swap(a, b);
    }
    if (isC(b) && a->op == OIte && isC(a->k[1]) && isC(a->k[2])) return ite(a->k[0], cmp(op, a->k[1], b), cmp(op, a->k[2], b));
    if (isC(a) && b->op == OIte && isC(b->k[1]) && isC(b->k[2])) return ite(b->k[0], cmp(op, a, b->k[1]), cmp(op, a, b->k[2]));
    return mkRaw(op, 1, 0, a, b);
  }
  Expr* zext(Expr* a, int w) {
    if (a->w == w) return a; if (a->w == 0) throw Unsupported("zext of double bits");
    if (isC(a)) return cst(a->imm, w);
    if (a->op == OZExt) return zext(a->k[0], w);
    return mkRaw(OZExt, w, 0, a);
  }
  Expr* sext(Expr* a, int w) {
    if (a->w == w) return a; if (a->w == 0) throw Unsupported("sext of double bits");
    if (isC(a)) return cst((u64)sx(a->imm, a->w), w);
    if (a->op == OSExt) return sext(a->k[0], w);
    if (a->op == OZExt && a->k[0]->w < a->w) return zext(a->k[0], w);
    if (a->w > 1 && a->slo >= 0) return zext(a, w);
    return mkRaw(OSExt, w, 0, a);
  }
  Expr* extract(Expr* a, int lo, int w) {
    if (lo == 0 && w == a->w) return a;
    if (a->w == 0) throw Unsupported("extracting bytes of a symbolic double");
    if (isC(a)) return cst(a->imm >> lo, w);
    if (a->op == OExtract) return extract(a->k[0], lo + (int)a->imm, w);
    if (a->op == OZExt || a->op == OSExt) {
      if (lo + w <= a->k[0]->w) return extract(a->k[0], lo, w);
      if (a->op == OZExt && lo >= a->k[0]->w) return cst(0, w);
      if (lo == 0) return a->op == OZExt ? zext(a->k[0], w) : sext(a->k[0], w);
    }
    if (a->op == OConcat) {
      int lw = a->k[1]->w;
      if (lo + w <= lw) return extract(a->k[1], lo, w);
      if (lo >= lw) return extract(a->k[0], lo - lw, w);
    }
    if (a->op == OShl && isC(a->k[1]) && a->w > 1) { int s = (int)a->k[1]->imm; if (lo >= s) return extract(a->k[0], lo - s, w); if (lo + w <= s) return cst(0, w); }
    if (a->op == OLShr && isC(a->k[1])) { int s = (int)a->k[1]->imm; if (lo + w + s <= a->w) return extract(a->k[0], lo + s, w); if (lo + s >= a->w) return cst(0, w); }
    if (a->op == OOr || a->op == OAnd || a->op == OXor) return bin(a->op, extract(a->k[0], lo, w), extract(a->k[1], lo, w));
    if (a->op == OIte) return ite(a->k[0], extract(a->k[1], lo, w), extract(a->k[2], lo, w));
    if (lo == 0 && (a->op == OAdd || a->op == OSub || a->op == OMul)) return bin(a->op, extract(a->k[0], 0, w), extract(a->k[1], 0, w));
    return mkRaw(OExtract, w, lo, a);
  }
  Expr* concat(Expr* hi, Expr* lo) {
    if (hi->w == 0 || lo->w == 0) throw Unsupported("concat of double bits");
    if (isC(hi) && isC(lo)) return cst(hi->imm << lo->w | lo->imm, hi->w + lo->w);
    if (isC(hi) && hi->imm == 0) return zext(lo, hi->w + lo->w);
    if (hi->op == OExtract && lo->op == OExtract && hi->k[0] == lo->k[0] && hi->imm == lo->imm + lo->w)
      return extract(lo->k[0], (int)lo->imm, hi->w + lo->w);
    if (hi->op == OExtract && hi->k[0] == lo && hi->imm == lo->w && hi->w + lo->w == lo->w) return lo;
    return mkRaw(OConcat, hi->w + lo->w, 0, hi, lo);
  }
  // ------------------------------------------------------------ variables
  u32 mkVar(const std::string& name, int w, i64 lo, i64 hi, bool uns, double dlo, double dhi, bool integral) {
    // the same name with other bounds (bounds depending on earlier choices) is another variable
    char kb[96]; snprintf(kb, sizeof kb, "@%d:%ld:%ld:%g:%g", w, (long)lo, (long)hi, dlo, dhi); std::string key = name + kb;
    auto it = varByName.find(key);
    if (it != varByName.end()) return it->second;
    VarInfo v; v.name = name; v.w = w; v.lo = lo; v.hi = hi; v.uns = uns; v.dlo = dlo; v.dhi = dhi; v.integral = integral;
    u32 idx = vars.size();
    Z3_sort s = w == 0 ? realS : w == 1 ? boolS : Z3_mk_bv_sort(ctx, w);
    v.z = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, key.c_str()), s);
    Z3_inc_ref(ctx, v.z);
    vars.push_back(v);
    if (w == 0) {
      Atom a; a.kind = Atom::Var; a.var = idx; a.lo = dlo; a.hi = dhi; a.gran = integral ? 0 : INT32_MIN; a.z = v.z;
      a.vars = internVS({idx});
      vars[idx].atom = atoms.size(); atoms.push_back(a);
      LinForm l; l.t.emplace_back(vars[idx].atom, Rat(1));
      vars[idx].e = mkLin(std::move(l));
      Z3_ast lo_ = Z3_mk_numeral(ctx, Rat::fromDouble(dlo).str().c_str(), realS), hi_ = Z3_mk_numeral(ctx, Rat::fromDouble(dhi).str().c_str(), realS);
      Z3_ast b[2] = {Z3_mk_ge(ctx, v.z, lo_), Z3_mk_le(ctx, v.z, hi_)};
      vars[idx].bound = Z3_mk_and(ctx, 2, b);
    } else {
      Expr* e = mkRaw(OVar, w, idx); e->vars = internVS({idx}); vars[idx].e = e;
      if (!uns && w > 1) {
        Z3_sort bs = Z3_mk_bv_sort(ctx, w);
        Z3_ast b[2] = {Z3_mk_bvsge(ctx, v.z, Z3_mk_int64(ctx, lo, bs)), Z3_mk_bvsle(ctx, v.z, Z3_mk_int64(ctx, hi, bs))};
        vars[idx].bound = Z3_mk_and(ctx, 2, b);
      }
    }
    if (vars[idx].bound) Z3_inc_ref(ctx, vars[idx].bound);
    varByName[key] = idx;
    return idx;
  }
  // ------------------------------------------------------------ reals
  std::unordered_multimap<size_t, Expr*> linTable;
  Expr* mkLin(LinForm&& l) {
    size_t h = l.c.hash();
    for (auto& t : l.t) h = (h * 1000003u) ^ (t.first * 2654435761u) ^ t.second.hash();
    auto rg = linTable.equal_range(h);
    for (auto it = rg.first; it != rg.second; ++it) {
      LinForm& o = *it->second->lin;
      if (o.c == l.c && o.t.size() == l.t.size() && o.inexact == l.inexact) {
        bool same = true;
        for (size_t i = 0; i < o.t.size() && same; i++) same = o.t[i].first == l.t[i].first && o.t[i].second == l.t[i].second;
        if (same) return it->second;
      }
    }
    auto p = std::make_unique<Expr>(); Expr* e = p.get();
    e->op = ORLin; e->w = 0; e->imm = 0; e->k[0] = e->k[1] = e->k[2] = nullptr; e->z = nullptr; e->id = all.size(); e->vars = nullptr;
    e->slo = e->shi = 0;
    e->lin = new LinForm(std::move(l));
    all.push_back(std::move(p)); linTable.emplace(h, e);
    return e;
  }
  const VarSet* varsOf(Expr* e) {
    if (e->vars) return e->vars;
    VarSet s;
    for (auto& t : e->lin->t) { auto* av = atoms[t.first].vars; s.insert(s.end(), av->begin(), av->end()); }
    std::sort(s.begin(), s.end()); s.erase(std::unique(s.begin(), s.end()), s.end());
    return e->vars = internVS(s);
  }
  Expr* rcst(double x) { LinForm l; l.c = Rat::fromDouble(x); return mkLin(std::move(l)); }
  bool isRC(Expr* e) { return e->op == ORLin && e->lin->t.empty(); }
  void bounds(Expr* e, double& lo, double& hi) {
    double c = e->lin->c.toDouble(); lo = hi = c;
    for (auto& t : e->lin->t) {
      double k = t.second.toDouble(); auto& a = atoms[t.first];
      double x = k * a.lo, y = k * a.hi; lo += std::min(x, y); hi += std::max(x, y);
    }
    double sl = 1e-12 * (std::fabs(lo) + std::fabs(hi) + 1); lo -= sl; hi += sl;
  }
  int granOf(const LinForm& l) {
    int g = l.c.lowbit(); if (g == INT32_MIN) return g;
    for (auto& t : l.t) { int x = t.second.lowbit(); int ag = atoms[t.first].gran; if (x == INT32_MIN || ag == INT32_MIN) return INT32_MIN; g = std::min(g, x + ag); }
    return g;
  }
  void note(Expr* e) {  // exactness certificate of the floating-point operation whose real result is e
    LinForm& l = *e->lin;
    if (l.inexact) { inexactOps++; return; }
    int g = granOf(l); double lo, hi; bounds(e, lo, hi); double m = std::max(std::fabs(lo), std::fabs(hi));
    bool ok = g != INT32_MIN && (g >= (1 << 19) || m <= std::ldexp(1.0, 53 + g));
    if (ok) exactOps++; else { inexactOps++; }
  }
  Expr* radd(Expr* a, Expr* b, bool sub) {
    LinForm r; auto &x = *a->lin, &y = *b->lin;
    r.t.reserve(x.t.size() + y.t.size());
    size_t i = 0, j = 0;
    while (i < x.t.size() || j < y.t.size()) {
      if (j == y.t.size() || (i < x.t.size() && x.t[i].first < y.t[j].first)) r.t.push_back(x.t[i++]);
      else if (i == x.t.size() || y.t[j].first < x.t[i].first) { r.t.emplace_back(y.t[j].first, sub ? -y.t[j].second : y.t[j].second); j++; }
      else { Rat s = sub ? x.t[i].second - y.t[j].second : x.t[i].second + y.t[j].second; if (!s.isZero()) r.t.emplace_back(x.t[i].first, std::move(s)); i++; j++; }
    }
    r.c = sub ? x.c - y.c : x.c + y.c;
    Expr* e = mkLin(std::move(r)); note(e); return e;
  }
  Expr* rscale(Expr* a, const Rat& s) {
    if (s.isOne()) return a;
    LinForm r;
    if (!s.isZero()) { r.t.reserve(a->lin->t.size()); for (auto& t : a->lin->t) r.t.emplace_back(t.first, t.second * s); r.c = a->lin->c * s; }
    Expr* e = mkLin(std::move(r)); note(e); return e;
  }
  Expr* atomExpr(u32 id) { LinForm l; l.t.emplace_back(id, Rat(1)); return mkLin(std::move(l)); }
  u32 mkAtom(Atom::K k, Expr* a, Expr* b, Expr* c, const std::string& fn) {
    std::string key = std::to_string((int)k) + "," + std::to_string(a ? a->id : -1) + "," + std::to_string(b ? b->id : -1) + "," + std::to_string(c ? c->id : -1) + fn;
    auto it = atomTable.find(key); if (it != atomTable.end()) return it->second;
    Atom A; A.kind = k; A.a = a; A.b = b; A.c = c; A.fn = fn; A.gran = INT32_MIN;
    double inf = std::numeric_limits<double>::infinity(); A.lo = -inf; A.hi = inf;
    A.vars = emptyVS; for (Expr* x : {a, b, c}) if (x) A.vars = unionVS(A.vars, varsOf(x));
    double l1, h1, l2, h2;
    Z3_ast z;
    switch (k) {
      case Atom::Mul: {
        bounds(a, l1, h1); bounds(b, l2, h2); double p[4] = {l1 * l2, l1 * h2, h1 * l2, h1 * h2};
        A.lo = *std::min_element(p, p + 4); A.hi = *std::max_element(p, p + 4);
        int g1 = granOf(*a->lin), g2 = granOf(*b->lin); if (g1 != INT32_MIN && g2 != INT32_MIN) A.gran = g1 + g2;
        if (a == b) A.lo = std::max(A.lo, 0.0);
        Z3_ast m[2] = {toZ3(a), toZ3(b)}; z = Z3_mk_mul(ctx, 2, m); break;
      }
      case Atom::Div: z = Z3_mk_div(ctx, toZ3(a), toZ3(b)); break;
      case Atom::I2R: A.lo = (double)a->slo; A.hi = (double)a->shi; A.gran = 0; z = Z3_mk_int2real(ctx, Z3_mk_bv2int(ctx, toZ3(a), true)); break;
      case Atom::Ite: {
        bounds(b, l1, h1); bounds(c, l2, h2); A.lo = std::min(l1, l2); A.hi = std::max(h1, h2);
        int g1 = granOf(*b->lin), g2 = granOf(*c->lin); if (g1 != INT32_MIN && g2 != INT32_MIN) A.gran = std::min(g1, g2);
        z = Z3_mk_ite(ctx, toZ3(a), toZ3(b), toZ3(c)); break;
      }
      default: {
        std::string nm = "fn!" + fn + "!" + std::to_string(atoms.size());
        z = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm.c_str()), realS);
        if (k == Atom::Sqrt) {
          bounds(a, l1, h1); A.lo = 0; A.hi = std::sqrt(std::max(h1, 0.0)) * 1.0000001;
        }
      }
    }
    Z3_inc_ref(ctx, z); A.z = z;
    u32 id = atoms.size(); atoms.push_back(A); atomTable[key] = id;
    if (k == Atom::Sqrt) {
      Z3_ast zero = Z3_mk_numeral(ctx, "0", realS); Z3_ast m[2] = {z, z};
      Z3_ast c1 = Z3_mk_ge(ctx, z, zero), c2 = Z3_mk_eq(ctx, Z3_mk_mul(ctx, 2, m), toZ3(a)); Z3_ast cc[2] = {c1, c2};
      Z3_ast s = Z3_mk_and(ctx, 2, cc); Z3_inc_ref(ctx, s); sideConstraints.push_back(s);
    }
    return id;
  }
  void factors(u32 id, std::vector<u32>& f) {
    auto& A = atoms[id];
    auto single = [](Expr* e) { return e->lin->c.isZero() && e->lin->t.size() == 1 && e->lin->t[0].second.isOne(); };
    if (A.kind == Atom::Mul && single(A.a) && single(A.b)) { u32 x = A.a->lin->t[0].first, y = A.b->lin->t[0].first; factors(x, f); factors(y, f); }
    else f.push_back(id);
  }
  u32 monomial(u32 x, u32 y) {
    std::vector<u32> f; factors(x, f); factors(y, f); std::sort(f.begin(), f.end());
    u32 r = f[0]; for (size_t i = 1; i < f.size(); ++i) r = mkAtom(Atom::Mul, atomExpr(r), atomExpr(f[i]), nullptr, "");
    return r;
  }
  Expr* rmul(Expr* a, Expr* b) {
    if (isRC(a)) return rscale(b, a->lin->c);
    if (isRC(b)) return rscale(a, b->lin->c);
    // distribute small products over their monomials: polynomials get a canonical form
    size_t na = a->lin->t.size() + !a->lin->c.isZero(), nb = b->lin->t.size() + !b->lin->c.isZero();
    if (na * nb <= 256) {
      Expr* r = nullptr;
      auto add = [&](Expr* x) { r = r ? radd(r, x, false) : x; };
      auto terms = [&](Expr* x) { std::vector<std::pair<i64, Rat>> v; for (auto& t : x->lin->t) v.emplace_back((i64)t.first, t.second); if (!x->lin->c.isZero()) v.emplace_back(-1, x->lin->c); return v; };
      for (auto& x : terms(a)) for (auto& y : terms(b)) {
        Rat k = x.second * y.second;
        if (x.first < 0 && y.first < 0) { LinForm l; l.c = k; add(mkLin(std::move(l))); }
        else if (x.first < 0) add(rscale(atomExpr((u32)y.first), k));
        else if (y.first < 0) add(rscale(atomExpr((u32)x.first), k));
        else add(rscale(atomExpr(monomial((u32)x.first, (u32)y.first)), k));
      }
      return r;
    }
    // factor out single-term scaling so that products are canonical
    Rat s(1);
    auto norm = [&](Expr* x) { if (x->lin->c.isZero() && x->lin->t.size() == 1 && !x->lin->t[0].second.isOne()) { s = s * x->lin->t[0].second; return atomExpr(x->lin->t[0].first); } return x; };
    a = norm(a); b = norm(b);
    if (a->id > b->id) std::swap(a, b);
    return rscale(atomExpr(mkAtom(Atom::Mul, a, b, nullptr, "")), s);
  }
  Expr* rdiv(Expr* a, Expr* b) {
    if (isRC(b)) { if (b->lin->c.isZero()) throw Unsupported("division of symbolic double by zero"); return rscale(a, Rat(1) / b->lin->c); }
    inexactOps++;
    return atomExpr(mkAtom(Atom::Div, a, b, nullptr, ""));
  }
  Expr* rite(Expr* c, Expr* a, Expr* b) {
    if (a == b) return a;
    if (c->op == ONot) return rite(c->k[0], b, a);
    { Expr *N, *M; i64 D, F; bool ia = asInt(*a->lin, N, D), ib = asInt(*b->lin, M, F);
      auto k = [&](Expr* x, Expr*& n, i64& d) { if (!isRC(x) || x->lin->c.b || x->lin->c.d > (1ll << 20)) return false; n = cst((u64)x->lin->c.n, 64); d = x->lin->c.d; return true; };
      if ((ia && (ib || k(b, M, F))) || (ib && k(a, N, D))) {
        if (N->w == 64 && D == F) { LinForm r; Expr* q = ite(c, N, M); if (!isC(q) && q->slo > -(1ll << 53) && q->shi < (1ll << 53)) { r.t.emplace_back(mkAtom(Atom::I2R, q, nullptr, nullptr, ""), Rat(1) / Rat(D)); return mkLin(std::move(r)); } }
        else if (D == 1 || F == 1 || D % F == 0 || F % D == 0) { i64 L = std::max(D, F); if (L < (1 << 20)) { Expr* q = ite(c, bin(OMul, N, cst((u64)(L / D), 64)), bin(OMul, M, cst((u64)(L / F), 64))); if (!isC(q) && q->slo > -(1ll << 53) && q->shi < (1ll << 53)) { LinForm r; r.t.emplace_back(mkAtom(Atom::I2R, q, nullptr, nullptr, ""), Rat(1) / Rat(L)); return mkLin(std::move(r)); } } }
      } }
    return atomExpr(mkAtom(Atom::Ite, c, a, b, ""));
  }
  // integers converted to double: kept as bit-vectors as long as only linear arithmetic with rational constants is done on them
  Expr* i2r(Expr* a) {  // a: signed 64-bit, |a| < 2^53
    if (isC(a)) { LinForm l; l.c = Rat((i64)a->imm); return mkLin(std::move(l)); }
    return atomExpr(mkAtom(Atom::I2R, a, nullptr, nullptr, ""));
  }
  bool asInt(const LinForm& l, Expr*& N, i64& D) {  // value == N / D
    if (l.t.empty() || l.c.b) return false;
    __int128 den = l.c.d;
    for (auto& t : l.t) {
      if (atoms[t.first].kind != Atom::I2R || t.second.b) return false;
      i64 g = Rat::gcd((i64)den, t.second.d); den = den / g * t.second.d; if (den > (1ll << 40)) return false;
    }
    D = (i64)den; __int128 mag = (__int128)(l.c.n < 0 ? -(__int128)l.c.n : l.c.n) * (D / l.c.d);
    for (auto& t : l.t) { Expr* a = atoms[t.first].a; __int128 m = std::max(a->slo < 0 ? -(__int128)a->slo : a->slo, a->shi < 0 ? -(__int128)a->shi : a->shi); if (m > (1ll << 53)) return false; __int128 k = t.second.n < 0 ? -(__int128)t.second.n : t.second.n; k *= D / t.second.d; if (k > (1ll << 40)) return false; mag += m * k; if (mag > (__int128)1 << 61) return false; }
    N = nullptr;
    for (auto& t : l.t) { Expr* x = bin(OMul, atoms[t.first].a, cst((u64)(t.second.n * (D / t.second.d)), 64)); N = N ? bin(OAdd, N, x) : x; }
    N = bin(OAdd, N, cst((u64)(l.c.n * (D / l.c.d)), 64));
    return true;
  }
  Expr* floorDiv(Expr* N, i64 D) {
    if (D == 1) return N;
    if (!(D & (D - 1))) return bin(OAShr, N, cst((u64)__builtin_ctzll((u64)D), 64));
    if (N->slo >= 0 && N->shi < (1ll << 40)) { int w = 2; while ((1ll << (w - 1)) <= std::max(N->shi, D)) ++w; return zext(bin(OUDiv, extract(N, 0, w), cst((u64)D, w)), 64); }
    Expr* q = bin(OSDiv, N, cst((u64)D, 64)); if (N->slo >= 0) return q;
    Expr* neg = bin(OAnd, cmp(OSlt, N, cst(0, 64)), mkNot(cmp(OEq, bin(OMul, q, cst((u64)D, 64)), N)));
    return bin(OSub, q, zext(neg, 64));
  }
  Expr* rneg(Expr* a) { return rscale(a, Rat(-1)); }
  // op: 0 lt, 1 le, 2 eq (a op b)
  Expr* rcmp(int op, Expr* a, Expr* b) {
    Expr* d; { u64 x = inexactOps, y = exactOps; d = radd(a, b, true); inexactOps = x; exactOps = y; }
    if (isRC(d)) { int s = d->lin->c.sign(); return cst(op == 0 ? s < 0 : op == 1 ? s <= 0 : s == 0, 1); }
    { Expr* N; i64 D; if (asInt(*d->lin, N, D)) return cmp(op == 0 ? OSlt : op == 1 ? OSle : OEq, N, cst(0, 64)); }
    double lo, hi; bounds(d, lo, hi);
    if (op == 0) { if (hi < 0) return cst(1, 1); if (lo > 0) return cst(0, 1); }
    if (op == 1) { if (hi < 0) return cst(1, 1); if (lo > 0) return cst(0, 1); }
    if (op == 2) { if (hi < 0 || lo > 0) return cst(0, 1); }
    // normalise leading coefficient
    Rat k = d->lin->t[0].second; bool neg = k.sign() < 0; Rat inv = Rat(1) / (neg ? -k : k);
    { u64 x = inexactOps, y = exactOps; d = rscale(d, inv); if (neg && op == 2) d = rneg(d); inexactOps = x; exactOps = y; }
    varsOf(d);
    return mkRaw(op == 0 ? ORCmpLt : op == 1 ? ORCmpLe : ORCmpEq, 1, 0, d);
  }
  Expr* near(Expr* a, Expr* b) {
    { u64 x = inexactOps, y = exactOps; Expr* d = radd(a, b, true); inexactOps = x; exactOps = y; Expr* N; i64 D; if (asInt(*d->lin, N, D) && D < 1000000) return cmp(OEq, N, cst(0, 64)); }
    varsOf(a); varsOf(b); return mkRaw(ORNear, 1, 0, a, b); }
  Expr* rabs(Expr* a) {
    if (isRC(a)) { return a->lin->c.sign() < 0 ? rneg(a) : a; }
    double lo, hi; bounds(a, lo, hi); if (lo >= 0) return a; if (hi <= 0) return rneg(a);
    Expr* n = rneg(a);
    if (a->id > n->id) std::swap(a, n);  // |a| == |-a|
    LinForm z; Expr* zero = mkLin(std::move(z));
    Expr* r = rite(rcmp(0, a, zero), n, a);
    if (r->lin->t.size() == 1) { auto& A = atoms[r->lin->t[0].first]; if (A.kind == Atom::Ite) { double m = std::max(std::fabs(A.lo), std::fabs(A.hi)); A.lo = 0; A.hi = m; } }
    return r;
  }
  // ------------------------------------------------------------ lowering
  Z3_ast num(u64 v, int w) { if (w == 1) return v & 1 ? Z3_mk_true(ctx) : Z3_mk_false(ctx); return Z3_mk_unsigned_int64(ctx, v, Z3_mk_bv_sort(ctx, w)); }
  Z3_ast toZ3(Expr* e) {
    if (e->z) return e->z;
    // iterative post-order to avoid deep recursion
    std::vector<Expr*> st{e};
    while (!st.empty()) {
      Expr* x = st.back();
      if (x->z) { st.pop_back(); continue; }
      bool ready = true;
      for (int i = 0; i < 3; i++) if (x->k[i] && !x->k[i]->z) { st.push_back(x->k[i]); ready = false; }
      if (!ready) continue;
      st.pop_back();
      x->z = lower(x); Z3_inc_ref(ctx, x->z);
    }
    return e->z;
  }
  Z3_ast zlin(const LinForm& l) {
    std::vector<Z3_ast> s;
    for (auto& t : l.t) {
      Z3_ast a = atoms[t.first].z;
      if (t.second.isOne()) s.push_back(a);
      else { Z3_ast m[2] = {Z3_mk_numeral(ctx, t.second.str().c_str(), realS), a}; s.push_back(Z3_mk_mul(ctx, 2, m)); }
    }
    if (!l.c.isZero() || s.empty()) s.push_back(Z3_mk_numeral(ctx, l.c.str().c_str(), realS));
    return s.size() == 1 ? s[0] : Z3_mk_add(ctx, s.size(), s.data());
  }
  Z3_ast lower(Expr* e) {
    Z3_ast a = e->k[0] ? e->k[0]->z : nullptr, b = e->k[1] ? e->k[1]->z : nullptr, c = e->k[2] ? e->k[2]->z : nullptr;
    int w = e->w; Z3_ast ab[2] = {a, b};
    switch (e->op) {
      case OConst: return num(e->imm, w);
      case OVar: return vars[e->imm].z;
      case OAdd: if (w == 1) return Z3_mk_xor(ctx, a, b); return Z3_mk_bvadd(ctx, a, b);
      case OSub: if (w == 1) return Z3_mk_xor(ctx, a, b); return Z3_mk_bvsub(ctx, a, b);
      case OMul: if (w == 1) return Z3_mk_and(ctx, 2, ab); return Z3_mk_bvmul(ctx, a, b);
      case OUDiv: return Z3_mk_bvudiv(ctx, a, b); case OSDiv: return Z3_mk_bvsdiv(ctx, a, b);
      case OURem: return Z3_mk_bvurem(ctx, a, b); case OSRem: return Z3_mk_bvsrem(ctx, a, b);
      case OAnd: return w == 1 ? Z3_mk_and(ctx, 2, ab) : Z3_mk_bvand(ctx, a, b);
      case OOr: return w == 1 ? Z3_mk_or(ctx, 2, ab) : Z3_mk_bvor(ctx, a, b);
      case OXor: return w == 1 ? Z3_mk_xor(ctx, a, b) : Z3_mk_bvxor(ctx, a, b);
      case OShl: return Z3_mk_bvshl(ctx, a, b); case OLShr: return Z3_mk_bvlshr(ctx, a, b); case OAShr: return Z3_mk_bvashr(ctx, a, b);
      case OZExt: if (e->k[0]->w == 1) return Z3_mk_ite(ctx, a, num(1, w), num(0, w)); return Z3_mk_zero_ext(ctx, w - e->k[0]->w, a);
      case OSExt: if (e->k[0]->w == 1) return Z3_mk_ite(ctx, a, num(~0ull & maskw(w), w), num(0, w)); return Z3_mk_sign_ext(ctx, w - e->k[0]->w, a);
      case OExtract: {
        if (e->k[0]->w == 1) return a;
        Z3_ast x = Z3_mk_extract(ctx, e->imm + w - 1, e->imm, a); if (w == 1) x = Z3_mk_eq(ctx, x, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))); return x;
      }
      case OConcat: return Z3_mk_concat(ctx, a, b);
      case OIte: return Z3_mk_ite(ctx, a, b, c);
      case OEq: return e->k[0]->w == 1 ? Z3_mk_iff(ctx, a, b) : Z3_mk_eq(ctx, a, b);
      case OUlt: if (e->k[0]->w == 1) { Z3_ast q[2] = {Z3_mk_not(ctx, a), b}; return Z3_mk_and(ctx, 2, q); } return Z3_mk_bvult(ctx, a, b);
      case OUle: if (e->k[0]->w == 1) { Z3_ast q[2] = {Z3_mk_not(ctx, a), b}; return Z3_mk_or(ctx, 2, q); } return Z3_mk_bvule(ctx, a, b);
      case OSlt: return Z3_mk_bvslt(ctx, a, b); case OSle: return Z3_mk_bvsle(ctx, a, b);
      case ONot: return Z3_mk_not(ctx, a);
      case ORLin: return zlin(*e->lin);
      case ORCmpLt: return Z3_mk_lt(ctx, a, Z3_mk_numeral(ctx, "0", realS));
      case ORCmpLe: return Z3_mk_le(ctx, a, Z3_mk_numeral(ctx, "0", realS));
      case ORCmpEq: return Z3_mk_eq(ctx, a, Z3_mk_numeral(ctx, "0", realS));
      case ORNear: {
        Z3_ast d = Z3_mk_sub(ctx, 2, ab); Z3_ast q[2] = {Z3_mk_le(ctx, d, Z3_mk_numeral(ctx, "1/10000000", realS)), Z3_mk_ge(ctx, d, Z3_mk_numeral(ctx, "-1/10000000", realS))};
        return Z3_mk_and(ctx, 2, q);
      }
    }
    return nullptr;
  }
  // ------------------------------------------------------------ evaluation under a model
  struct EvalFail {};
  Rat evalAtom(u32 id, const Model& m, std::unordered_map<Expr*, u64>& memo) {
    Atom& a = atoms[id];
    switch (a.kind) {
      case Atom::Var: if (a.var < m.v.size() && m.v[a.var].set) return m.v[a.var].r; return Rat::fromDouble(std::min(std::max(0.0, vars[a.var].dlo), vars[a.var].dhi));
      case Atom::Mul: return evalR(a.a, m, memo) * evalR(a.b, m, memo);
      case Atom::Div: { Rat d = evalR(a.b, m, memo); if (d.isZero()) throw EvalFail(); return evalR(a.a, m, memo) / d; }
      case Atom::I2R: return Rat(sx(evalI(a.a, m, memo), a.a->w));
      case Atom::Ite: return evalI(a.a, m, memo) ? evalR(a.b, m, memo) : evalR(a.c, m, memo);
      default: throw EvalFail();
    }
  }
  Rat evalR(Expr* e, const Model& m, std::unordered_map<Expr*, u64>& memo) {
    Rat r = e->lin->c; for (auto& t : e->lin->t) r = r + t.second * evalAtom(t.first, m, memo); return r;
  }
  u64 evalI(Expr* e, const Model& m, std::unordered_map<Expr*, u64>& memo) {
    switch (e->op) {
      case OConst: return e->imm;
      case OVar: if (e->imm < m.v.size() && m.v[e->imm].set) return m.v[e->imm].i; { auto& v = vars[e->imm]; return v.uns || (v.lo <= 0 && v.hi >= 0) ? 0 : (u64)v.lo & maskw(v.w); }
      default: break;
    }
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    u64 r = 0; int w = e->w;
    switch (e->op) {
      case OZExt: r = evalI(e->k[0], m, memo); break;
      case OSExt: r = (u64)sx(evalI(e->k[0], m, memo), e->k[0]->w) & maskw(w); break;
      case OExtract: r = (evalI(e->k[0], m, memo) >> e->imm) & maskw(w); break;
      case OConcat: r = evalI(e->k[0], m, memo) << e->k[1]->w | evalI(e->k[1], m, memo); break;
      case OIte: r = evalI(e->k[0], m, memo) ? evalI(e->k[1], m, memo) : evalI(e->k[2], m, memo); break;
      case ONot: r = evalI(e->k[0], m, memo) ^ 1; break;
      case OEq: r = evalI(e->k[0], m, memo) == evalI(e->k[1], m, memo); break;
      case OUlt: r = evalI(e->k[0], m, memo) < evalI(e->k[1], m, memo); break;
      case OUle: r = evalI(e->k[0], m, memo) <= evalI(e->k[1], m, memo); break;
      case OSlt: r = sx(evalI(e->k[0], m, memo), e->k[0]->w) < sx(evalI(e->k[1], m, memo), e->k[0]->w); break;
      case OSle: r = sx(evalI(e->k[0], m, memo), e->k[0]->w) <= sx(evalI(e->k[1], m, memo), e->k[0]->w); break;
      case ORCmpLt: r = evalR(e->k[0], m, memo).sign() < 0; break;
      case ORCmpLe: r = evalR(e->k[0], m, memo).sign() <= 0; break;
      case ORCmpEq: r = evalR(e->k[0], m, memo).sign() == 0; break;
      case ORNear: { Rat d = evalR(e->k[0], m, memo) - evalR(e->k[1], m, memo); if (d.sign() < 0) d = -d; r = !(Rat::fromQ(mpq_class(1, 10000000)) < d); break; }
      default: {
        bool ok; u64 a = evalI(e->k[0], m, memo), b = evalI(e->k[1], m, memo); r = foldBin(e->op, a, b, w, ok);
        if (!ok) { // z3 semantics of division by zero
          i64 x = sx(a, w), y = sx(b, w);
          if (e->op == OUDiv) r = maskw(w); else if (e->op == OURem) r = a;
          else if (e->op == OSDiv) r = y == -1 ? a : (x < 0 ? 1 : maskw(w)); else if (e->op == OSRem) r = y == -1 ? 0 : a;
          else throw EvalFail();
        }
      }
    }
    memo[e] = r; return r;
  }
};
