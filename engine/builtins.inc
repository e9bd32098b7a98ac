// builtin (modelled) external functions
static u64 fpToInt(Engine& E, State& s, Expr* e, int w) {
  // fork on the integer part of a symbolic double
  Model em; std::unordered_map<Expr*, u64> memo; Rat r;
  try { r = X.evalR(e, s.model ? *s.model : em, memo); } catch (ExprPool::EvalFail&) { throw Unsupported("fp to int of unevaluable value"); }
  mpq_class q = r.q(); mpz_class t = q.get_num() / q.get_den();  // truncation toward zero
  i64 v = t.get_si();
  Expr *lo, *hi, *c;
  if (v > 0) c = X.bin(OAnd, X.rcmp(1, X.rcst((double)v), e), X.rcmp(0, e, X.rcst((double)v + 1)));
  else if (v < 0) c = X.bin(OAnd, X.rcmp(0, X.rcst((double)v - 1), e), X.rcmp(1, e, X.rcst((double)v)));
  else c = X.bin(OAnd, X.rcmp(0, X.rcst(-1.0), e), X.rcmp(0, e, X.rcst(1.0)));
  (void)lo; (void)hi;
  if (!E.branch(s, c)) { throw Unsupported("fp to int: branch"); }
  return (u64)v & maskw(w);
}
#define BI(name) static void name(Engine& E, State& s, Proc& p, CallInfo& ci, Val* a, Val* r)
static double bD(Val v) { double d; memcpy(&d, &v.c, 8); return d; }
static Val mkD(double d) { u64 c; memcpy(&c, &d, 8); return {c, nullptr}; }
static i64 sI(Engine& E, State& s, Val v) { return (i64)E.conc(s, v, "builtin int arg"); }
static u64 P(Engine& E, State& s, Val v) { return E.conc(s, v, "builtin pointer arg"); }
static void useVar(State& s, u32 v) { for (u32 x : s.usedVars) if (x == v) return; s.usedVars.push_back(v); }
BI(b_config) { string k = E.cstr(s, P(E, s, a[0])); auto it = E.cfg.find(k); if (it == E.cfg.end()) r[0] = a[1]; else r[0] = {(u64)it->second, nullptr}; }
BI(b_rank) { r[0] = {s.cur, nullptr}; }
BI(b_nranks) { r[0] = {E.nranks, nullptr}; }
static u32 intVar(Engine& E, State& s, const string& n, int w, i64 lo, i64 hi, bool uns) { u32 v = X.mkVar(n, w, lo, hi, uns, 0, 0, true); useVar(s, v); return v; }
static Val varVal(Engine& E, State& s, u32 v) { return E.mk(s, X.vars[v].e); }
BI(b_int) { string k = E.cstr(s, P(E, s, a[0])); i32 lo = (i32)sI(E, s, a[1]), hi = (i32)sI(E, s, a[2]); if (lo > hi) throw PathEnd(); u32 v = intVar(E, s, k, 32, lo, hi, false); r[0] = varVal(E, s, v); if (lo == hi) r[0] = {(u64)(u32)lo, nullptr}; }
BI(b_long) { string k = E.cstr(s, P(E, s, a[0])); i64 lo = sI(E, s, a[1]), hi = sI(E, s, a[2]); if (lo > hi) throw PathEnd(); u32 v = intVar(E, s, k, 64, lo, hi, false); r[0] = varVal(E, s, v); if (lo == hi) r[0] = {(u64)lo, nullptr}; }
BI(b_u64) { string k = E.cstr(s, P(E, s, a[0])); r[0] = varVal(E, s, intVar(E, s, k, 64, 0, 0, true)); }
BI(b_u8) { string k = E.cstr(s, P(E, s, a[0])) + "[" + std::to_string((i32)sI(E, s, a[1])) + "]"; r[0] = varVal(E, s, intVar(E, s, k, 8, 0, 0, true)); }
BI(b_choice) { string k = E.cstr(s, P(E, s, a[0])); i32 lo = (i32)sI(E, s, a[1]), hi = (i32)sI(E, s, a[2]); if (lo > hi) throw PathEnd(); if (lo == hi) { r[0] = {(u64)(u32)lo, nullptr}; u32 v = intVar(E, s, k, 32, lo, hi, false); (void)v; return; } u32 v = intVar(E, s, k, 32, lo, hi, false); r[0] = {E.concretize(s, X.vars[v].e, "choice"), nullptr}; }
BI(b_double) { string k = E.cstr(s, P(E, s, a[0])); u32 v = X.mkVar(k, 0, 0, 0, false, bD(a[1]), bD(a[2]), true); useVar(s, v); r[0] = {0, X.vars[v].e}; }
BI(b_double_i) { string k = E.cstr(s, P(E, s, a[0])) + "[" + std::to_string(sI(E, s, a[1])) + "]"; u32 v = X.mkVar(k, 0, 0, 0, false, bD(a[2]), bD(a[3]), true); useVar(s, v); r[0] = {0, X.vars[v].e}; }
BI(b_real) { string k = E.cstr(s, P(E, s, a[0])); u32 v = X.mkVar(k, 0, 0, 0, false, bD(a[1]), bD(a[2]), false); useVar(s, v); r[0] = {0, X.vars[v].e}; }
static Expr* asBool(Val v, int w) { if (!v.e) return X.cst((v.c & maskw(w)) != 0, 1); if (v.e->w == 1) return v.e; return X.mkNot(X.cmp(OEq, v.e, X.cst(0, v.e->w))); }
BI(b_assume) {
  if (!E.flushObl(s)) throw PathEnd();
  Expr* c = E.fold(s, asBool(a[0], 8)); if (ExprPool::isC(c)) { if (!c->imm) { E.nPruned++; throw PathEnd(); } return; }
  if (E.evalModel(s, c) == 1) { E.addC(s, c); return; }
  ModelP m; int q = E.query(s, {c}, &m); if (q == 0) { E.nPruned++; throw PathEnd(); } E.addC(s, c); if (q == 1) s.model = m;
}
BI(b_assert) { int l = E.label(E.cstr(s, P(E, s, a[1]))); E.assertExpr(s, asBool(a[0], 8), l); }
BI(b_assert_eq_i) { int l = E.label(E.cstr(s, P(E, s, a[2]))); E.assertExpr(s, X.cmp(OEq, E.toE(a[0], 64), E.toE(a[1], 64)), l); }
static string rstr(Expr* e) { if (e->op != ORLin) return "?"; string r = e->lin->c.str(); int n = 0; for (auto& t : e->lin->t) { if (n++ > 8) { r += " ..."; break; } auto& A = X.atoms[t.first]; r += " + " + t.second.str() + "*" + (A.kind == Atom::Var ? X.vars[A.var].name : "<atom" + std::to_string(t.first) + ">"); } return r; }
BI(b_assert_eq_d) {
  int l = E.label(E.cstr(s, P(E, s, a[2])));
  if (!a[0].e && !a[1].e) {
    double x = bD(a[0]), y = bD(a[1]); bool ok = (x == y) || (std::isnan(x) && std::isnan(y)) || std::fabs(x - y) <= 1e-7 * std::max(1.0, std::max(std::fabs(x), std::fabs(y)));
    E.labelHits[l]++; E.nObl++; if (ok) { E.nOblTrivial++; E.labelSyn[l]++; } else E.fail(s, "assertion", "values differ: " + std::to_string(x) + " vs " + std::to_string(y), E.labels[l]); return;
  }
  auto spec = [&](Val v) { return !v.e && !(std::fabs(bD(v)) < 1e60); };
  if (spec(a[0]) || spec(a[1])) { E.labelHits[l]++; E.nObl++; E.fail(s, "assertion", "non-finite or huge value compared with a finite one", E.labels[l]); }
  if ((a[0].e && a[0].e->w) || (a[1].e && a[1].e->w)) { E.assertExpr(s, X.cmp(OEq, E.toE(a[0], 64), E.toE(a[1], 64)), l); return; }
  if (E.verbose && E.toR(a[0]) != E.toR(a[1])) fprintf(stderr, "eq_d %s:\n   %s\n   %s\n", E.labels[l].c_str(), rstr(E.toR(a[0])).c_str(), rstr(E.toR(a[1])).c_str());
  E.assertExpr(s, X.near(E.toR(a[0]), E.toR(a[1])), l);
}
BI(b_cover) { E.covers[E.cstr(s, P(E, s, a[0]))]++; }
BI(b_note) { s.notes.push_back({E.cstr(s, P(E, s, a[0])), a[1].e ? -999999 : (i64)a[1].c}); }
BI(b_print) { string k = E.cstr(s, P(E, s, a[0])); if (a[1].e) fprintf(stderr, "[r%u] %s = <sym w%d>\n", s.cur, k.c_str(), a[1].e->w); else fprintf(stderr, "[r%u] %s = %ld\n", s.cur, k.c_str(), (long)a[1].c); }
BI(b_printd) { string k = E.cstr(s, P(E, s, a[0])); if (a[1].e) fprintf(stderr, "[r%u] %s = %s\n", s.cur, k.c_str(), rstr(a[1].e).c_str()); else fprintf(stderr, "[r%u] %s = %g\n", s.cur, k.c_str(), bD(a[1])); }
BI(b_block) { p.blockWhat = E.cstr(s, P(E, s, a[0])); p.wantBlock = true; }
BI(b_progress) { s.epoch++; }
BI(b_yield) { p.blockWhat = "yield"; p.wantBlock = true; p.wantYield = true; }
BI(b_fail) { string k = E.cstr(s, P(E, s, a[0])), m = E.cstr(s, P(E, s, a[1])); E.fail(s, k, m); }
BI(b_unsup) { throw Unsupported(E.cstr(s, P(E, s, a[0]))); }
BI(b_stop) { if (!E.flushObl(s)) {} throw PathEnd(); }
BI(b_isconc) { r[0] = {a[0].e == nullptr, nullptr}; }
BI(b_conc) { r[0] = {E.conc(s, a[0], "vf_concretize"), nullptr}; }
BI(b_objsize) { u64 x = P(E, s, a[0]); Obj* o = s.h.get(x >> 32); r[0] = {o ? (u64)o->size - (u32)x : 0, nullptr}; }
// memory
BI(b_malloc) { r[0] = {E.allocHeap(s, E.conc(s, a[0], "allocation size")), nullptr}; }
BI(b_calloc) { u64 n = E.conc(s, a[0], "allocation size") * E.conc(s, a[1], "allocation size"); u64 q = E.allocHeap(s, n); memset(s.h.getW(q >> 32)->data, 0, n); r[0] = {q, nullptr}; }
BI(b_realloc) { u64 o = P(E, s, a[0]), n = E.conc(s, a[1], "allocation size"); u64 q = E.allocHeap(s, n); if (o) { Obj* ob = s.h.get(o >> 32); if (!ob) E.fail(s, "memory", "realloc of freed memory"); E.memCopy(s, q, o, std::min<u64>(n, ob->size)); E.freeHeap(s, o); } r[0] = {q, nullptr}; }
BI(b_aligned) { r[0] = {E.allocHeap(s, E.conc(s, a[0], "allocation size")), nullptr}; }
BI(b_aligned_alloc) { r[0] = {E.allocHeap(s, E.conc(s, a[1], "allocation size")), nullptr}; }
BI(b_free) { E.freeHeap(s, P(E, s, a[0])); }
BI(b_memcpy) { u64 n = E.conc(s, a[2], "memcpy size"), d = P(E, s, a[0]), q = P(E, s, a[1]); E.memCopy(s, d, q, n); r[0] = {d, nullptr}; }
BI(b_memset) {
  u64 n = E.conc(s, a[2], "memset size"), d = P(E, s, a[0]); r[0] = {d, nullptr}; if (!n) return; u32 off; Obj* o = E.resolve(s, d, n, true, off);
  if (a[1].e) { Expr* b = X.extract(a[1].e, 0, 8); for (u64 i = 0; i < n; i++) E.storeO(s, o, off + i, 1, 8, {0, b}); return; }
  E.clearSym(o, off, n); memset(o->data + off, (int)a[1].c, n);
}
BI(b_memcmp) {
  u64 n = E.conc(s, a[2], "memcmp size"), x = P(E, s, a[0]), y = P(E, s, a[1]);
  for (u64 i = 0; i < n; i++) {
    Val u = E.loadC(s, x + i, 1, 8), v = E.loadC(s, y + i, 1, 8);
    if (u.e || v.e) { Expr* eq = X.cmp(OEq, E.toE(u, 8), E.toE(v, 8)); if (E.branch(s, eq)) continue; r[0] = {E.branch(s, X.cmp(OUlt, E.toE(u, 8), E.toE(v, 8))) ? (u64)0xffffffffu : 1, nullptr}; return; }
    if (u.c != v.c) { r[0] = {u.c < v.c ? (u64)0xffffffffu : 1, nullptr}; return; }
  }
  r[0] = {0, nullptr};
}
BI(b_memchr) { u64 x = P(E, s, a[0]); u64 c = E.conc(s, a[1], "memchr") & 0xff, n = E.conc(s, a[2], "memchr"); for (u64 i = 0; i < n; i++) { Val u = E.loadC(s, x + i, 1, 8); u64 b = E.conc(s, u, "memchr byte"); if (b == c) { r[0] = {x + i, nullptr}; return; } } r[0] = {0, nullptr}; }
BI(b_strlen) { u64 x = P(E, s, a[0]); u64 n = 0; while (E.conc(s, E.loadC(s, x + n, 1, 8), "strlen")) n++; r[0] = {n, nullptr}; }
BI(b_strcmp) { u64 x = P(E, s, a[0]), y = P(E, s, a[1]); for (u64 i = 0;; i++) { u64 u = E.conc(s, E.loadC(s, x + i, 1, 8), "strcmp"), v = E.conc(s, E.loadC(s, y + i, 1, 8), "strcmp"); if (u != v) { r[0] = {u < v ? (u64)0xffffffffu : 1, nullptr}; return; } if (!u) { r[0] = {0, nullptr}; return; } } }
BI(b_zero) { r[0] = {0, nullptr}; }
BI(b_nop) {}
BI(b_arg0) { r[0] = a[0]; }
BI(b_one) { r[0] = {1, nullptr}; }
BI(b_snprintf) { u64 d = P(E, s, a[0]); if (d && E.conc(s, a[1], "snprintf")) E.storeC(s, d, 1, 8, {0, nullptr}); r[0] = {0, nullptr}; }
BI(b_abort) { E.fail(s, "abort", "abnormal termination via " + ci.name); }
BI(b_exit) { E.fail(s, "abort", "process exits via " + ci.name + "(" + (a[0].e ? string("?") : std::to_string((i32)a[0].c)) + ")"); }
BI(b_assertfail) { E.fail(s, "assertion", "assert() in code under test failed: " + E.cstr(s, P(E, s, a[0])) + " at " + E.cstr(s, P(E, s, a[1])) + ":" + std::to_string(a[2].c)); }
BI(b_clock) { E.clockv += 1000000; r[0] = {E.clockv, nullptr}; }
BI(b_gettimeofday) { E.clockv += 1000000; u64 d = P(E, s, a[0]); E.storeC(s, d, 8, 64, {E.clockv / 1000000000, nullptr}); E.storeC(s, d + 8, 8, 64, {E.clockv / 1000 % 1000000, nullptr}); r[0] = {0, nullptr}; }
BI(b_wtime) { E.clockv += 1000000; r[0] = mkD(E.clockv * 1e-9); }
BI(b_rand) { E.rngv = E.rngv * 6364136223846793005ull + 1442695040888963407ull; r[0] = {(E.rngv >> 33) & 0x7fffffff, nullptr}; }
BI(b_dbits) { r[0] = a[0]; }
// exceptions
BI(b_exalloc) { u64 n = E.conc(s, a[0], "exception size"); r[0] = {E.allocHeap(s, n + 64), nullptr}; }
BI(b_exfree) { E.freeHeap(s, P(E, s, a[0])); }
BI(b_throw) { u64 o = P(E, s, a[0]), ti = P(E, s, a[1]); u32 g = ((ti >> 32) - E.gbase) % E.NG; string n = E.gvars[g]->getName().str(); p.inflight = {o, E.tiId(n)}; s.exHdr[o] = p.inflight.ti; p.excRaised = true; E.unwind(s, p); }
BI(b_rethrow) { if (p.caught.empty()) E.fail(s, "exception", "rethrow without exception"); p.inflight = p.caught.back(); p.excRaised = true; E.unwind(s, p); }
BI(b_begincatch) { u64 o = P(E, s, a[0]); p.caught.push_back({o, (int)s.exHdr[o]}); r[0] = {o, nullptr}; }
BI(b_endcatch) { if (!p.caught.empty()) p.caught.pop_back(); }
BI(b_guard) { u64 g = P(E, s, a[0]); r[0] = {E.loadC(s, g, 1, 8).c == 0, nullptr}; }
BI(b_guardrel) { u64 g = P(E, s, a[0]); E.storeC(s, g, 1, 8, {1, nullptr}); }
BI(b_dyncast) {
  u64 o = P(E, s, a[0]); u64 dst = P(E, s, a[2]); u64 vp = E.loadC(s, o, 8, 64).c; i64 top = (i64)E.loadC(s, vp - 16, 8, 64).c; u64 ti = E.loadC(s, vp - 8, 8, 64).c;
  auto nm = [&](u64 t) { return E.gvars[((t >> 32) - E.gbase) % E.NG]->getName().str(); };
  r[0] = {E.derives(nm(ti), nm(dst)) ? o + top : 0, nullptr};
}
#define THROWER(fn, ti) BI(fn) { E.throwStd(s, p, ti); }
THROWER(t_len, "_ZTISt12length_error") THROWER(t_oor, "_ZTISt12out_of_range") THROWER(t_logic, "_ZTISt11logic_error") THROWER(t_rt, "_ZTISt13runtime_error") THROWER(t_inv, "_ZTISt16invalid_argument") THROWER(t_alloc, "_ZTISt9bad_alloc") THROWER(t_bfc, "_ZTISt17bad_function_call") THROWER(t_cast, "_ZTISt8bad_cast") THROWER(t_arr, "_ZTISt20bad_array_new_length") THROWER(t_dom, "_ZTISt12domain_error")
// math
static Val fn1(Engine& E, State& s, Val v, double (*f)(double), const char* n) { if (!v.e) return mkD(f(bD(v))); X.inexactOps++; return {0, X.atomExpr(X.mkAtom(Atom::Fn, E.toR(v), nullptr, nullptr, n))}; }
#define MATH1(fn, cfn) BI(m_##fn) { r[0] = fn1(E, s, a[0], cfn, #fn); }
MATH1(exp, exp) MATH1(exp2, exp2) MATH1(log, log) MATH1(log2, log2) MATH1(log10, log10) MATH1(sin, sin) MATH1(cos, cos) MATH1(tan, tan) MATH1(asin, asin) MATH1(acos, acos) MATH1(atan, atan) MATH1(cbrt, cbrt) MATH1(tanh, tanh) MATH1(sinh, sinh) MATH1(cosh, cosh) MATH1(log1p, log1p) MATH1(expm1, expm1) MATH1(erf, erf) MATH1(tgamma, tgamma) MATH1(lgamma, lgamma)
BI(m_sqrt) { if (!a[0].e) { r[0] = mkD(sqrt(bD(a[0]))); return; } Expr* e = E.toR(a[0]); X.inexactOps++; LinForm z; if (E.branch(s, X.rcmp(0, e, X.mkLin(std::move(z))))) { r[0] = mkD(NAN); return; } r[0] = {0, X.atomExpr(X.mkAtom(Atom::Sqrt, e, nullptr, nullptr, "sqrt"))}; }
static int fw(CallInfo& ci) { return ci.argW.empty() ? 64 : ci.argW[0]; }
BI(m_fabs) { if (a[0].e) r[0] = E.mk(s, X.rabs(E.toR(a[0]))); else if (fw(ci) == 32) { r[0] = {a[0].c & 0x7fffffffu, nullptr}; } else r[0] = mkD(fabs(bD(a[0]))); }
BI(m_neg) { r[0] = a[0]; }
static mpz_class ratFloor(const Rat& q) { mpq_class v = q.q(); mpz_class r; mpz_fdiv_q(r.get_mpz_t(), v.get_num().get_mpz_t(), v.get_den().get_mpz_t()); return r; }
static Rat ratInt(const Rat& q, int mode) {  // 0 floor, 1 ceil, 2 trunc, 3 round half away from zero
  if (mode == 0) return Rat::fromQ(mpq_class(ratFloor(q))); if (mode == 1) return -Rat::fromQ(mpq_class(ratFloor(-q)));
  if (mode == 2) return q.sign() < 0 ? -Rat::fromQ(mpq_class(ratFloor(-q))) : Rat::fromQ(mpq_class(ratFloor(q)));
  Rat h = Rat::fromQ(mpq_class(1, 2)); return q.sign() < 0 ? -Rat::fromQ(mpq_class(ratFloor(-q + h))) : Rat::fromQ(mpq_class(ratFloor(q + h)));
}
static Expr* intOf(Expr* N, i64 D, int mode) {  // bit-vector of floor/ceil/trunc/round of N/D
  auto fl = [&](Expr* n, i64 d) { return X.floorDiv(n, d); }; auto neg = [&](Expr* n) { return X.bin(OSub, X.cst(0, 64), n); };
  if (D == 1) return N;
  if (mode == 0) return fl(N, D); if (mode == 1) return fl(X.bin(OAdd, N, X.cst((u64)(D - 1), 64)), D);
  if (mode == 2) return N->slo >= 0 ? fl(N, D) : X.ite(X.cmp(OSlt, N, X.cst(0, 64)), neg(fl(neg(N), D)), fl(N, D));
  auto rd = [&](Expr* n) { return fl(X.bin(OAdd, X.bin(OMul, n, X.cst(2, 64)), X.cst((u64)D, 64)), 2 * D); };
  return N->slo >= 0 ? rd(N) : X.ite(X.cmp(OSlt, N, X.cst(0, 64)), neg(rd(neg(N))), rd(N));
}
static Val fpInt(Engine& E, State& s, Val v, double (*f)(double), int mode) {
  if (!v.e) return mkD(f(bD(v)));
  Expr* e = E.toR(v); { Expr* N; i64 D; if (mode <= 3 && X.asInt(*e->lin, N, D)) { Expr* q = intOf(N, D, mode); return E.mk(s, X.i2r(q)); } }
  // symbolic floor/ceil/trunc/round: fork on the integer part
  Model em; std::unordered_map<Expr*, u64> memo; Rat q;
  try { q = X.evalR(e, s.model ? *s.model : em, memo); } catch (ExprPool::EvalFail&) { throw Unsupported("floor of unevaluable value"); }
  if (mode > 3) throw Unsupported("symbolic rint");
  double t = ratInt(q, mode).toDouble(); Expr* c;
  auto in = [&](double l, bool lc, double h, bool hc) { return X.bin(OAnd, X.rcmp(lc ? 1 : 0, X.rcst(l), e), X.rcmp(hc ? 1 : 0, e, X.rcst(h))); };
  if (mode == 0) c = in(t, true, t + 1, false); else if (mode == 1) c = in(t - 1, false, t, true);
  else if (mode == 2) c = t > 0 ? in(t, true, t + 1, false) : t < 0 ? in(t - 1, false, t, true) : in(-1, false, 1, false);
  else c = t > 0 ? in(t - .5, true, t + .5, false) : t < 0 ? in(t - .5, false, t + .5, true) : in(-.5, false, .5, false);
  if (!E.branch(s, c)) throw Unsupported("floor branch");
  return mkD(t);
}
BI(m_floor) { r[0] = fpInt(E, s, a[0], floor, 0); }
BI(m_ceil) { r[0] = fpInt(E, s, a[0], ceil, 1); }
BI(m_trunc) { r[0] = fpInt(E, s, a[0], trunc, 2); }
BI(m_round) { r[0] = fpInt(E, s, a[0], round, 3); }
BI(m_rint) { r[0] = fpInt(E, s, a[0], rint, 4); }
BI(m_lround) { if (a[0].e) throw Unsupported("lround"); r[0] = {(u64)lround(bD(a[0])), nullptr}; }
BI(m_pow) {
  if (!a[0].e && !a[1].e) { r[0] = mkD(pow(bD(a[0]), bD(a[1]))); return; }
  if (!a[1].e) { double y = bD(a[1]); if (y == 0) { r[0] = mkD(1.0); return; } if (y == (int)y && y > 0 && y <= 8) { Expr *e = E.toR(a[0]), *q = e; for (int i = 1; i < (int)y; i++) q = X.rmul(q, e); r[0] = E.mk(s, q); return; } if (y == 0.5) { m_sqrt(E, s, p, ci, a, r); return; } if (y == -1) { r[0] = E.mk(s, X.rdiv(X.rcst(1.0), E.toR(a[0]))); return; } }
  X.inexactOps++; r[0] = {0, X.atomExpr(X.mkAtom(Atom::Fn, E.toR(a[0]), E.toR(a[1]), nullptr, "pow"))};
}
BI(m_powi) { int n = (i32)sI(E, s, a[1]); if (!a[0].e) { r[0] = mkD(__builtin_powi(bD(a[0]), n)); return; } if (n < 0 || n > 8) throw Unsupported("powi"); Expr* q = X.rcst(1.0); for (int i = 0; i < n; i++) q = X.rmul(q, E.toR(a[0])); r[0] = E.mk(s, q); }
BI(m_fmod) { if (a[0].e || a[1].e) throw Unsupported("fmod"); r[0] = mkD(fmod(bD(a[0]), bD(a[1]))); }
BI(m_atan2) { if (a[0].e || a[1].e) throw Unsupported("atan2"); r[0] = mkD(atan2(bD(a[0]), bD(a[1]))); }
BI(m_hypot) { if (a[0].e || a[1].e) throw Unsupported("hypot"); r[0] = mkD(hypot(bD(a[0]), bD(a[1]))); }
BI(m_ldexp) { int n = (i32)sI(E, s, a[1]); if (a[0].e) r[0] = E.mk(s, X.rmul(E.toR(a[0]), X.rcst(ldexp(1.0, n)))); else r[0] = mkD(ldexp(bD(a[0]), n)); }
static Val mm(Engine& E, State& s, Val x, Val y, bool mx) {
  if (!x.e && !y.e) return mkD(mx ? fmax(bD(x), bD(y)) : fmin(bD(x), bD(y)));
  auto spec = [&](Val v) { return !v.e && !(std::fabs(bD(v)) < 1e60); };
  if (spec(x) || spec(y)) { Val q = spec(x) ? x : y, o = spec(x) ? y : x; double d = bD(q); if (std::isnan(d)) return o; return ((d > 0) == mx) ? q : o; }
  Expr *u = E.toR(x), *v = E.toR(y); Expr* c = X.rcmp(0, u, v); return E.mk(s, X.ite(c, mx ? v : u, mx ? u : v));
}
BI(m_fmax) { r[0] = mm(E, s, a[0], a[1], true); }
BI(m_fmin) { r[0] = mm(E, s, a[0], a[1], false); }
BI(m_fma) { if (!a[0].e && !a[1].e && !a[2].e) { r[0] = mkD(ci.name == "llvm.fma" || ci.name == "fma" ? fma(bD(a[0]), bD(a[1]), bD(a[2])) : bD(a[0]) * bD(a[1]) + bD(a[2])); return; } r[0] = E.mk(s, X.radd(X.rmul(E.toR(a[0]), E.toR(a[1])), E.toR(a[2]), false)); }
BI(m_copysign) { if (a[0].e || a[1].e) { if (a[1].e) throw Unsupported("copysign"); Expr* q = X.rabs(E.toR(a[0])); r[0] = E.mk(s, std::signbit(bD(a[1])) ? X.rneg(q) : q); return; } r[0] = mkD(copysign(bD(a[0]), bD(a[1]))); }
BI(m_isfpclass) { if (a[0].e) { u64 t = a[1].c; /* symbolic doubles are finite */ if ((t & 0x3) == t || (t & 0x204) == t || (t & 0x207) == t) { r[0] = {0, nullptr}; return; } if ((t & 0x1f8) == 0x1f8) { r[0] = {1, nullptr}; return; } throw Unsupported("is.fpclass on symbolic"); } double d = bD(a[0]); u64 t = a[1].c; bool q = false; if ((t & 3) && std::isnan(d)) q = true; if ((t & 4) && std::isinf(d) && d < 0) q = true; if ((t & 0x200) && std::isinf(d) && d > 0) q = true; if ((t & 8) && std::isnormal(d) && d < 0) q = true; if ((t & 0x100) && std::isnormal(d) && d > 0) q = true; if ((t & 0x60) && d == 0) q = true; if ((t & 0x90) && std::fpclassify(d) == FP_SUBNORMAL) q = true; r[0] = {q, nullptr}; }
// float variants
#define MATHF(fn) BI(mf_##fn) { if (a[0].e) throw Unsupported("symbolic float math"); float x; u32 b = (u32)a[0].c; memcpy(&x, &b, 4); x = fn##f(x); memcpy(&b, &x, 4); r[0] = {b, nullptr}; }
MATHF(sqrt) MATHF(exp) MATHF(ceil) MATHF(floor)
// integer intrinsics
static int rw(CallInfo& ci) { return ci.argW[0]; }
BI(i_ctpop) { u64 v = E.conc(s, a[0], "ctpop"); r[0] = {(u64)__builtin_popcountll(v & maskw(rw(ci))), nullptr}; }
BI(i_ctlz) { int w = rw(ci); u64 v = E.conc(s, a[0], "ctlz") & maskw(w); r[0] = {v ? (u64)(__builtin_clzll(v) - (64 - w)) : (u64)w, nullptr}; }
BI(i_cttz) { int w = rw(ci); u64 v = E.conc(s, a[0], "cttz") & maskw(w); r[0] = {v ? (u64)__builtin_ctzll(v) : (u64)w, nullptr}; }
BI(i_bswap) { int w = rw(ci); Expr* e = E.toE(a[0], w); Expr* q = nullptr; for (int i = 0; i < w / 8; i++) { Expr* b = X.extract(e, i * 8, 8); q = q ? X.concat(q, b) : b; } r[0] = E.mk(s, q); }
static void mmx(Engine& E, State& s, CallInfo& ci, Val* a, Val* r, Op lt, bool mx) { int w = rw(ci); Expr *x = E.toE(a[0], w), *y = E.toE(a[1], w); Expr* c = X.cmp(lt, x, y); r[0] = E.mk(s, X.ite(c, mx ? y : x, mx ? x : y)); }
BI(i_smax) { mmx(E, s, ci, a, r, OSlt, true); } BI(i_smin) { mmx(E, s, ci, a, r, OSlt, false); } BI(i_umax) { mmx(E, s, ci, a, r, OUlt, true); } BI(i_umin) { mmx(E, s, ci, a, r, OUlt, false); }
BI(i_abs) { int w = rw(ci); Expr* x = E.toE(a[0], w); r[0] = E.mk(s, X.ite(X.cmp(OSlt, x, X.cst(0, w)), X.bin(OSub, X.cst(0, w), x), x)); }
static void ovf(Engine& E, State& s, CallInfo& ci, Val* a, Val* r, Op op, bool sg) {
  int w = rw(ci); if (!a[0].e && !a[1].e) {
    __int128 x = sg ? (__int128)sx(a[0].c, w) : (__int128)(a[0].c & maskw(w)), y = sg ? (__int128)sx(a[1].c, w) : (__int128)(a[1].c & maskw(w)), q = op == OAdd ? x + y : op == OSub ? x - y : x * y;
    u64 res = (u64)q & maskw(w); __int128 back = sg ? (__int128)sx(res, w) : (__int128)res; r[0] = {res, nullptr}; r[1] = {back != q, nullptr}; return; }
  Expr *x = E.toE(a[0], w), *y = E.toE(a[1], w); r[0] = E.mk(s, X.bin(op, x, y)); int W = op == OMul ? std::min(2 * w, 64) : std::min(w + 1, 64);
  if (W <= w || (op == OMul && W < 2 * w)) {
    // 64-bit: use z3-independent formulation
    if (op == OMul) { if (!sg) { Expr* z = X.cmp(OEq, y, X.cst(0, w)); Expr* q = X.bin(OUDiv, X.bin(OMul, x, y), X.ite(z, X.cst(1, w), y)); r[1] = E.mk(s, X.bin(OAnd, X.mkNot(z), X.mkNot(X.cmp(OEq, q, x)))); return; } throw Unsupported("smul.overflow 64 symbolic"); }
    Expr* q = X.bin(op, x, y);
    if (!sg) r[1] = E.mk(s, op == OAdd ? X.cmp(OUlt, q, x) : X.cmp(OUlt, x, y));
    else { Expr *z = X.cst(0, w), *sxn = X.cmp(OSlt, x, z), *syn = X.cmp(OSlt, y, z), *sq = X.cmp(OSlt, q, z); Expr* samein = X.cmp(OEq, sxn, syn); r[1] = E.mk(s, X.bin(OAnd, op == OAdd ? samein : X.mkNot(samein), X.mkNot(X.cmp(OEq, sxn, sq)))); }
    return;
  }
  Expr *bx = sg ? X.sext(x, W) : X.zext(x, W), *by = sg ? X.sext(y, W) : X.zext(y, W), *q = X.bin(op, bx, by), *t = X.extract(q, 0, w); r[1] = E.mk(s, X.mkNot(X.cmp(OEq, sg ? X.sext(t, W) : X.zext(t, W), q)));
}
BI(i_uadd) { ovf(E, s, ci, a, r, OAdd, false); } BI(i_usub) { ovf(E, s, ci, a, r, OSub, false); } BI(i_umul) { ovf(E, s, ci, a, r, OMul, false); } BI(i_sadd) { ovf(E, s, ci, a, r, OAdd, true); } BI(i_ssub) { ovf(E, s, ci, a, r, OSub, true); } BI(i_smul) { ovf(E, s, ci, a, r, OMul, true); }
BI(i_usubsat) { int w = rw(ci); Expr *x = E.toE(a[0], w), *y = E.toE(a[1], w); r[0] = E.mk(s, X.ite(X.cmp(OUlt, x, y), X.cst(0, w), X.bin(OSub, x, y))); }
BI(i_uaddsat) { int w = rw(ci); Expr *x = E.toE(a[0], w), *y = E.toE(a[1], w), *q = X.bin(OAdd, x, y); r[0] = E.mk(s, X.ite(X.cmp(OUlt, q, x), X.cst(~0ull, w), q)); }
static void fsh(Engine& E, State& s, CallInfo& ci, Val* a, Val* r, bool left) { int w = rw(ci); u64 k = E.conc(s, a[2], "fsh") % w; Expr *x = E.toE(a[0], w), *y = E.toE(a[1], w); if (k == 0) { r[0] = left ? a[0] : a[1]; return; } u64 l = left ? k : w - k; r[0] = E.mk(s, X.bin(OOr, X.bin(OShl, x, X.cst(l, w)), X.bin(OLShr, y, X.cst(w - l, w)))); }
BI(i_fshl) { fsh(E, s, ci, a, r, true); } BI(i_fshr) { fsh(E, s, ci, a, r, false); }
BI(i_trap) { E.fail(s, "memory", "trap (undefined behaviour reached)"); }
BI(b_what) { r[0] = {((u64)E.dummyVt << 32) + 8, nullptr}; }
BI(b_exctor) { u64 o = P(E, s, a[0]); E.storeC(s, o, 8, 64, {((u64)E.dummyVt << 32) + 1024, nullptr}); r[0] = a[0]; }

void Engine::ioStub(State& s, Proc& p, CallInfo& ci, Val* a, Val* ret) {
  const string& n = ci.name; Function* F = ci.F;
  if (n.find("C1E") != string::npos || n.find("C2E") != string::npos) {
    if (n.compare(0, 8, "_ZNSt8io") == 0) return;
    u64 o = P(*this, s, a[0]); Obj* ob = s.h.get(o >> 32); if (ob && (u32)o + 8 <= ob->size) storeC(s, o, 8, 64, {((u64)dummyVt << 32) + 1024, nullptr}); return; }
  if (n.size() > 6 && n.compare(n.size() - 6, 6, "3strEv") == 0 && F->hasStructRetAttr()) { u64 o = P(*this, s, a[0]); storeC(s, o, 8, 64, {o + 16, nullptr}); storeC(s, o + 8, 8, 64, {0, nullptr}); storeC(s, o + 16, 1, 8, {0, nullptr}); return; }
  Type* t = F->getReturnType(); if (t->isVoidTy()) return; if (t->isPointerTy()) { ret[0] = a[0]; return; }
  if (n.find("cvbEv") != string::npos || n.find("4goodEv") != string::npos || n.find("7is_openEv") != string::npos) { ret[0] = {(u64)ioGood, nullptr}; return; }
  ret[0] = {0, nullptr};
}
static void registerBuiltins(Engine& E) {
  auto R = [&](const char* n, BFn f) { E.bidx[n] = E.bfns.size(); E.bfns.push_back(f); E.bnames.push_back(n); };
  R("vf_config", b_config); R("vf_rank", b_rank); R("vf_nranks", b_nranks); R("vf_int", b_int); R("vf_long", b_long); R("vf_u64", b_u64); R("vf_u8", b_u8); R("vf_choice", b_choice); R("vf_double", b_double); R("vf_double_i", b_double_i); R("vf_real", b_real);
  R("vf_bits_double", b_u64); R("vf_assume", b_assume); R("vf_assert", b_assert); R("vf_assert_eq_i", b_assert_eq_i); R("vf_assert_eq_d", b_assert_eq_d); R("vf_cover", b_cover); R("vf_note", b_note); R("vf_print", b_print); R("vf_printd", b_printd); R("vf_block", b_block); R("vf_progress", b_progress); R("vf_yield", b_yield); R("vf_fail", b_fail); R("vf_unsupported", b_unsup); R("vf_stop", b_stop); R("vf_is_concrete", b_isconc); R("vf_is_concrete_d", b_isconc); R("vf_concretize", b_conc); R("vf_objsize", b_objsize);
  for (auto n : {"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "__cxa_allocate_dependent"}) R(n, b_malloc);
  R("calloc", b_calloc); R("realloc", b_realloc); R("_ZnwmSt11align_val_t", b_aligned); R("_ZnamSt11align_val_t", b_aligned); R("aligned_alloc", b_aligned_alloc);
  for (auto n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) R(n, b_free);
  for (auto n : {"llvm.memcpy", "llvm.memmove", "memcpy", "memmove", "llvm.memcpy.inline"}) R(n, b_memcpy);
  R("llvm.memset", b_memset); R("memset", b_memset); R("memcmp", b_memcmp); R("bcmp", b_memcmp); R("memchr", b_memchr); R("strlen", b_strlen); R("strcmp", b_strcmp);
  for (auto n : {"printf", "fprintf", "puts", "putchar", "fflush", "fwrite", "fputs", "fputc", "putc", "vprintf", "perror", "__cxa_atexit", "__cxa_thread_atexit", "atexit", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_once", "getenv", "fclose", "fopen", "remove", "system", "getpid", "usleep", "nanosleep", "sleep", "clock_gettime", "sched_yield", "pthread_self", "sysconf", "setenv", "mlockall", "gethostname", "unlink", "access", "open", "getpagesize"}) R(n, b_zero);
  for (auto n : {"snprintf", "vsnprintf"}) R(n, b_snprintf);
  for (auto n : {"abort", "_ZSt9terminatev", "__cxa_pure_virtual", "__clang_call_terminate", "__cxa_bad_cast", "__cxa_throw_bad_array_new_length", "__cxa_bad_typeid"}) R(n, b_abort);
  R("exit", b_exit); R("_exit", b_exit); R("quick_exit", b_exit); R("__assert_fail", b_assertfail);
  R("_ZNSt6chrono3_V212system_clock3nowEv", b_clock); R("_ZNSt6chrono3_V212steady_clock3nowEv", b_clock); R("gettimeofday", b_gettimeofday); R("time", b_clock); R("clock", b_clock); R("MPI_Wtime", b_wtime); R("rand", b_rand); R("srand", b_nop); R("random", b_rand);
  R("__cxa_allocate_exception", b_exalloc); R("__cxa_free_exception", b_exfree); R("__cxa_throw", b_throw); R("__cxa_rethrow", b_rethrow); R("__cxa_begin_catch", b_begincatch); R("__cxa_end_catch", b_endcatch); R("__cxa_get_exception_ptr", b_arg0); R("llvm.threadlocal.address", b_arg0); R("__cxa_guard_acquire", b_guard); R("__cxa_guard_release", b_guardrel); R("__cxa_guard_abort", b_nop); R("__dynamic_cast", b_dyncast);
  R("_ZSt20__throw_length_errorPKc", t_len); R("_ZSt20__throw_out_of_rangePKc", t_oor); R("_ZSt24__throw_out_of_range_fmtPKcz", t_oor); R("_ZSt19__throw_logic_errorPKc", t_logic); R("_ZSt21__throw_runtime_errorPKc", t_rt); R("_ZSt24__throw_invalid_argumentPKc", t_inv); R("_ZSt17__throw_bad_allocv", t_alloc); R("_ZSt25__throw_bad_function_callv", t_bfc); R("_ZSt16__throw_bad_castv", t_cast); R("_ZSt28__throw_bad_array_new_lengthv", t_arr); R("_ZSt20__throw_domain_errorPKc", t_dom); R("_ZSt20__throw_system_errori", t_rt);
  for (auto c : {"13runtime_error", "11logic_error", "16invalid_argument", "12out_of_range", "12length_error", "12domain_error", "11range_error", "14overflow_error", "9exception"}) {
    static std::deque<string> keep;
    for (auto k : {"C1", "C2"}) for (auto arg : {"EPKc", "ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "ERKS_", "EOS_", "Ev"}) { keep.push_back(string("_ZNSt") + c + k + arg); R(keep.back().c_str(), b_exctor); }
    for (auto k : {"D0Ev", "D1Ev", "D2Ev"}) { keep.push_back(string("_ZNSt") + c + k); R(keep.back().c_str(), b_nop); }
    keep.push_back(string("_ZNKSt") + c + "4whatEv"); R(keep.back().c_str(), b_what);
  }
#define RM(n) R(#n, m_##n); R("llvm." #n, m_##n);
  RM(exp) RM(exp2) RM(log) RM(log2) RM(log10) RM(sin) RM(cos) RM(sqrt) RM(fabs) RM(floor) RM(ceil) RM(trunc) RM(round) RM(rint) RM(pow) RM(ldexp) RM(copysign) RM(fma)
  R("tan", m_tan); R("asin", m_asin); R("acos", m_acos); R("atan", m_atan); R("cbrt", m_cbrt); R("tanh", m_tanh); R("sinh", m_sinh); R("cosh", m_cosh); R("log1p", m_log1p); R("expm1", m_expm1); R("erf", m_erf); R("tgamma", m_tgamma); R("lgamma", m_lgamma); R("fmod", m_fmod); R("atan2", m_atan2); R("hypot", m_hypot); R("llvm.powi", m_powi); R("fmax", m_fmax); R("fmin", m_fmin); R("llvm.maxnum", m_fmax); R("llvm.minnum", m_fmin); R("llvm.maximum", m_fmax); R("llvm.minimum", m_fmin); R("llvm.fmuladd", m_fma); R("nearbyint", m_rint); R("llvm.nearbyint", m_rint); R("llvm.roundeven", m_rint); R("lround", m_lround); R("llround", m_lround); R("llvm.is.fpclass", m_isfpclass);
  R("sqrtf", mf_sqrt); R("expf", mf_exp); R("ceilf", mf_ceil); R("floorf", mf_floor);
  R("llvm.ctpop", i_ctpop); R("llvm.ctlz", i_ctlz); R("llvm.cttz", i_cttz); R("llvm.bswap", i_bswap); R("llvm.smax", i_smax); R("llvm.smin", i_smin); R("llvm.umax", i_umax); R("llvm.umin", i_umin); R("llvm.abs", i_abs); R("llvm.uadd.with.overflow", i_uadd); R("llvm.usub.with.overflow", i_usub); R("llvm.umul.with.overflow", i_umul); R("llvm.sadd.with.overflow", i_sadd); R("llvm.ssub.with.overflow", i_ssub); R("llvm.smul.with.overflow", i_smul); R("llvm.usub.sat", i_usubsat); R("llvm.uadd.sat", i_uaddsat); R("llvm.fshl", i_fshl); R("llvm.fshr", i_fshr); R("llvm.trap", i_trap); R("llvm.ubsantrap", i_trap);
}
