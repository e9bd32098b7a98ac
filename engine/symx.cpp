// symx: bounded multi-process symbolic executor for LLVM-18 IR, deciding assertions with z3.
#include "expr.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <unistd.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/StripDeadPrototypes.h>
#include <chrono>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <set>
#include <sstream>
using namespace llvm;
using std::string; using std::vector;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Val { u64 c; Expr* e; };
static ExprPool X;

// ------------------------------------------------------------------ bytecode
enum IOp : u8 {
  I_NOP, I_MOV, I_ADD, I_SUB, I_MUL, I_UDIV, I_SDIV, I_UREM, I_SREM, I_AND, I_OR, I_XOR, I_SHL, I_LSHR, I_ASHR,
  I_FADD, I_FSUB, I_FMUL, I_FDIV, I_FREM, I_FNEG, I_ICMP, I_FCMP, I_TRUNC, I_ZEXT, I_SEXT, I_FPTOSI, I_FPTOUI, I_SITOFP, I_UITOFP,
  I_FPEXT, I_FPTRUNC, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_SELECT, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_LPAD, I_RESUME,
  I_UNREACH, I_UNSUP, I_EXTELT, I_INSELT, I_CMPXCHG, I_ATOMICRMW
};
struct Edge { u32 pc; vector<std::pair<i32, i32>> cp; };
struct CallInfo;
struct Ins {
  IOp op; u8 w, w2, fl; i32 d, a, b, c; u64 imm; void* p; u32 loc;
};
struct SwitchInfo { vector<u64> vals; vector<Edge> edges; Edge def; };
struct GepInfo { i64 off; vector<std::pair<i32, std::pair<i64, int>>> idx; };  // slot, scale, width
struct LpadInfo { bool cleanup; vector<int> types; };  // global index or -1 for catch-all ; -2 filter
struct Func;
struct CallInfo {
  Function* F = nullptr; int builtin = -1; string name; i32 fp = 0; vector<i32> args; vector<u32> argSlots; vector<u32> byval;  // byval size per llvm arg
  i32 d = -1; u32 nret = 0; bool invoke = false; Edge normal, unwind; bool noret = false; vector<u8> argW;
};
struct Func {
  Function* F; vector<Ins> code; u32 nregs; u32 nargs; u32 nargSlots; string name;
};
struct Frame { Func* f; u32 pc; u32 base; vector<u32> allocas; CallInfo* ret; u32 lpadExc; };

// ------------------------------------------------------------------ memory
struct SymB { Expr* e; u32 i; };
enum OKind : u8 { KHeap, KStack, KGlobal };
struct Obj {
  u32 rc = 1; u32 size; OKind kind; bool ro = false; u32 nsym = 0; u8* data; SymB* sym = nullptr; u32 site = 0;
  Obj(u32 s, OKind k) : size(s), kind(k) { data = (u8*)malloc(s ? s : 1); }
  ~Obj() { free(data); free(sym); }
};
static Obj* cloneObj(Obj* o) {
  Obj* n = new Obj(o->size, o->kind); n->ro = o->ro; n->nsym = o->nsym; n->site = o->site; memcpy(n->data, o->data, o->size);
  if (o->sym) { n->sym = (SymB*)malloc(sizeof(SymB) * (o->size ? o->size : 1)); memcpy(n->sym, o->sym, sizeof(SymB) * o->size); }
  return n;
}
static const u32 CH = 256;
struct Chunk { u32 rc = 1; Obj* o[CH]; Chunk() { memset(o, 0, sizeof o); } };
struct Heap {
  vector<Chunk*> ch; u32 next = 1;
  std::deque<u32> freeStack;
  Heap() {}
  Heap(const Heap& h) : ch(h.ch), next(h.next), freeStack(h.freeStack) { for (auto* c : ch) c->rc++; }
  Heap& operator=(const Heap&) = delete;
  ~Heap() { for (auto* c : ch) drop(c); }
  static void drop(Chunk* c) { if (--c->rc == 0) { for (u32 i = 0; i < CH; i++) if (c->o[i] && --c->o[i]->rc == 0) delete c->o[i]; delete c; } }
  Obj* get(u32 id) const { u32 k = id / CH; if (k >= ch.size()) return nullptr; return ch[k]->o[id % CH]; }
  Chunk* wch(u32 k) {
    Chunk* c = ch[k];
    if (c->rc > 1) { Chunk* n = new Chunk(); for (u32 i = 0; i < CH; i++) { n->o[i] = c->o[i]; if (n->o[i]) n->o[i]->rc++; } c->rc--; ch[k] = c = n; }
    return c;
  }
  Obj* getW(u32 id) {
    Chunk* c = wch(id / CH); Obj* o = c->o[id % CH];
    if (o->rc > 1) { o->rc--; o = c->o[id % CH] = cloneObj(o); }
    return o;
  }
  void put(u32 id, Obj* o) { u32 k = id / CH; while (k >= ch.size()) ch.push_back(new Chunk()); Chunk* c = wch(k); c->o[id % CH] = o; }
  void kill(u32 id) { Chunk* c = wch(id / CH); Obj* o = c->o[id % CH]; c->o[id % CH] = nullptr; if (o && --o->rc == 0) delete o; }
  u32 alloc(u32 size, OKind k, u8 fill) {
    u32 id;
    if (k == KStack && freeStack.size() > 4096) { id = freeStack.front(); freeStack.pop_front(); }
    else id = next++;
    Obj* o = new Obj(size, k); memset(o->data, fill, size); put(id, o); return id;
  }
};
struct Proc {
  vector<Frame> st; vector<Val> regs; bool done = false; bool blocked = false; u64 blockEpoch = 0;
  struct Exc { u64 obj; int ti; };
  vector<Exc> caught; Exc inflight{0, -1};
  int pendingSel = 0; bool excRaised = false, wantBlock = false, wantYield = false;
  string blockWhat;
};
struct Obl { Expr* bad; int label; };
struct State {
  Heap h; vector<Proc> procs; u32 cur = 0; u64 epoch = 1;
  vector<Expr*> pc; ModelP model; std::unordered_map<u32, u64> fixed;
  vector<Obl> obls; vector<u32> usedVars; u64 steps = 0; u32 depth = 0;
  vector<std::pair<string, i64>> notes;
  std::map<u64, u64> exHdr;  // exception object -> typeinfo idx
};

struct PathEnd { };
struct Violation { string kind, label, msg; vector<string> stack; std::map<string, string> asg; vector<std::pair<string, i64>> notes; };

// ------------------------------------------------------------------ engine
struct Engine;
typedef void (*BFn)(Engine&, State&, Proc&, CallInfo&, Val*, Val*);
struct Builtin { const char* name; BFn fn; };

struct Engine {
  LLVMContext ctx; std::unique_ptr<Module> M; const DataLayout* DL;
  std::map<string, i64> cfg; u32 nranks = 1; double tlimit = 300; u64 maxSteps = 2000000000ull; unsigned qtimeout = 20000; u64 maxPaths = 10000000;
  string entry = "vf_main"; bool traceCalls = false; bool verbose = false; int lpolicy = 0;
  std::unordered_map<Function*, std::unique_ptr<Func>> funcs;
  vector<GlobalVariable*> gvars; std::unordered_map<const GlobalVariable*, int> gidx;
  vector<Function*> fnList; std::unordered_map<const Function*, int> fnIdx;
  vector<bool> gshared;
  u32 NG = 0; u32 gbase = 16;
  static const u32 FNBASE = 0x70000000;
  // constants
  std::unordered_map<Constant*, i32> cpoolIdx; vector<vector<Val>> cpool;  // [rank][idx]
  std::map<std::pair<Type*, u64>, int> dummy;
  vector<string> labels; std::map<string, int> labelIdx; vector<u64> labelHits, labelSyn, labelSolved;
  std::map<string, u64> covers;
  vector<Violation> viols; vector<string> incon; vector<std::map<string, string>> samples; u64 nComplete = 0;
  std::deque<std::unique_ptr<State>> work;
  std::set<string> touchedFns; std::set<Function*> translated;
  vector<const DILocation*> locs;
  // stats
  u64 nPaths = 0, nForks = 0, nSteps = 0, nQueries = 0, nSat = 0, nUnsat = 0, nUnk = 0, nOblQueries = 0, nObl = 0, nOblTrivial = 0, nPruned = 0; double solverTime = 0, t0 = now();
  u32 dummyVt = 0;  // object id of zero vtable
  string emptyStrNote;
  std::unordered_map<string, int> bidx; vector<BFn> bfns; vector<string> bnames;
  std::unique_ptr<Func> bootF; size_t maxViol = 1; string prepOnly; bool prepped = false; u64 clockv = 1000000; int ioGood = 0; u64 rngv = 12345;

  // ---------------------------------------------------------------- prep
  static bool isIo(StringRef n) {
    static const char* pre[] = {"_ZNSo", "_ZNSi", "_ZNSd", "_ZStls", "_ZStrs", "_ZNKSo", "_ZNKSi", "_ZNSt13basic_fstream", "_ZNSt14basic_ifstream", "_ZNSt14basic_ofstream",
      "_ZNSt13basic_filebuf", "_ZNSt15basic_streambuf", "_ZNKSt14basic_ifstream", "_ZNKSt14basic_ofstream", "_ZNKSt13basic_fstream", "_ZNSt9basic_ios", "_ZNKSt9basic_ios", "_ZNSt8ios_base", "_ZNKSt8ios_base",
      "_ZSt4endl", "_ZSt5flush", "_ZSt16__ostream_", "_ZSt7getline", "_ZNSt6locale", "_ZNKSt6locale", "_ZNSt13basic_ostream", "_ZNSt13basic_istream", "_ZSt16__ostream_insert", "_ZSt9use_facet", "_ZSt13__check_facet", "_ZSt9has_facet", "_ZNSt14basic_iostream", "_ZSt2ws"};
    if (n.starts_with("_ZNSt15basic_streambuf") || n.starts_with("_ZNKSt15basic_streambuf")) for (auto p : {"4setgE", "4gptrEv", "5egptrEv", "5ebackEv", "4setpE", "4pptrEv", "5epptrEv", "5pbaseEv"}) if (n.contains(p)) return false;
    for (auto p : pre) if (n.starts_with(p)) return true;
    if (n.starts_with("_ZNSt7__cxx11") || n.starts_with("_ZNKSt7__cxx11")) {
      StringRef r = n.drop_front(n.starts_with("_ZNK") ? 14 : 13);
      for (auto p : {"15basic_stringbuf", "18basic_stringstream", "19basic_ostringstream", "19basic_istringstream"}) if (r.starts_with(p)) return true;
    }
    return false;
  }
  void load(const vector<string>& files) {
    SMDiagnostic err; M = parseIRFile(files[0], err, ctx);
    if (!M) { err.print("symx", errs()); exit(3); }
    DL = &M->getDataLayout();
  }
  void prep(bool optimize) {
    { vector<Function*> ov; for (auto& F : *M) if (F.getName().starts_with("vfm_") && !F.isDeclaration()) ov.push_back(&F);  // models of library functions
      for (auto* F : ov) if (auto* G = M->getFunction(F->getName().drop_front(4))) G->replaceAllUsesWith(F); }
    for (auto& F : *M) {
      if (F.isDeclaration()) continue;
      StringRef n = F.getName();
      if (isIo(n) || bidx.count(n.str())) { F.deleteBody(); F.setComdat(nullptr); }
      else { F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::StackProtectStrong); F.removeFnAttr(Attribute::StackProtect); }
    }
    if (auto* u = M->getGlobalVariable("llvm.used")) u->eraseFromParent();
    if (auto* u = M->getGlobalVariable("llvm.compiler.used")) u->eraseFromParent();
    internalizeModule(*M, [&](const GlobalValue& G) { return G.getName() == entry || G.getName().starts_with("vf_keep"); });
    PipelineTuningOptions pto; pto.LoopVectorization = false; pto.SLPVectorization = false; pto.LoopUnrolling = false; pto.LoopInterleaving = false; pto.CallGraphProfile = false; pto.MergeFunctions = false;
    PassBuilder PB(nullptr, pto);
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    { ModulePassManager P; P.addPass(GlobalDCEPass()); P.run(*M, MAM); }
    if (optimize) {
      auto MPM = PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1);
      MPM.run(*M, MAM);
      ModulePassManager P; P.addPass(GlobalDCEPass()); P.run(*M, MAM);
    }
  }
  void index() {
    for (auto& G : M->globals()) { gidx[&G] = gvars.size(); gvars.push_back(&G); gshared.push_back(G.getName().contains("vfshared_")); }
    NG = gvars.size();
    for (auto& F : *M) { fnIdx[&F] = fnList.size(); fnList.push_back(&F); }
    cpool.resize(nranks);
  }
  u32 gobj(u32 rank, int g) { return gshared[g] ? gbase + g : gbase + rank * NG + g; }
  u64 fnAddr(const Function* F) { return (u64)(FNBASE + fnIdx[F]) << 32; }
  u32 gsize(GlobalVariable* G) {
    if (G->isDeclaration()) return 1024;
    return (u32)DL->getTypeAllocSize(G->getValueType());
  }
  // -------------------------------------------------------------- constants
  struct Leaf { Type* t; u64 off; };
  std::unordered_map<Type*, vector<Leaf>> leafCache;
  const vector<Leaf>& leaves(Type* t) {
    auto it = leafCache.find(t); if (it != leafCache.end()) return it->second;
    vector<Leaf> r; collect(t, 0, r); return leafCache[t] = r;
  }
  void collect(Type* t, u64 off, vector<Leaf>& r) {
    if (auto* s = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) collect(s->getElementType(i), off + L->getElementOffset(i), r); }
    else if (auto* a = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); i++) collect(a->getElementType(), off + i * es, r); }
    else if (auto* v = dyn_cast<FixedVectorType>(t)) { u64 es = (DL->getTypeSizeInBits(v->getElementType()) + 7) / 8; for (unsigned i = 0; i < v->getNumElements(); i++) collect(v->getElementType(), off + i * es, r); }
    else if (t->isVoidTy()) {}
    else r.push_back({t, off});
  }
  u32 nslots(Type* t) { return t->isVoidTy() ? 0 : leaves(t).size(); }
  static int widthOf(Type* t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64; if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; if (t->isX86_FP80Ty()) return 64;
    return 64;
  }
  u64 cAddr(Constant* C, u32 rank) {
    if (auto* G = dyn_cast<GlobalVariable>(C)) return (u64)gobj(rank, gidx[G]) << 32;
    if (auto* F = dyn_cast<Function>(C)) return fnAddr(F);
    if (auto* A = dyn_cast<GlobalAlias>(C)) return cAddr(A->getAliasee(), rank);
    if (isa<ConstantPointerNull>(C)) return 0;
    if (isa<UndefValue>(C)) return 0;
    if (auto* CE = dyn_cast<ConstantExpr>(C)) {
      switch (CE->getOpcode()) {
        case Instruction::GetElementPtr: {
          APInt off(64, 0); auto* gep = cast<GEPOperator>(CE); if (!gep->accumulateConstantOffset(*DL, off)) throw Unsupported("const gep");
          return cAddr(CE->getOperand(0), rank) + off.getSExtValue();
        }
        case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::IntToPtr: case Instruction::PtrToInt: return cInt(CE->getOperand(0), rank);
        default: return cInt(C, rank);
      }
    }
    return cInt(C, rank);
  }
  u64 cInt(Constant* C, u32 rank) {
    if (auto* I = dyn_cast<ConstantInt>(C)) { if (I->getBitWidth() > 64) return I->getValue().getLoBits(64).getZExtValue(); return I->getZExtValue(); }
    if (auto* F = dyn_cast<ConstantFP>(C)) {
      if (F->getType()->isX86_FP80Ty()) { bool l; APFloat v = F->getValueAPF(); v.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l); return v.bitcastToAPInt().getZExtValue(); }
      return F->getValueAPF().bitcastToAPInt().getLimitedValue();
    }
    if (isa<UndefValue>(C) || isa<ConstantPointerNull>(C) || isa<ConstantAggregateZero>(C)) return 0;
    if (auto* CE = dyn_cast<ConstantExpr>(C)) {
      int w = widthOf(CE->getType()); u64 m = maskw(w);
      switch (CE->getOpcode()) {
        case Instruction::GetElementPtr: return cAddr(C, rank);
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: return cInt(CE->getOperand(0), rank) & m;
        case Instruction::Add: return (cInt(CE->getOperand(0), rank) + cInt(CE->getOperand(1), rank)) & m;
        case Instruction::Sub: return (cInt(CE->getOperand(0), rank) - cInt(CE->getOperand(1), rank)) & m;
        case Instruction::Mul: return (cInt(CE->getOperand(0), rank) * cInt(CE->getOperand(1), rank)) & m;
        case Instruction::And: return cInt(CE->getOperand(0), rank) & cInt(CE->getOperand(1), rank);
        case Instruction::Or: return cInt(CE->getOperand(0), rank) | cInt(CE->getOperand(1), rank);
        case Instruction::Xor: return cInt(CE->getOperand(0), rank) ^ cInt(CE->getOperand(1), rank);
        case Instruction::Shl: return (cInt(CE->getOperand(0), rank) << cInt(CE->getOperand(1), rank)) & m;
        case Instruction::LShr: return cInt(CE->getOperand(0), rank) >> cInt(CE->getOperand(1), rank);
        case Instruction::ICmp: {
          u64 a = cInt(CE->getOperand(0), rank), b = cInt(CE->getOperand(1), rank);
          switch (CE->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_UGT: return a > b; default: break; }
          break;
        }
        default: break;
      }
      string s; raw_string_ostream o(s); C->print(o); throw Unsupported("constant expr " + o.str());
    }
    if (isa<GlobalValue>(C)) return cAddr(C, rank);
    string s; raw_string_ostream o(s); C->print(o); throw Unsupported("constant " + o.str());
  }
  void cLeaves(Constant* C, u32 rank, vector<u64>& out) {
    Type* t = C->getType();
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
      unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
      for (unsigned i = 0; i < n; i++) { Constant* e = C->getAggregateElement(i); if (!e) throw Unsupported("aggregate constant"); cLeaves(e, rank, out); }
    } else out.push_back(cInt(C, rank));
  }
  i32 constSlot(Constant* C) {
    auto it = cpoolIdx.find(C); if (it != cpoolIdx.end()) return it->second;
    i32 idx = -1;
    for (u32 r = 0; r < nranks; r++) {
      vector<u64> v; cLeaves(C, r, v); i32 base = cpool[r].size(); for (u64 x : v) cpool[r].push_back({x, nullptr}); idx = -(base + 1);
    }
    return cpoolIdx[C] = idx;
  }
  i32 rawConst(u64 v) { i32 idx = 0; for (u32 r = 0; r < nranks; r++) { idx = -(i32)(cpool[r].size() + 1); cpool[r].push_back({v, nullptr}); } return idx; }
  void initMem(State& s, u32 id, Constant* C, u64 off, u32 rank) {
    Type* t = C->getType();
    if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
    Obj* o = s.h.get(id);
    if (auto* D = dyn_cast<ConstantDataSequential>(C)) { StringRef r = D->getRawDataValues(); memcpy(o->data + off, r.data(), r.size()); return; }
    if (auto* st = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initMem(s, id, C->getAggregateElement(i), off + L->getElementOffset(i), rank); return; }
    if (auto* at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) initMem(s, id, C->getAggregateElement(i), off + i * es, rank); return; }
    if (isa<FixedVectorType>(t)) { auto* v = cast<FixedVectorType>(t); u64 es = DL->getTypeSizeInBits(v->getElementType()) / 8; for (u64 i = 0; i < v->getNumElements(); i++) initMem(s, id, C->getAggregateElement(i), off + i * es, rank); return; }
    u64 v;
    try { v = cInt(C, rank); } catch (Unsupported&) { v = 0; }
    u64 n = DL->getTypeStoreSize(t); memcpy(o->data + off, &v, std::min<u64>(n, 8));
  }
  void initGlobals(State& s) {
    s.h.next = gbase + NG * nranks + 16;
    // dummy vtable
    dummyVt = s.h.alloc(4096, KGlobal, 0);
    int stubIdx = fnList.size();  // pseudo function index for stub
    {
      Obj* o = s.h.get(dummyVt);
      for (int i = 128; i < 256; i++) { u64 v = (u64)(FNBASE + stubIdx) << 32; memcpy(o->data + i * 8, &v, 8); }
    }
    for (u32 r = 0; r < nranks; r++)
      for (u32 g = 0; g < NG; g++) {
        if (gshared[g] && r > 0) continue;
        GlobalVariable* G = gvars[g]; u32 id = gobj(r, g);
        Obj* o = new Obj(gsize(G), KGlobal); memset(o->data, 0, o->size); s.h.put(id, o);
        if (!G->isDeclaration()) { initMem(s, id, G->getInitializer(), 0, r); o->ro = G->isConstant(); }
        else {
          StringRef n = G->getName();
          if (n.starts_with("_ZTV")) { for (int i = 2; i < 100; i++) { u64 v = (u64)(FNBASE + stubIdx) << 32; memcpy(o->data + i * 8, &v, 8); } }
          else if (n == "__libc_single_threaded") o->data[0] = 1;
          else if (n == "_ZSt4cout" || n == "_ZSt4cerr" || n == "_ZSt4clog" || n == "_ZSt3cin") { u64 v = ((u64)dummyVt << 32) + 1024; memcpy(o->data, &v, 8); }
        }
      }
  }
  // -------------------------------------------------------------- translation
  u32 locOf(Instruction* I) {
    const DILocation* L = I->getDebugLoc().get(); if (!L) return 0;
    locs.push_back(L);
    return locs.size();
  }
  static string scopeFile(const DILocation* L) { return L->getFilename().str(); }
  void noteTouched(const DILocation* L) {
    while (L) {
      auto* sp = L->getScope()->getSubprogram();
      if (sp) { string f = sp->getFilename().str(); if (f.find("/repo/") != string::npos) { string nm = sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str()); size_t pos = f.find("/repo/"); touchedFns.insert(f.substr(pos + 6) + ": " + nm); } }
      L = L->getInlinedAt();
    }
  }
  Func* translate(Function* F) {
    auto it = funcs.find(F); if (it != funcs.end()) return it->second.get();
    auto up = std::make_unique<Func>(); Func* f = up.get(); f->F = F; f->name = F->getName().str();
    std::unordered_map<const Value*, i32> slot; u32 n = 0;
    f->nargs = F->arg_size();
    for (auto& A : F->args()) { slot[&A] = n; n += std::max(1u, nslots(A.getType())); }
    f->nargSlots = n;
    for (auto& B : *F) for (auto& I : B) if (!I.getType()->isVoidTy()) { slot[&I] = n; n += std::max(1u, nslots(I.getType())); }
    i32 scratch = n; n += 4;
    f->nregs = n;
    auto S = [&](Value* v) -> i32 { if (auto* C = dyn_cast<Constant>(v)) return constSlot(C); auto q = slot.find(v); if (q == slot.end()) throw Unsupported("operand"); return q->second; };
    auto at = [](i32 s, int k) { return s >= 0 ? s + k : s - k; };
    std::unordered_map<BasicBlock*, u32> bbpc; vector<std::pair<Edge*, std::pair<BasicBlock*, BasicBlock*>>> fix;
    auto mkEdge = [&](Edge* e, BasicBlock* from, BasicBlock* to) { fix.push_back({e, {from, to}}); };
    vector<std::unique_ptr<int>> keep;
    for (auto& B : *F) {
      bbpc[&B] = f->code.size();
      for (auto& I : B) {
        if (isa<PHINode>(I)) continue;
        u32 loc = locOf(&I);
        if (loc) noteTouched(locs[loc - 1]);
        auto emit = [&](IOp op, int w, i32 d, i32 a, i32 b, i32 c = 0, u64 imm = 0, void* p = nullptr, int w2 = 0, int fl = 0) {
          Ins x; x.op = op; x.w = w; x.w2 = w2; x.fl = fl; x.d = d; x.a = a; x.b = b; x.c = c; x.imm = imm; x.p = p; x.loc = loc; f->code.push_back(x);
        };
        auto unsup = [&](const string& m) { string s; raw_string_ostream o(s); I.print(o); emit(I_UNSUP, 0, 0, 0, 0, 0, 0, new string(m + ": " + o.str())); };
        try {
          i32 d = I.getType()->isVoidTy() ? -1 : slot[&I];
          auto hasWide = [&](Type* t) { for (auto& l : leaves(t)) if (l.t->isIntegerTy() && l.t->getIntegerBitWidth() > 64) return true; return false; };
          bool wide = !I.getType()->isVoidTy() && hasWide(I.getType());
          for (auto& op : I.operands()) if (!op->getType()->isLabelTy() && !op->getType()->isMetadataTy() && !op->getType()->isFunctionTy() && op->getType()->isSized() && hasWide(op->getType())) wide = true;
          if (wide) { unsup("i128"); if (!I.isTerminator()) continue; else throw Unsupported("terminator"); }
          switch (I.getOpcode()) {
            case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
            case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
            case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
              static const std::map<unsigned, IOp> m = {{Instruction::Add, I_ADD}, {Instruction::Sub, I_SUB}, {Instruction::Mul, I_MUL}, {Instruction::UDiv, I_UDIV}, {Instruction::SDiv, I_SDIV}, {Instruction::URem, I_UREM}, {Instruction::SRem, I_SREM}, {Instruction::And, I_AND}, {Instruction::Or, I_OR}, {Instruction::Xor, I_XOR}, {Instruction::Shl, I_SHL}, {Instruction::LShr, I_LSHR}, {Instruction::AShr, I_ASHR}, {Instruction::FAdd, I_FADD}, {Instruction::FSub, I_FSUB}, {Instruction::FMul, I_FMUL}, {Instruction::FDiv, I_FDIV}, {Instruction::FRem, I_FREM}};
              auto& L = leaves(I.getType()); i32 a = S(I.getOperand(0)), b = S(I.getOperand(1));
              for (u32 k = 0; k < L.size(); k++) emit(m.at(I.getOpcode()), widthOf(L[k].t), d + k, at(a, k), at(b, k));
              break;
            }
            case Instruction::FNeg: { auto& L = leaves(I.getType()); i32 a = S(I.getOperand(0)); for (u32 k = 0; k < L.size(); k++) emit(I_FNEG, widthOf(L[k].t), d + k, at(a, k), 0); break; }
            case Instruction::ICmp: case Instruction::FCmp: {
              auto& C = cast<CmpInst>(I); auto& L = leaves(I.getOperand(0)->getType()); i32 a = S(I.getOperand(0)), b = S(I.getOperand(1));
              for (u32 k = 0; k < L.size(); k++) emit(isa<ICmpInst>(I) ? I_ICMP : I_FCMP, widthOf(L[k].t), d + k, at(a, k), at(b, k), 0, C.getPredicate());
              break;
            }
            case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: {
              static const std::map<unsigned, IOp> m = {{Instruction::Trunc, I_TRUNC}, {Instruction::ZExt, I_ZEXT}, {Instruction::SExt, I_SEXT}, {Instruction::FPToSI, I_FPTOSI}, {Instruction::FPToUI, I_FPTOUI}, {Instruction::SIToFP, I_SITOFP}, {Instruction::UIToFP, I_UITOFP}, {Instruction::FPExt, I_FPEXT}, {Instruction::FPTrunc, I_FPTRUNC}};
              auto &L = leaves(I.getType()), &L0 = leaves(I.getOperand(0)->getType()); i32 a = S(I.getOperand(0));
              for (u32 k = 0; k < L.size(); k++) emit(m.at(I.getOpcode()), widthOf(L[k].t), d + k, at(a, k), 0, 0, 0, nullptr, widthOf(L0[k].t));
              break;
            }
            case Instruction::PtrToInt: case Instruction::IntToPtr: { int w = widthOf(I.getType()), w0 = widthOf(I.getOperand(0)->getType()); emit(w < w0 ? I_TRUNC : I_MOV, w, d, S(I.getOperand(0)), 0, 0, 0, nullptr, w0); break; }
            case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: {
              auto &L = leaves(I.getType()), &L0 = leaves(I.getOperand(0)->getType()); i32 a = S(I.getOperand(0));
              if (L.size() == L0.size()) { for (u32 k = 0; k < L.size(); k++) emit(I_MOV, 64, d + k, at(a, k), 0); }
              else unsup("vector bitcast");
              break;
            }
            case Instruction::Load: {
              auto& L = leaves(I.getType()); i32 a = S(I.getOperand(0));
              for (u32 k = 0; k < L.size(); k++) emit(I_LOAD, widthOf(L[k].t), d + k, a, 0, 0, L[k].off, nullptr, (widthOf(L[k].t) + 7) / 8, L[k].t->isPointerTy());
              break;
            }
            case Instruction::Store: {
              auto& L = leaves(I.getOperand(0)->getType()); i32 v = S(I.getOperand(0)), a = S(I.getOperand(1));
              for (u32 k = 0; k < L.size(); k++) emit(I_STORE, widthOf(L[k].t), -1, a, at(v, k), 0, L[k].off, nullptr, (widthOf(L[k].t) + 7) / 8);
              break;
            }
            case Instruction::GetElementPtr: {
              auto* G = cast<GEPOperator>(&I); if (I.getType()->isVectorTy()) { unsup("vector gep"); break; }
              auto* gi = new GepInfo(); gi->off = 0;
              for (gep_type_iterator ti = gep_type_begin(G), te = gep_type_end(G); ti != te; ++ti) {
                Value* op = ti.getOperand();
                if (auto* st = ti.getStructTypeOrNull()) { gi->off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(op)->getZExtValue()); continue; }
                i64 es = DL->getTypeAllocSize(ti.getIndexedType());
                if (auto* c = dyn_cast<ConstantInt>(op)) gi->off += c->getSExtValue() * es;
                else gi->idx.push_back({S(op), {es, widthOf(op->getType())}});
              }
              emit(I_GEP, 64, d, S(G->getPointerOperand()), 0, 0, 0, gi);
              break;
            }
            case Instruction::Alloca: {
              auto& A = cast<AllocaInst>(I); u64 es = DL->getTypeAllocSize(A.getAllocatedType());
              emit(I_ALLOCA, 64, d, S(A.getArraySize()), 0, 0, es); break;
            }
            case Instruction::Select: {
              auto& L = leaves(I.getType()); i32 c = S(I.getOperand(0)), a = S(I.getOperand(1)), b = S(I.getOperand(2)); bool vc = I.getOperand(0)->getType()->isVectorTy();
              for (u32 k = 0; k < L.size(); k++) emit(I_SELECT, widthOf(L[k].t), d + k, vc ? at(c, k) : c, at(a, k), at(b, k), 0, nullptr, L[k].t->isFloatingPointTy() ? 1 : 0, L[k].t->isPointerTy());
              break;
            }
            case Instruction::Br: {
              auto& R = cast<BranchInst>(I);
              if (R.isUnconditional()) { auto* e = new Edge(); mkEdge(e, &B, R.getSuccessor(0)); emit(I_BR, 0, -1, 0, 0, 0, 0, e); }
              else { auto* e = new Edge[2]; mkEdge(&e[0], &B, R.getSuccessor(0)); mkEdge(&e[1], &B, R.getSuccessor(1)); emit(I_CBR, 1, -1, S(R.getCondition()), 0, 0, 0, e); }
              break;
            }
            case Instruction::Switch: {
              auto& R = cast<SwitchInst>(I); auto* si = new SwitchInfo(); si->edges.resize(R.getNumCases()); int k = 0;
              for (auto& c : R.cases()) { si->vals.push_back(c.getCaseValue()->getZExtValue()); mkEdge(&si->edges[k++], &B, c.getCaseSuccessor()); }
              mkEdge(&si->def, &B, R.getDefaultDest()); emit(I_SWITCH, widthOf(R.getCondition()->getType()), -1, S(R.getCondition()), 0, 0, 0, si); break;
            }
            case Instruction::Ret: { u32 k = I.getNumOperands() ? nslots(I.getOperand(0)->getType()) : 0; emit(I_RET, 0, -1, k ? S(I.getOperand(0)) : 0, 0, 0, k); break; }
            case Instruction::Unreachable: emit(I_UNREACH, 0, -1, 0, 0); break;
            case Instruction::ExtractValue: {
              auto& E = cast<ExtractValueInst>(I); i32 a = S(E.getAggregateOperand()); u32 off = 0; Type* t = E.getAggregateOperand()->getType();
              for (unsigned ix : E.indices()) { for (unsigned k = 0; k < ix; k++) off += nslots(t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType()); t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); }
              for (u32 k = 0; k < nslots(I.getType()); k++) emit(I_MOV, 64, d + k, at(a, off + k), 0); break;
            }
            case Instruction::InsertValue: {
              auto& E = cast<InsertValueInst>(I); i32 a = S(E.getAggregateOperand()), v = S(E.getInsertedValueOperand()); u32 off = 0; Type* t = I.getType();
              for (unsigned ix : E.indices()) { for (unsigned k = 0; k < ix; k++) off += nslots(t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType()); t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); }
              u32 nv = nslots(t);
              for (u32 k = 0; k < nslots(I.getType()); k++) emit(I_MOV, 64, d + k, (k >= off && k < off + nv) ? at(v, k - off) : at(a, k), 0);
              break;
            }
            case Instruction::ExtractElement: {
              if (auto* c = dyn_cast<ConstantInt>(I.getOperand(1))) emit(I_MOV, 64, d, at(S(I.getOperand(0)), c->getZExtValue()), 0); else unsup("dynamic extractelement"); break;
            }
            case Instruction::InsertElement: {
              if (auto* c = dyn_cast<ConstantInt>(I.getOperand(2))) { i32 a = S(I.getOperand(0)), v = S(I.getOperand(1)); for (u32 k = 0; k < nslots(I.getType()); k++) emit(I_MOV, 64, d + k, k == c->getZExtValue() ? v : at(a, k), 0); } else unsup("dynamic insertelement"); break;
            }
            case Instruction::ShuffleVector: {
              auto& SV = cast<ShuffleVectorInst>(I); i32 a = S(I.getOperand(0)), b = S(I.getOperand(1)); int n0 = nslots(I.getOperand(0)->getType()); auto mask = SV.getShuffleMask();
              for (u32 k = 0; k < mask.size(); k++) { int q = mask[k]; if (q < 0) q = 0; emit(I_MOV, 64, d + k, q < n0 ? at(a, q) : at(b, q - n0), 0); } break;
            }
            case Instruction::Fence: break;
            case Instruction::AtomicRMW: { auto& A = cast<AtomicRMWInst>(I); emit(I_ATOMICRMW, widthOf(I.getType()), d, S(A.getPointerOperand()), S(A.getValOperand()), 0, A.getOperation(), nullptr, (widthOf(I.getType()) + 7) / 8); break; }
            case Instruction::AtomicCmpXchg: { auto& A = cast<AtomicCmpXchgInst>(I); int w = widthOf(A.getCompareOperand()->getType()); emit(I_CMPXCHG, w, d, S(A.getPointerOperand()), S(A.getCompareOperand()), S(A.getNewValOperand()), 0, nullptr, (w + 7) / 8); break; }
            case Instruction::LandingPad: {
              auto& L = cast<LandingPadInst>(I); auto* li = new LpadInfo(); li->cleanup = L.isCleanup();
              for (unsigned k = 0; k < L.getNumClauses(); k++) { if (L.isFilter(k)) { li->types.push_back(-2); continue; } Constant* c = L.getClause(k)->stripPointerCasts(); li->types.push_back(isa<ConstantPointerNull>(c) ? -1 : gidx[cast<GlobalVariable>(c)]); }
              emit(I_LPAD, 0, d, 0, 0, 0, 0, li); break;
            }
            case Instruction::Resume: emit(I_RESUME, 0, -1, S(I.getOperand(0)), 0); break;
            case Instruction::Call: case Instruction::Invoke: {
              auto& C = cast<CallBase>(I);
              if (C.isInlineAsm()) { // treat as barrier
                if (I.getType()->isVoidTy()) break; unsup("inline asm"); break; }
              Function* T = dyn_cast<Function>(C.getCalledOperand()->stripPointerCasts());
              if (!T) if (auto* GA = dyn_cast<GlobalAlias>(C.getCalledOperand()->stripPointerCasts())) T = dyn_cast<Function>(GA->getAliasee()->stripPointerCasts());
              if (T && T->isIntrinsic()) {
                switch (T->getIntrinsicID()) {
                  case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing:
                  case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::invariant_end: case Intrinsic::var_annotation: case Intrinsic::vaend: case Intrinsic::vastart: continue;
                  case Intrinsic::invariant_start: case Intrinsic::stacksave: emit(I_MOV, 64, d, rawConst(0), 0); continue;
                  case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: emit(I_MOV, 64, d, S(C.getArgOperand(0)), 0); continue;
                  case Intrinsic::is_constant: emit(I_MOV, 1, d, rawConst(0), 0); continue;
                  case Intrinsic::objectsize: emit(I_MOV, 64, d, rawConst(~0ull), 0); continue;
                  case Intrinsic::eh_typeid_for: emit(I_MOV, 32, d, rawConst(gidx[cast<GlobalVariable>(C.getArgOperand(0)->stripPointerCasts())] + 1), 0); continue;
                  default: break;
                }
              }
              auto* ci = new CallInfo(); ci->F = T; ci->d = d; ci->nret = nslots(I.getType()); ci->noret = C.doesNotReturn();
              u32 ai = 0;
              for (auto& A : C.args()) {
                if (A->getType()->isMetadataTy()) { ai++; continue; }
                i32 s = S(A); u32 k = nslots(A->getType()); ci->argSlots.push_back(ci->args.size());
                for (u32 j = 0; j < std::max(1u, k); j++) { ci->args.push_back(at(s, j)); ci->argW.push_back(k ? widthOf(leaves(A->getType())[j].t) : 64); }
                ci->byval.push_back(C.isByValArgument(ai) ? (u32)DL->getTypeAllocSize(C.getParamByValType(ai)) : 0); ai++;
              }
              if (!T) ci->fp = S(C.getCalledOperand());
              else {
                ci->name = T->getName().str();
                if (T->isDeclaration() || T->isIntrinsic()) {
                  string nm = ci->name;
                  if (T->isIntrinsic()) { // normalise: strip type suffixes
                    nm = Intrinsic::getBaseName(T->getIntrinsicID()).str();
                    ci->argW.push_back(ci->nret ? widthOf(leaves(I.getType())[0].t) : 0);
                    if (ci->nret > 1 && I.getType()->isVectorTy()) { unsup("vector intrinsic"); break; }
                  }
                  ci->name = nm;
                  auto b = bidx.find(nm); if (b != bidx.end()) ci->builtin = b->second;
                }
              }
              if (auto* iv = dyn_cast<InvokeInst>(&I)) { ci->invoke = true; mkEdge(&ci->normal, &B, iv->getNormalDest()); mkEdge(&ci->unwind, &B, iv->getUnwindDest()); }
              emit(I_CALL, 0, d, 0, 0, 0, 0, ci);
              break;
            }
            default: unsup("instruction");
          }
        } catch (Unsupported& u) { unsup(u.what()); }
      }
    }
    for (auto& q : fix) {
      Edge* e = q.first; BasicBlock *from = q.second.first, *to = q.second.second; e->pc = bbpc[to];
      for (auto& P : to->phis()) { Value* v = P.getIncomingValueForBlock(from); i32 s; if (isa<UndefValue>(v) && !v->getType()->isAggregateType() && !v->getType()->isVectorTy()) continue; s = S(v); for (u32 k = 0; k < nslots(P.getType()); k++) e->cp.push_back({slot[&P] + (i32)k, at(s, k)}); }
    }
    funcs[F] = std::move(up); (void)scratch;
    return f;
  }
  // -------------------------------------------------------------- solver
  Z3_solver solver = nullptr;
  struct QKey { vector<u32> ids; bool operator<(const QKey& o) const { return ids < o.ids; } };
  std::map<vector<u32>, std::pair<int, ModelP>> qcache;
  // returns 1 sat, 0 unsat, -1 unknown
  int query(State& s, const vector<Expr*>& extra, ModelP* out, bool slice = true) {
    // slice
    vector<Expr*> cs = extra;
    std::set<u32> vs; for (auto* e : extra) { auto* v = X.varsOf(e); vs.insert(v->begin(), v->end()); }
    if (slice) {
      vector<char> used(s.pc.size(), 0); bool ch = true;
      while (ch) {
        ch = false;
        for (size_t i = 0; i < s.pc.size(); i++) if (!used[i]) {
          auto* v = X.varsOf(s.pc[i]); bool hit = false; for (u32 x : *v) if (vs.count(x)) { hit = true; break; }
          if (hit) { used[i] = 1; ch = true; vs.insert(v->begin(), v->end()); cs.push_back(s.pc[i]); }
        }
      }
    } else { for (auto* e : s.pc) { cs.push_back(e); auto* v = X.varsOf(e); vs.insert(v->begin(), v->end()); } }
    vector<u32> key; for (auto* e : cs) key.push_back(e->id); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = qcache.find(key);
    int r; ModelP m;
    if (it != qcache.end()) { r = it->second.first; m = it->second.second; }
    else {
      double t = now();
      if (!solver) { solver = Z3_mk_solver(X.ctx); Z3_solver_inc_ref(X.ctx, solver); Z3_params p = Z3_mk_params(X.ctx); Z3_params_inc_ref(X.ctx, p); Z3_params_set_uint(X.ctx, p, Z3_mk_string_symbol(X.ctx, "timeout"), qtimeout); Z3_solver_set_params(X.ctx, solver, p); }
      Z3_solver_reset(X.ctx, solver);
      for (auto* e : cs) Z3_solver_assert(X.ctx, solver, X.toZ3(e));
      for (u32 v : vs) if (X.vars[v].bound) Z3_solver_assert(X.ctx, solver, X.vars[v].bound);
      for (auto z : X.sideConstraints) Z3_solver_assert(X.ctx, solver, z);
      Z3_lbool lb = Z3_solver_check(X.ctx, solver);
      nQueries++; r = lb == Z3_L_TRUE ? 1 : lb == Z3_L_FALSE ? 0 : -1; (r == 1 ? nSat : r == 0 ? nUnsat : nUnk)++;
      if (r == 1) {
        Z3_model zm = Z3_solver_get_model(X.ctx, solver); Z3_model_inc_ref(X.ctx, zm); m = std::make_shared<Model>(); m->v.resize(X.vars.size());
        for (u32 v : vs) {
          Z3_ast o; if (!Z3_model_eval(X.ctx, zm, X.vars[v].z, true, &o)) continue;
          MV& mv = m->v[v]; mv.set = true;
          if (X.vars[v].w == 0) { const char* q = Z3_get_numeral_string(X.ctx, o); try { mpq_class mq; if (mq.set_str(q, 10) == 0) mv.r = Rat::fromQ(mq); else { mv.r = Rat::fromDouble(atof(Z3_get_numeral_decimal_string(X.ctx, o, 15))); } } catch (...) { mv.set = false; } }
          else if (X.vars[v].w == 1) mv.i = Z3_get_bool_value(X.ctx, o) == Z3_L_TRUE; else { uint64_t q = 0; Z3_get_numeral_uint64(X.ctx, o, &q); mv.i = q; }
        }
        Z3_model_dec_ref(X.ctx, zm);
      }
      double dt = now() - t; solverTime += dt;
      if (verbose && dt > 1) fprintf(stderr, "[slow query %.2fs res=%d cs=%zu vars=%zu]\n", dt, r, cs.size(), vs.size());
      if (qcache.size() > 200000) qcache.clear();
      qcache[key] = {r, m};
    }
    if (r == 1 && out) {
      auto nm = std::make_shared<Model>(); if (s.model) *nm = *s.model; if (nm->v.size() < X.vars.size()) nm->v.resize(X.vars.size());
      for (u32 v : vs) if (v < m->v.size() && m->v[v].set) nm->v[v] = m->v[v];
      *out = nm;
    }
    return r;
  }
  // evaluate a boolean under the state's model: 1,0 or -1 unknown
  int evalModel(State& s, Expr* e, u64* val = nullptr) {
    Model empty; std::unordered_map<Expr*, u64> memo;
    try { u64 r = X.evalI(e, s.model ? *s.model : empty, memo); if (val) *val = r; return (int)(r & 1); } catch (ExprPool::EvalFail&) { return -1; }
  }
  void addC(State& s, Expr* e) {
    if (ExprPool::isC(e)) return;
    if (e->op == OAnd && e->w == 1) { addC(s, e->k[0]); addC(s, e->k[1]); return; }
    s.pc.push_back(e);
    if (e->op == OEq && e->k[1]->op == OConst && e->k[0]->op == OVar) s.fixed[e->k[0]->imm] = e->k[1]->imm;
    if (e->op == OVar) s.fixed[e->imm] = 1;
    if (e->op == ONot && e->k[0]->op == OVar) s.fixed[e->k[0]->imm] = 0;
  }
  // fold an expression whose variables are all fixed in this state
  Expr* fold(State& s, Expr* e) {
    if (e->w == 0 || ExprPool::isC(e) || s.fixed.empty()) return e;
    auto* v = X.varsOf(e); if (v->empty() || v->size() > 64) return e;
    for (u32 x : *v) if (!s.fixed.count(x)) return e;
    u64 r; Model m; m.v.resize(X.vars.size()); for (u32 x : *v) { m.v[x].set = true; m.v[x].i = s.fixed[x]; }
    std::unordered_map<Expr*, u64> memo; try { r = X.evalI(e, m, memo); } catch (ExprPool::EvalFail&) { return e; }
    return X.cst(r, e->w);
  }
  Val mk(State& s, Expr* e) { e = fold(s, e); if (ExprPool::isC(e)) return {e->imm, nullptr}; if (e->op == ORLin && e->lin->t.empty()) { double x = e->lin->c.toDouble(); u64 b; memcpy(&b, &x, 8); return {b, nullptr}; } return {0, e}; }
  // Decide a symbolic condition: returns its value on this path; may push the sibling state.
  bool branch(State& s, Expr* c) {
    c = fold(s, c); if (ExprPool::isC(c)) return c->imm;
    int mv = evalModel(s, c);
    ModelP mT, mF; int rT, rF; Expr* nc = X.mkNot(c);
    if (mv == 1) { rT = 1; mT = s.model; rF = query(s, {nc}, &mF); }
    else if (mv == 0) { rF = 1; mF = s.model; rT = query(s, {c}, &mT); }
    else { rT = query(s, {c}, &mT); rF = query(s, {nc}, &mF); }
    if (rT < 0 || rF < 0) { nUnkBranches++; }
    bool t = rT != 0, f = rF != 0;
    if (!t && !f) { nPruned++; throw PathEnd(); }
    if (t && f) {
      auto n = std::make_unique<State>(s); n->depth++; addC(*n, nc); if (rF == 1) n->model = mF; nForks++; work.push_back(std::move(n));
      addC(s, c); if (rT == 1) s.model = mT; return true;
    }
    if (t) { if (rF == 0 && rT == 1) s.model = mT; addImplied(s, c); return true; }
    s.model = rF == 1 ? mF : s.model; addImplied(s, nc); return false;
  }
  u64 nUnkBranches = 0;
  void addImplied(State& s, Expr* c) {  // c is implied by pc; remember cheap facts only
    if (c->op == OEq && c->k[1]->op == OConst && c->k[0]->op == OVar && !s.fixed.count(c->k[0]->imm)) addC(s, c);
  }
  u64 concretize(State& s, Expr* e, const char* why) {
    e = fold(s, e); if (ExprPool::isC(e)) return e->imm;
    if (e->w == 0) throw Unsupported(string("concretising a symbolic double: ") + why);
    u64 v = 0;
    if (evalModel(s, e, &v) < 0) { ModelP m; if (query(s, {}, &m, false) == 1) s.model = m; if (evalModel(s, e, &v) < 0) throw Unsupported("cannot evaluate for concretisation"); }
    Expr* eq = X.cmp(OEq, e, X.cst(v, e->w)); Expr* ne = X.mkNot(eq); ModelP m2;
    int r = query(s, {ne}, &m2);
    if (r != 0) { auto n = std::make_unique<State>(s); n->depth++; addC(*n, ne); if (r == 1) n->model = m2; nForks++; work.push_back(std::move(n)); }
    addC(s, eq);
    for (u32 x : *X.varsOf(e)) if (!s.fixed.count(x) && X.vars[x].w > 0 && X.varsOf(e)->size() <= 4) {
      Expr* ve = X.vars[x].e; u64 vv; if (evalModel(s, ve, &vv) < 0) continue; ModelP tmp;
      if (X.vars[x].w == 1) { if (query(s, {vv ? X.mkNot(ve) : ve}, &tmp) == 0) { s.fixed[x] = vv; } }
      else if (query(s, {X.mkNot(X.cmp(OEq, ve, X.cst(vv, ve->w)))}, &tmp) == 0) s.fixed[x] = vv;
    }
    return v;
  }
  u64 conc(State& s, Val v, const char* why) { return v.e ? concretize(s, v.e, why) : v.c; }
  Expr* toE(const Val& v, int w) { return v.e ? v.e : X.cst(v.c, w); }
  Expr* toR(const Val& v) { if (v.e) { if (v.e->w) throw Unsupported("bit-level symbolic value used in floating-point arithmetic"); return v.e; } double d; memcpy(&d, &v.c, 8); return X.rcst(d); }
  // -------------------------------------------------------------- errors
  vector<string> stackTrace(State& s, Proc& p) {
    vector<string> r; int n = 0;
    for (auto it = p.st.rbegin(); it != p.st.rend() && n < 14; ++it, ++n) {
      string l = demangle(it->f->name); if (l.size() > 160) l = l.substr(0, 160) + "...";
      u32 loc = it->pc < it->f->code.size() ? it->f->code[it->pc].loc : 0;
      string where;
      if (loc) { for (const DILocation* L = locs[loc - 1]; L; L = L->getInlinedAt()) where += (where.empty() ? "" : " <- ") + L->getFilename().str() + ":" + std::to_string(L->getLine()); }
      r.push_back(l + " @ " + where);
    }
    return r;
  }
  void fillAsg(State& s, Violation& v, const ModelP& m) {
    Model empty; const Model& mm = m ? *m : empty; std::unordered_map<Expr*, u64> memo;
    for (u32 i : s.usedVars) {
      VarInfo& vi = X.vars[i]; string val;
      if (vi.w == 0) { Rat r = i < mm.v.size() && mm.v[i].set ? mm.v[i].r : Rat::fromDouble(std::min(std::max(0.0, vi.dlo), vi.dhi)); char b[64]; snprintf(b, 64, "%.17g", r.toDouble()); val = b; }
      else { u64 x = i < mm.v.size() && mm.v[i].set ? mm.v[i].i : X.evalI(vi.e, empty, memo); val = vi.uns ? std::to_string(x) : std::to_string(sx(x, vi.w)); }
      v.asg[vi.name] = val;
    }
    v.notes = s.notes;
  }
  bool flushObl(State& s) {
    if (s.obls.empty()) return true;
    vector<Obl> o; o.swap(s.obls);
    Expr* any = X.cst(0, 1); for (auto& x : o) any = X.bin(OOr, any, x.bad);
    // balanced or
    vector<Expr*> q; for (auto& x : o) q.push_back(x.bad); while (q.size() > 1) { vector<Expr*> n; for (size_t i = 0; i + 1 < q.size(); i += 2) n.push_back(X.bin(OOr, q[i], q[i + 1])); if (q.size() & 1) n.push_back(q.back()); q.swap(n); }
    ModelP m; int r = query(s, {q[0]}, &m); nOblQueries++;
    if (r == 0) { for (auto& x : o) labelSolved[x.label]++; return true; }
    if (r == -1) {
      for (auto& x : o) { int r1 = query(s, {x.bad}, &m); nOblQueries++; if (r1 == 0) labelSolved[x.label]++; else if (r1 == 1) { r = 1; break; } else { incon.push_back("solver unknown on assertion " + labels[x.label]); } }
      if (r == -1) return true;
    }
    // full model including unsliced constraints
    string lab = "?"; Model em; std::unordered_map<Expr*, u64> memo;
    for (auto& x : o) { try { if (X.evalI(x.bad, *m, memo)) { lab = labels[x.label]; break; } } catch (ExprPool::EvalFail&) {} }
    if (lab == "?") for (auto& x : o) { ModelP m1; if (query(s, {x.bad}, &m1) == 1) { lab = labels[x.label]; m = m1; break; } }
    // prefer a witness in which the compared reals differ visibly
    for (auto& x : o) if (labels[x.label] == lab) {
      Expr* b = x.bad; Expr* nr = b->op == ONot ? b->k[0] : nullptr;
      if (nr && nr->op == ORNear) {
        Expr* one = X.rcst(1.0); Expr* far = X.bin(OOr, X.rcmp(1, X.radd(nr->k[0], one, false), nr->k[1]), X.rcmp(1, X.radd(nr->k[1], one, false), nr->k[0])); ModelP m2;
        if (query(s, {far}, &m2) == 1) { m = m2; break; }
      }
    }
    Violation v; v.kind = "assertion"; v.label = lab; v.msg = "assertion can be false"; v.stack = stackTrace(s, s.procs[s.cur]); fillAsg(s, v, m); viols.push_back(v);
    return false;
  }
  [[noreturn]] void fail(State& s, const string& kind, const string& msg, const string& label = "") {
    if (flushObl(s)) {
      Violation v; v.kind = kind; v.label = label; v.msg = msg; v.stack = stackTrace(s, s.procs[s.cur]);
      ModelP m = s.model; if (!m) { query(s, {}, &m, false); }
      fillAsg(s, v, m); viols.push_back(v);
    }
    throw PathEnd();
  }
  int label(const string& l) { auto it = labelIdx.find(l); if (it != labelIdx.end()) return it->second; int i = labels.size(); labels.push_back(l); labelHits.push_back(0); labelSyn.push_back(0); labelSolved.push_back(0); return labelIdx[l] = i; }
  void assertExpr(State& s, Expr* good, int lab) {
    labelHits[lab]++; nObl++;
    good = fold(s, good);
    if (ExprPool::isC(good)) { if (good->imm) { nOblTrivial++; labelSyn[lab]++; return; } fail(s, "assertion", "assertion is false on this path", labels[lab]); }
    s.obls.push_back({X.mkNot(good), lab});
    if (s.obls.size() >= 400) { if (!flushObl(s)) throw PathEnd(); }
  }
  // -------------------------------------------------------------- memory access
  string describe(State& s, u64 addr) {
    u32 id = addr >> 32; u32 off = (u32)addr; std::ostringstream o; Obj* ob = s.h.get(id);
    o << "object " << id << (ob ? " size " + std::to_string(ob->size) + (ob->kind == KHeap ? " heap" : ob->kind == KStack ? " stack" : " global") : " (not allocated / freed)") << " offset " << (i32)off;
    return o.str();
  }
  Obj* resolve(State& s, u64 addr, u32 n, bool write, u32& off) {
    u32 id = addr >> 32; off = (u32)addr; Obj* o = id ? s.h.get(id) : nullptr;
    if (!o) { if (id == 0) fail(s, "memory", string("null pointer ") + (write ? "write" : "read") + " at " + std::to_string(addr)); if (id >= FNBASE) fail(s, "memory", "access to code address"); fail(s, "memory", string(write ? "write to" : "read from") + " freed or invalid memory: " + describe(s, addr)); }
    if ((u64)off + n > o->size) fail(s, "memory", string("out-of-bounds ") + (write ? "write" : "read") + " of " + std::to_string(n) + " bytes: " + describe(s, addr));
    if (write) { if (o->ro) fail(s, "memory", "write to constant: " + describe(s, addr)); o = s.h.getW(id); }
    return o;
  }
  Val loadC(State& s, u64 addr, u32 n, int w) {
    u32 off; Obj* o = resolve(s, addr, n, false, off);
    return loadO(s, o, off, n, w);
  }
  Val loadO(State& s, Obj* o, u32 off, u32 n, int w) {
    if (o->nsym) {
      SymB* b = o->sym + off; bool any = false; for (u32 i = 0; i < n; i++) if (b[i].e) { any = true; break; }
      if (any) {
        Expr* e = b[0].e; bool same = e != nullptr;
        for (u32 i = 0; i < n && same; i++) same = b[i].e == e && b[i].i == i;
        if (same && (e->w == 0 || e->w == n * 8 || (n == 1 && e->w == 1))) {
          if (e->w == 1) { e = w == 1 ? e : X.zext(e, w); return mk(s, e); }
          if (e->w && e->w != w) e = X.extract(e, 0, w);
          return mk(s, e);
        }
        // generic: compose bytes
        Expr* r = nullptr;
        for (u32 i = 0; i < n; i++) {
          Expr* by;
          if (!b[i].e) by = X.cst(o->data[off + i], 8);
          else { Expr* q = b[i].e; if (q->w == 0) throw Unsupported("partial read of a symbolic double"); if (q->w == 1) by = X.zext(q, 8); else { int lo = b[i].i * 8; int ww = std::min(8, (int)q->w - lo); by = X.extract(q, lo, ww); if (ww < 8) by = X.zext(by, 8); } }
          r = r ? X.concat(by, r) : by;
        }
        if ((int)r->w != w) r = X.extract(r, 0, w);
        return mk(s, r);
      }
    }
    u64 v = 0; memcpy(&v, o->data + off, n); if (w < 64) v &= maskw(w); return {v, nullptr};
  }
  void clearSym(Obj* o, u32 off, u32 n) { if (!o->nsym) return; for (u32 i = 0; i < n; i++) if (o->sym[off + i].e) { o->sym[off + i].e = nullptr; o->nsym--; } }
  void setSym(Obj* o, u32 off, Expr* e, u32 idx) { if (!o->sym) { o->sym = (SymB*)calloc(o->size ? o->size : 1, sizeof(SymB)); } if (!o->sym[off].e) o->nsym++; o->sym[off] = {e, idx}; }
  void storeO(State& s, Obj* o, u32 off, u32 n, int w, Val v) {
    if (v.e) { Expr* e = v.e; if (e->w > 1 && e->w != n * 8) e = X.zext(e, n * 8); for (u32 i = 0; i < n; i++) setSym(o, off + i, e->w == 1 && i ? nullptr : e, i); if (e->w == 1 && n > 1) throw Unsupported("i1 wide store"); return; }
    clearSym(o, off, n); memcpy(o->data + off, &v.c, n);
  }
  void storeC(State& s, u64 addr, u32 n, int w, Val v) { u32 off; Obj* o = resolve(s, addr, n, true, off); storeO(s, o, off, n, w, v); }
  // symbolic address: returns list of candidate concrete addresses (with conditions) or concretises
  bool candidates(State& s, Expr* p, u32 n, bool write, vector<u64>& out) {
    u64 v; if (evalModel(s, p, &v) < 0) { out = {concretize(s, p, "address")}; return false; }
    u32 id = v >> 32; Obj* o = id ? s.h.get(id) : nullptr;
    if (!o || (u64)(u32)v + n > o->size) { u64 a = concretize(s, p, "address"); out = {a}; return false; }
    u64 base = (u64)id << 32; Expr* off = X.bin(OSub, p, X.cst(base, 64));
    Expr* inb = X.cmp(OUle, off, X.cst(o->size - n, 64));
    if (!branch(s, inb)) { u64 a = concretize(s, p, "address"); out = {a}; return false; }
    // note: branch() forked the out-of-bounds case into its own path which fails (or resolves to another object)
    u32 step = 1;
    if (n > 1) { Expr* mis = X.mkNot(X.cmp(OEq, X.bin(OAnd, off, X.cst(n - 1, 64)), X.cst(0, 64))); if ((n & (n - 1)) == 0 && (ExprPool::isC(mis) ? !mis->imm : query(s, {mis}, nullptr) == 0)) step = n; }
    u64 lo = 0, hi = o->size - n; if (off->slo > 0) lo = (u64)off->slo; if (off->shi >= 0 && (u64)off->shi < hi) hi = (u64)off->shi;
    lo = (lo + step - 1) / step * step;
    if (lo > hi) { nPruned++; throw PathEnd(); }
    if ((hi - lo) / step + 1 > 128) { out = {concretize(s, p, "address")}; return false; }
    for (u64 k = lo; k <= hi; k += step) out.push_back(base + k);
    return true;
  }
  Val loadV(State& s, Val p, u64 off, u32 n, int w, bool isPtr) {
    if (!p.e) return loadC(s, p.c + off, n, w);
    Expr* pe = fold(s, X.bin(OAdd, p.e, X.cst(off, 64))); if (ExprPool::isC(pe)) return loadC(s, pe->imm, n, w);
    vector<u64> c; if (!candidates(s, pe, n, false, c) || c.size() == 1) return loadC(s, c[0], n, w);
    vector<Val> vals; bool allEq = true, anyReal = false;
    for (u64 a : c) { vals.push_back(loadC(s, a, n, w)); if (vals.back().e && vals.back().e->w == 0) anyReal = true; if (vals.back().e || vals[0].e || vals.back().c != vals[0].c) allEq = false; }
    if (allEq) return vals[0];
    if (isPtr || (w == 64 && !anyReal && ((vals[0].c >> 32) && vals[0].c < ((u64)FNBASE << 33) && s.h.get(vals[0].c >> 32)))) { u64 a = concretize(s, pe, "pointer load address"); return loadC(s, a, n, w); }
    Expr* r = nullptr;
    for (size_t i = c.size(); i-- > 0;) { Expr* e = anyReal ? toR(vals[i]) : toE(vals[i], w); r = r ? X.ite(X.cmp(OEq, pe, X.cst(c[i], 64)), e, r) : e; }
    return mk(s, r);
  }
  void storeV(State& s, Val p, u64 off, u32 n, int w, Val v) {
    if (!p.e) { storeC(s, p.c + off, n, w, v); return; }
    Expr* pe = fold(s, X.bin(OAdd, p.e, X.cst(off, 64))); if (ExprPool::isC(pe)) { storeC(s, pe->imm, n, w, v); return; }
    vector<u64> c; if (!candidates(s, pe, n, true, c) || c.size() == 1) { storeC(s, c[0], n, w, v); return; }
    bool real = v.e && v.e->w == 0;
    vector<Val> old; for (u64 a : c) { old.push_back(loadC(s, a, n, w)); if (old.back().e && old.back().e->w == 0) real = true; }
    for (size_t i = 0; i < c.size(); i++) {
      Expr* cond = X.cmp(OEq, pe, X.cst(c[i], 64));
      Expr* nv = real ? X.ite(cond, toR(v), toR(old[i])) : X.ite(cond, toE(v, w), toE(old[i], w));
      storeC(s, c[i], n, w, mk(s, nv));
    }
  }
  void memCopy(State& s, u64 d, u64 src, u64 n) {
    if (!n) return; u32 so, dof; Obj* a = resolve(s, src, n, false, so); Obj* b = resolve(s, d, n, true, dof); a = s.h.get(src >> 32);
    if (!a->nsym && !b->nsym) { memmove(b->data + dof, a->data + so, n); return; }
    vector<SymB> t(n); if (a->nsym) memcpy(t.data(), a->sym + so, n * sizeof(SymB)); else memset((void*)t.data(), 0, n * sizeof(SymB));
    memmove(b->data + dof, a->data + so, n);
    for (u64 i = 0; i < n; i++) { if (t[i].e) setSym(b, dof + i, t[i].e, t[i].i); else if (b->sym && b->sym[dof + i].e) { b->sym[dof + i].e = nullptr; b->nsym--; } }
  }
  string cstr(State& s, u64 a) { string r; for (int i = 0; i < 4096; i++) { Val v = loadC(s, a + i, 1, 8); if (v.e) throw Unsupported("symbolic string"); if (!v.c) break; r += (char)v.c; } return r; }
  u64 allocHeap(State& s, u64 n) { if (n > (1ull << 30)) fail(s, "memory", "huge allocation " + std::to_string(n)); u32 id = s.h.alloc(n, KHeap, 0xAB); return (u64)id << 32; }
  void freeHeap(State& s, u64 a) {
    if (!a) return; u32 id = a >> 32; Obj* o = s.h.get(id); if (!o) fail(s, "memory", "double free or invalid free: " + describe(s, a));
    if (o->kind != KHeap || (u32)a) fail(s, "memory", "free of non-heap / interior pointer: " + describe(s, a)); s.h.kill(id);
  }
  // -------------------------------------------------------------- calls
  void pushFrame(State& s, Proc& p, Func* f, CallInfo* ci, const Val* args, u32 nargs) {
    if (p.st.size() > 2000) fail(s, "memory", "stack overflow (recursion depth > 2000)");
    Frame fr; fr.f = f; fr.pc = 0; fr.base = p.st.empty() ? 0 : p.st.back().base + p.st.back().f->nregs; fr.ret = ci; fr.lpadExc = 0;
    if (p.regs.size() < fr.base + f->nregs) p.regs.resize(std::max<size_t>(fr.base + f->nregs, p.regs.size() * 3 / 2));
    Val* r = p.regs.data() + fr.base; for (u32 i = 0; i < nargs && i < f->nregs; i++) r[i] = args[i];
    p.st.push_back(std::move(fr));
  }
  void popFrame(State& s, Proc& p) { for (u32 id : p.st.back().allocas) { s.h.kill(id); s.h.freeStack.push_back(id); } p.st.pop_back(); }
  void takeEdge(Proc& p, Frame& fr, Edge& e) {
    if (!e.cp.empty()) {
      Val* r = p.regs.data() + fr.base; Val tmp[64]; vector<Val> big; Val* t = tmp; if (e.cp.size() > 64) { big.resize(e.cp.size()); t = big.data(); }
      const Val* cp = cpoolCur; 
      for (size_t i = 0; i < e.cp.size(); i++) { i32 q = e.cp[i].second; t[i] = q >= 0 ? r[q] : cp[-q - 1]; }
      for (size_t i = 0; i < e.cp.size(); i++) r[e.cp[i].first] = t[i];
    }
    fr.pc = e.pc;
  }
  const Val* cpoolCur = nullptr;
  // exceptions ----------------------------------------------------
  static string baseOfStd(const string& n) {
    static const std::map<string, string> m = {{"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt10bad_typeid", "_ZTISt9exception"}};
    auto it = m.find(n); return it == m.end() ? "" : it->second;
  }
  std::map<std::pair<string, string>, bool> derivedCache;
  bool derives(const string& a, const string& b) {
    if (a == b) return true; auto k = std::make_pair(a, b); auto it = derivedCache.find(k); if (it != derivedCache.end()) return it->second;
    bool r = false; string sb = baseOfStd(a); if (!sb.empty()) r = derives(sb, b);
    else if (auto* G = M->getGlobalVariable(a, true)) if (G->hasInitializer()) if (auto* cs = dyn_cast<ConstantStruct>(G->getInitializer()))
      for (unsigned i = 2; i < cs->getNumOperands() && !r; i++) if (auto* B = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts())) r = derives(B->getName().str(), b);
    return derivedCache[k] = r;
  }
  std::map<int, string> pseudoTi;  // ids for std exceptions thrown by builtins w/o typeinfo global
  vector<string> tiNames;
  int tiId(const string& n) { for (size_t i = 0; i < tiNames.size(); i++) if (tiNames[i] == n) return i; tiNames.push_back(n); return tiNames.size() - 1; }
  void unwind(State& s, Proc& p) {  // p.inflight set; unwind frames from the current call
    while (true) {
      // current frame: was executing call at pc
      Frame& fr = p.st.back(); Ins& in = fr.f->code[fr.pc];
      if (in.op == I_CALL && ((CallInfo*)in.p)->invoke) {
        CallInfo* ci = (CallInfo*)in.p; u32 pc = ci->unwind.pc; Ins* lp = nullptr; for (u32 q = pc; q < fr.f->code.size(); q++) if (fr.f->code[q].op == I_LPAD) { lp = &fr.f->code[q]; break; }
        LpadInfo* li = (LpadInfo*)lp->p; bool take = li->cleanup; int sel = 0;
        for (int t : li->types) { if (t == -2) continue; if (t == -1 || derives(tiNames[p.inflight.ti], gvars[t]->getName().str())) { take = true; sel = t + 1; break; } }
        if (take) { cpoolCur = cpool[s.cur].data(); takeEdge(p, fr, ci->unwind); p.pendingSel = sel; return; }
      }
      if (p.st.size() == 1) { string n = tiNames[p.inflight.ti]; fail(s, "exception", "uncaught exception of type " + demangle("_Z" + n.substr(4)) ); }
      popFrame(s, p);
    }
  }
  void throwStd(State& s, Proc& p, const string& ti) { p.inflight = {allocHeap(s, 64), tiId(ti)}; s.exHdr[p.inflight.obj] = p.inflight.ti; p.excRaised = true; { u64 v = ((u64)dummyVt << 32) + 1024; storeC(s, p.inflight.obj, 8, 64, {v, nullptr}); } unwind(s, p); }
  // -------------------------------------------------------------- main loop
  void runState(State& s);
  void step(State& s);
  void explore();
  bool schedule(State& s);
  void ioStub(State& s, Proc& p, CallInfo& ci, Val* a, Val* ret);
  void report(const string& out);
};
#include "builtins.inc"

bool Engine::schedule(State& s) {
  u32 n = s.procs.size(); bool allDone = true, progress = false;
  for (u32 i = 0; i < n; i++) { Proc& p = s.procs[i]; if (!p.done) { allDone = false; if (!p.blocked || p.blockEpoch != s.epoch) progress = true; } }
  if (allDone) return false;
  if (!progress) { string m = "deadlock: "; for (u32 i = 0; i < n; i++) m += "rank " + std::to_string(i) + (s.procs[i].done ? " finished; " : " blocked in " + s.procs[i].blockWhat + "; "); for (u32 i = 0; i < n; i++) if (!s.procs[i].done) { s.cur = i; break; } fail(s, "deadlock", m); }
  for (u32 k = 1; k <= n; k++) { u32 i = (s.cur + k) % n; Proc& p = s.procs[i]; if (!p.done && (!p.blocked || p.blockEpoch != s.epoch)) { s.cur = i; p.blocked = false; return true; } }
  return false;
}
static inline double asD(u64 c) { double d; memcpy(&d, &c, 8); return d; }
static inline u64 fromD(double d) { u64 c; memcpy(&c, &d, 8); return c; }
static inline float asF(u64 c) { u32 x = (u32)c; float f; memcpy(&f, &x, 4); return f; }
static inline u64 fromF(float f) { u32 x; memcpy(&x, &f, 4); return x; }

void Engine::runState(State& s) {
  // run until path end
  while (true) {
    Proc& p = s.procs[s.cur];
    if (p.done || p.blocked) { if (!schedule(s)) break; continue; }
    const Val* CP = cpool[s.cur].data(); cpoolCur = CP; u32 me = s.cur;
    bool resched = false;
    while (!resched) {
      Frame& fr = p.st.back(); Ins* code = fr.f->code.data(); Val* R = p.regs.data() + fr.base; u32 pc = fr.pc;
      CP = cpool[me].data(); cpoolCur = CP;
#define V(i) ((i) >= 0 ? R[i] : CP[-(i)-1])
      // inner loop within a frame
      bool leave = false;
      while (!leave) {
        Ins& I = code[pc]; fr.pc = pc;
        s.steps++; nSteps++;
        if ((s.steps & 0xFFFFF) == 0) { if (now() - t0 > tlimit) { incon.push_back("time limit"); throw PathEnd(); } if (s.steps > maxSteps) fail(s, "nontermination", "path exceeds " + std::to_string(maxSteps) + " instructions"); }
        switch (I.op) {
          case I_NOP: pc++; break;
          case I_MOV: R[I.d] = V(I.a); pc++; break;
          case I_ADD: case I_SUB: case I_MUL: case I_AND: case I_OR: case I_XOR: case I_SHL: case I_LSHR: case I_ASHR: case I_UDIV: case I_SDIV: case I_UREM: case I_SREM: {
            Val a = V(I.a), b = V(I.b); int w = I.w;
            static const Op om[] = {OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OAnd, OOr, OXor, OShl, OLShr, OAShr}; Op op = om[I.op - I_ADD];
            if (I.op == I_UDIV || I.op == I_SDIV || I.op == I_UREM || I.op == I_SREM) {
              if (b.e) { Expr* z = X.cmp(OEq, b.e, X.cst(0, w)); if (branch(s, z)) fail(s, "arithmetic", "integer division by zero"); }
              else if ((b.c & maskw(w)) == 0) fail(s, "arithmetic", "integer division by zero");
              if (!a.e && !b.e && (I.op == I_SDIV || I.op == I_SREM) && sx(b.c, w) == -1 && sx(a.c, w) == ExprPool::wmin(w)) fail(s, "arithmetic", "signed division overflow");
            }
            if (!a.e && !b.e) {
              u64 r; u64 m = maskw(w);
              switch (I.op) { case I_ADD: r = (a.c + b.c) & m; break; case I_SUB: r = (a.c - b.c) & m; break; case I_MUL: r = (a.c * b.c) & m; break; case I_AND: r = a.c & b.c; break; case I_OR: r = a.c | b.c; break; case I_XOR: r = (a.c ^ b.c) & m; break; default: { bool ok; r = ExprPool::foldBin(op, a.c, b.c, w, ok); } }
              R[I.d] = {r, nullptr};
            } else {
              if ((a.e && a.e->w == 0) || (b.e && b.e->w == 0)) {
                Val q = (a.e && a.e->w == 0) ? a : b, k = (a.e && a.e->w == 0) ? b : a;
                if (I.op == I_AND && !k.e && k.c == 0x7fffffffffffffffull) { R[I.d] = mk(s, X.rabs(q.e)); pc++; break; }
                if (I.op == I_XOR && !k.e && k.c == 0x8000000000000000ull) { R[I.d] = mk(s, X.rneg(q.e)); pc++; break; }
              }
              R[I.d] = mk(s, X.bin(op, toE(a, w), toE(b, w)));
            }
            pc++; break;
          }
          case I_FADD: case I_FSUB: case I_FMUL: case I_FDIV: case I_FREM: {
            Val a = V(I.a), b = V(I.b);
            if (!a.e && !b.e) {
              if (I.w == 64) { double x = asD(a.c), y = asD(b.c), r; switch (I.op) { case I_FADD: r = x + y; break; case I_FSUB: r = x - y; break; case I_FMUL: r = x * y; break; case I_FDIV: r = x / y; break; default: r = fmod(x, y); } R[I.d] = {fromD(r), nullptr}; }
              else { float x = asF(a.c), y = asF(b.c), r; switch (I.op) { case I_FADD: r = x + y; break; case I_FSUB: r = x - y; break; case I_FMUL: r = x * y; break; case I_FDIV: r = x / y; break; default: r = fmodf(x, y); } R[I.d] = {fromF(r), nullptr}; }
            } else {
              if (I.w != 64) throw Unsupported("symbolic float arithmetic");
              // special concrete operands
              auto special = [&](const Val& v) { return !v.e && !std::isfinite(asD(v.c)); };
              if (special(a) || special(b)) { double x = special(a) ? asD(a.c) : asD(b.c); if (std::isnan(x)) { R[I.d] = {fromD(x), nullptr}; pc++; break; } if (I.op == I_FADD || (I.op == I_FSUB && special(a))) { R[I.d] = {fromD(x), nullptr}; pc++; break; } if (I.op == I_FSUB) { R[I.d] = {fromD(-x), nullptr}; pc++; break; } if (I.op == I_FDIV && special(b)) { R[I.d] = {fromD(0.0), nullptr}; pc++; break; } throw Unsupported("inf arithmetic on symbolic double"); }
              Expr *x = toR(a), *y = toR(b), *r;
              switch (I.op) {
                case I_FADD: r = X.radd(x, y, false); break; case I_FSUB: r = X.radd(x, y, true); break; case I_FMUL: r = X.rmul(x, y); break;
                case I_FDIV: {
                  if (X.isRC(y)) { if (y->lin->c.isZero()) { LinForm z; Expr* zero = X.mkLin(std::move(z)); if (branch(s, X.rcmp(2, x, zero))) { R[I.d] = {fromD(NAN), nullptr}; } else { bool neg = branch(s, X.rcmp(0, x, zero)); bool sb = !b.e && std::signbit(asD(b.c)); R[I.d] = {fromD((neg != sb) ? -INFINITY : INFINITY), nullptr}; } r = nullptr; break; } r = X.rdiv(x, y); break; }
                  LinForm z; Expr* zero = X.mkLin(std::move(z));
                  if (branch(s, X.rcmp(2, y, zero))) { if (branch(s, X.rcmp(2, x, zero))) R[I.d] = {fromD(NAN), nullptr}; else R[I.d] = {fromD(branch(s, X.rcmp(0, x, zero)) ? -INFINITY : INFINITY), nullptr}; r = nullptr; break; }
                  r = X.rdiv(x, y); break;
                }
                default: throw Unsupported("frem on symbolic double");
              }
              if (r) R[I.d] = mk(s, r);
            }
            pc++; break;
          }
          case I_FNEG: { Val a = V(I.a); if (a.e) R[I.d] = mk(s, X.rneg(toR(a))); else if (I.w == 64) R[I.d] = {a.c ^ 0x8000000000000000ull, nullptr}; else R[I.d] = {a.c ^ 0x80000000ull, nullptr}; pc++; break; }
          case I_ICMP: {
            Val a = V(I.a), b = V(I.b); int w = I.w; 
            if (!a.e && !b.e) {
              u64 x = a.c & maskw(w), y = b.c & maskw(w); bool r;
              switch (I.imm) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
                case CmpInst::ICMP_SLT: r = sx(x, w) < sx(y, w); break; case CmpInst::ICMP_SLE: r = sx(x, w) <= sx(y, w); break; case CmpInst::ICMP_SGT: r = sx(x, w) > sx(y, w); break; default: r = sx(x, w) >= sx(y, w); }
              R[I.d] = {r, nullptr};
            } else {
              Expr *x = toE(a, w), *y = toE(b, w), *r;
              if (x->w == 0 && y->w == 0 && (I.imm == CmpInst::ICMP_EQ || I.imm == CmpInst::ICMP_NE)) { r = X.rcmp(2, x, y); if (I.imm == CmpInst::ICMP_NE) r = X.mkNot(r); R[I.d] = mk(s, r); pc++; break; }
              switch (I.imm) { case CmpInst::ICMP_EQ: r = X.cmp(OEq, x, y); break; case CmpInst::ICMP_NE: r = X.mkNot(X.cmp(OEq, x, y)); break; case CmpInst::ICMP_ULT: r = X.cmp(OUlt, x, y); break; case CmpInst::ICMP_ULE: r = X.cmp(OUle, x, y); break; case CmpInst::ICMP_UGT: r = X.cmp(OUlt, y, x); break; case CmpInst::ICMP_UGE: r = X.cmp(OUle, y, x); break;
                case CmpInst::ICMP_SLT: r = X.cmp(OSlt, x, y); break; case CmpInst::ICMP_SLE: r = X.cmp(OSle, x, y); break; case CmpInst::ICMP_SGT: r = X.cmp(OSlt, y, x); break; default: r = X.cmp(OSle, y, x); }
              R[I.d] = mk(s, r);
            }
            pc++; break;
          }
          case I_FCMP: {
            Val a = V(I.a), b = V(I.b); unsigned pr = I.imm;
            if (pr == CmpInst::FCMP_TRUE || pr == CmpInst::FCMP_FALSE) { R[I.d] = {pr == CmpInst::FCMP_TRUE, nullptr}; pc++; break; }
            auto dv = [&](const Val& v) { return I.w == 64 ? asD(v.c) : (double)asF(v.c); };
            bool spec = (!a.e && !std::isfinite(dv(a))) || (!b.e && !std::isfinite(dv(b)));
            // huge concrete constants against bounded symbolic values
            double x, y; bool have = false;
            if (!a.e && !b.e) { x = dv(a); y = dv(b); have = true; }
            else if (spec) { x = a.e ? 0.0 : dv(a); y = b.e ? 0.0 : dv(b); have = true; }
            else if ((!a.e && std::fabs(dv(a)) > 1e60) || (!b.e && std::fabs(dv(b)) > 1e60)) { x = a.e ? 0.0 : dv(a); y = b.e ? 0.0 : dv(b); have = true; }
            if (have) {
              bool un = std::isnan(x) || std::isnan(y), r;
              switch (pr) { case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_OGE: r = !un && x >= y; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break;
                case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; default: r = un || x >= y; }
              R[I.d] = {r, nullptr}; pc++; break;
            }
            if (pr == CmpInst::FCMP_ORD || pr == CmpInst::FCMP_UNO) { R[I.d] = {pr == CmpInst::FCMP_ORD, nullptr}; pc++; break; }
            Expr *ea = toR(a), *eb = toR(b), *r;
            switch (pr) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = X.rcmp(2, ea, eb); break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = X.mkNot(X.rcmp(2, ea, eb)); break; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = X.rcmp(0, ea, eb); break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = X.rcmp(1, ea, eb); break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = X.rcmp(0, eb, ea); break; default: r = X.rcmp(1, eb, ea); }
            R[I.d] = mk(s, r); pc++; break;
          }
          case I_TRUNC: { Val a = V(I.a); if (a.e) R[I.d] = mk(s, X.extract(a.e, 0, I.w)); else R[I.d] = {a.c & maskw(I.w), nullptr}; pc++; break; }
          case I_ZEXT: { Val a = V(I.a); if (a.e) R[I.d] = mk(s, X.zext(a.e, I.w)); else R[I.d] = {a.c & maskw(I.w2), nullptr}; pc++; break; }
          case I_SEXT: { Val a = V(I.a); if (a.e) R[I.d] = mk(s, X.sext(a.e, I.w)); else R[I.d] = {(u64)sx(a.c, I.w2) & maskw(I.w), nullptr}; pc++; break; }
          case I_FPTOSI: case I_FPTOUI: {
            Val a = V(I.a);
            if (a.e) { Expr *e = toR(a), *N; i64 D; if (X.asInt(*e->lin, N, D)) { Expr* q = intOf(N, D, 2); if (q->slo >= ExprPool::wmin(I.w) && q->shi <= ExprPool::wmax(I.w) && (I.op == I_FPTOSI || q->slo >= 0)) { R[I.d] = mk(s, X.extract(q, 0, I.w)); pc++; break; } } }
            if (a.e) { R[I.d] = {fpToInt(*this, s, a.e, I.w), nullptr}; pc++; break; }
            double x = I.w2 == 64 ? asD(a.c) : asF(a.c);
            if (I.op == I_FPTOSI) { i64 v = (x >= -9.3e18 && x <= 9.2e18) ? (i64)x : INT64_MIN; R[I.d] = {(u64)v & maskw(I.w), nullptr}; }
            else { u64 v = x >= 9.2233720368547758e18 ? (x < 1.8446744073709552e19 ? (u64)x : ~0ull) : (u64)(i64)x; R[I.d] = {v & maskw(I.w), nullptr}; }
            pc++; break;
          }
          case I_SITOFP: case I_UITOFP: {
            Val a = V(I.a);
            if (a.e && I.w == 64 && a.e->w > 0) { Expr* q = I.op == I_SITOFP ? X.sext(a.e, 64) : X.zext(a.e, 64); if (q->slo > -(1ll << 53) && q->shi < (1ll << 53)) { R[I.d] = mk(s, X.i2r(q)); pc++; break; } }
            u64 c = a.e ? concretize(s, a.e, "int to fp") : a.c; c &= maskw(I.w2);
            if (I.w == 64) R[I.d] = {fromD(I.op == I_SITOFP ? (double)sx(c, I.w2) : (double)c), nullptr}; else R[I.d] = {fromF(I.op == I_SITOFP ? (float)sx(c, I.w2) : (float)c), nullptr};
            pc++; break;
          }
          case I_FPEXT: { Val a = V(I.a); if (a.e) R[I.d] = a; else if (I.w2 == 32) R[I.d] = {fromD(asF(a.c)), nullptr}; else R[I.d] = a; pc++; break; }
          case I_FPTRUNC: { Val a = V(I.a); if (a.e) { if (I.w == 64) R[I.d] = a; else { X.inexactOps++; R[I.d] = a; } } else if (I.w == 32) R[I.d] = {fromF((float)asD(a.c)), nullptr}; else R[I.d] = a; pc++; break; }
          case I_LOAD: {
            Val a = V(I.a);
            if (!a.e) {
              u64 ad = a.c + I.imm; u32 id = ad >> 32; u32 off = (u32)ad; Obj* o = id ? s.h.get(id) : nullptr; u32 n = I.w2;
              if (o && (u64)off + n <= o->size && !o->nsym) { u64 v = 0; memcpy(&v, o->data + off, n); if (I.w < 64) v &= maskw(I.w); R[I.d] = {v, nullptr}; pc++; break; }
            }
            R[I.d] = loadV(s, a, I.imm, I.w2, I.w, I.fl); pc++; break;
          }
          case I_STORE: { Val a = V(I.a), b = V(I.b); if (b.e && b.e->w == 0 && I.w2 == 4) X.inexactOps++; storeV(s, a, I.imm, I.w2, I.w, b); pc++; break; }
          case I_GEP: {
            GepInfo* g = (GepInfo*)I.p; Val a = V(I.a); Expr* e = a.e; u64 c = a.c + g->off; if (e) { e = X.bin(OAdd, e, X.cst(g->off, 64)); }
            for (auto& x : g->idx) {
              Val v = V(x.first);
              if (v.e) { Expr* t = X.bin(OMul, X.sext(v.e, 64), X.cst(x.second.first, 64)); e = X.bin(OAdd, e ? e : X.cst(c, 64), t); }
              else { u64 k = (u64)(sx(v.c, x.second.second) * x.second.first); if (e) e = X.bin(OAdd, e, X.cst(k, 64)); else c += k; }
            }
            R[I.d] = e ? mk(s, e) : Val{c, nullptr}; pc++; break;
          }
          case I_ALLOCA: { u64 n = conc(s, V(I.a), "alloca size") * I.imm; u32 id = s.h.alloc(n, KStack, 0xCD); fr.allocas.push_back(id); R[I.d] = {(u64)id << 32, nullptr}; pc++; break; }
          case I_SELECT: {
            Val c = V(I.a), a = V(I.b), b = V(I.c);
            if (!c.e) R[I.d] = (c.c & 1) ? a : b;
            else if (!a.e && !b.e && a.c == b.c) R[I.d] = a;
            else if (a.e && a.e == b.e) R[I.d] = a;
            else if (I.fl) R[I.d] = branch(s, c.e) ? a : b;
            else if (I.w2 == 1 || (a.e && a.e->w == 0) || (b.e && b.e->w == 0)) {
              auto big = [&](const Val& v) { return !v.e && !(std::fabs(asD(v.c)) < 1e60); };
              if (I.w != 64 || big(a) || big(b)) R[I.d] = branch(s, c.e) ? a : b;
              else R[I.d] = mk(s, X.ite(c.e, toR(a), toR(b)));
            } else R[I.d] = mk(s, X.ite(c.e, toE(a, I.w), toE(b, I.w)));
            pc++; break;
          }
          case I_BR: { takeEdge(p, fr, *(Edge*)I.p); pc = fr.pc; break; }
          case I_CBR: { Val c = V(I.a); bool t = c.e ? branch(s, c.e) : (c.c & 1); takeEdge(p, fr, ((Edge*)I.p)[t ? 0 : 1]); pc = fr.pc; break; }
          case I_SWITCH: {
            SwitchInfo* si = (SwitchInfo*)I.p; Val c = V(I.a);
            if (!c.e) { size_t k = 0; for (; k < si->vals.size(); k++) if (si->vals[k] == c.c) break; takeEdge(p, fr, k < si->vals.size() ? si->edges[k] : si->def); }
            else {
              size_t k = 0; for (; k < si->vals.size(); k++) { Expr* q = X.cmp(OEq, c.e, X.cst(si->vals[k], I.w)); if (branch(s, q)) break; }
              takeEdge(p, fr, k < si->vals.size() ? si->edges[k] : si->def);
            }
            pc = fr.pc; break;
          }
          case I_RET: {
            CallInfo* ci = fr.ret; Val tmp[16]; u32 n = I.imm; if (n > 16) throw Unsupported("large return"); for (u32 k = 0; k < n; k++) { i32 q = I.a >= 0 ? I.a + (i32)k : I.a - (i32)k; tmp[k] = V(q); }
            popFrame(s, p);
            if (p.st.empty()) { p.done = true; s.epoch++; resched = true; leave = true; break; }
            Frame& cf = p.st.back(); Val* CR = p.regs.data() + cf.base;
            if (ci) { if (ci->d >= 0) for (u32 k = 0; k < n && k < ci->nret; k++) CR[ci->d + k] = tmp[k]; if (ci->invoke) takeEdge(p, cf, ci->normal); else cf.pc++; }
            leave = true; break;
          }
          case I_CALL: {
            CallInfo& ci = *(CallInfo*)I.p; Function* T = ci.F; int bi = ci.builtin; Val args[64]; u32 na = ci.args.size(); if (na > 64) throw Unsupported("too many args");
            for (u32 k = 0; k < na; k++) args[k] = V(ci.args[k]);
            Val fpv;
            if (!T) {
              fpv = V(ci.fp); u64 a = conc(s, fpv, "function pointer"); u32 id = a >> 32;
              if (id < FNBASE || id > FNBASE + fnList.size()) fail(s, "memory", "call through invalid function pointer " + describe(s, a));
              if (id == FNBASE + fnList.size()) { // stub virtual: returns pointer to empty string
                u64 es = ((u64)dummyVt << 32) + 8; for (u32 k = 0; k < ci.nret; k++) R[ci.d + k] = {es, nullptr};
                if (ci.invoke) takeEdge(p, fr, ci.normal); else fr.pc++; leave = true; break; }
              T = fnList[id - FNBASE]; bi = -1; if (T->isDeclaration()) { auto b = bidx.find(T->getName().str()); if (b != bidx.end()) bi = b->second; }
            }
            if (bi < 0 && !T->isDeclaration()) {
              for (u32 k = 0; k < ci.byval.size(); k++) if (ci.byval[k]) { u32 id = s.h.alloc(ci.byval[k], KStack, 0); fr.allocas.push_back(id); u64 na_ = (u64)id << 32; memCopy(s, na_, conc(s, args[ci.argSlots[k]], "byval"), ci.byval[k]); args[ci.argSlots[k]] = {na_, nullptr}; }
              Func* f = translate(T); CP = cpool[me].data();
              pushFrame(s, p, f, &ci, args, std::min(na, f->nargSlots)); leave = true; break;
            }
            Val ret[4] = {{0, nullptr}, {0, nullptr}, {0, nullptr}, {0, nullptr}};
            size_t depth = p.st.size(); Func* cf = fr.f; (void)cf; u32 oldpc = pc;
            p.excRaised = false; p.wantBlock = false; p.wantYield = false;
            if (bi >= 0) bfns[bi](*this, s, p, ci, args, ret);
            else if (isIo(T->getName())) { CallInfo tmp; tmp = ci; tmp.name = T->getName().str(); tmp.F = T; ioStub(s, p, tmp, args, ret); }
            else if (p.st[0].f == bootF.get() && p.st[0].pc + 2 < bootF->code.size() && (T->getName().starts_with("_ZN5boost13serialization") || T->getName().starts_with("_ZNK5boost13serialization") || T->getName().starts_with("_ZN5boost7archive") || T->getName().starts_with("_ZNK5boost7archive"))) {}  // registration of serializers at start-up
            else { throw Unsupported("external function " + T->getName().str()); }
            if (p.excRaised) { leave = true; break; }
            if (p.st.size() != depth) { leave = true; break; }  // builtin pushed a frame
            { Frame& f2 = p.st.back(); Val* R2 = p.regs.data() + f2.base; if (ci.d >= 0) for (u32 k = 0; k < ci.nret && k < 4; k++) R2[ci.d + k] = ret[k];
              if (ci.invoke) takeEdge(p, f2, ci.normal); else f2.pc = oldpc + 1; }
            if (p.wantBlock) { p.blocked = true; p.blockEpoch = p.wantYield ? 0 : s.epoch; resched = true; leave = true; break; }
            pc = p.st.back().pc; break;
          }
          case I_LPAD: { R[I.d] = {p.inflight.obj, nullptr}; R[I.d + 1] = {(u64)(u32)p.pendingSel, nullptr}; pc++; break; }
          case I_RESUME: {
            if (p.st.size() == 1) { fail(s, "exception", "uncaught exception of type " + demangle("_Z" + tiNames[p.inflight.ti].substr(4))); }
            { u64 ob = V(I.a).c; auto it = s.exHdr.find(ob); if (it != s.exHdr.end()) p.inflight = {ob, (int)it->second}; }
            popFrame(s, p); unwind(s, p); leave = true; break;
          }
          case I_UNREACH: fail(s, "memory", "reached unreachable code (undefined behaviour)");
          case I_UNSUP: throw Unsupported(*(string*)I.p);
          case I_ATOMICRMW: {
            Val a = V(I.a), b = V(I.b); Val o = loadV(s, a, 0, I.w2, I.w, false); Expr *x = toE(o, I.w), *y = toE(b, I.w), *r;
            switch (I.imm) { case AtomicRMWInst::Add: r = X.bin(OAdd, x, y); break; case AtomicRMWInst::Sub: r = X.bin(OSub, x, y); break; case AtomicRMWInst::Xchg: r = y; break; case AtomicRMWInst::Or: r = X.bin(OOr, x, y); break; case AtomicRMWInst::And: r = X.bin(OAnd, x, y); break; default: throw Unsupported("atomicrmw"); }
            storeV(s, a, 0, I.w2, I.w, mk(s, r)); R[I.d] = o; pc++; break;
          }
          case I_CMPXCHG: {
            Val a = V(I.a); Val o = loadV(s, a, 0, I.w2, I.w, false), cexp = V(I.b); bool eq = (!o.e && !cexp.e) ? o.c == cexp.c : branch(s, X.cmp(OEq, toE(o, I.w), toE(cexp, I.w)));
            if (eq) storeV(s, a, 0, I.w2, I.w, V(I.c)); R[I.d] = o; R[I.d + 1] = {eq, nullptr}; pc++; break;
          }
          default: throw Unsupported("bytecode");
        }
      }
      if (p.done) break;
    }
  }
}
void Engine::explore() {
  auto s0 = std::make_unique<State>(); initGlobals(*s0); s0->procs.resize(nranks);
  Function* F = M->getFunction(entry); if (!F || F->isDeclaration()) { incon.push_back("entry not found"); return; }
  // static constructors per rank: build a synthetic order by pushing frames in reverse
  vector<Function*> ctors;
  if (auto* G = M->getGlobalVariable("llvm.global_ctors")) if (G->hasInitializer()) if (auto* A = dyn_cast<ConstantArray>(G->getInitializer())) {
    vector<std::pair<u64, Function*>> v; for (auto& op : A->operands()) { auto* cs = cast<ConstantStruct>(op); if (auto* fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn}); }
    std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (auto& x : v) ctors.push_back(x.second);
  }
  static CallInfo dummyCI; dummyCI.d = -1;
  for (u32 r = 0; r < nranks; r++) {
    Proc& p = s0->procs[r];
    // a pseudo function that calls ctors then entry
    if (!bootF) { bootF = std::make_unique<Func>(); bootF->F = nullptr; bootF->name = "<boot>"; bootF->nregs = 4; bootF->nargs = 0; bootF->nargSlots = 0; auto call = [&](Function* fn) { auto* ci = new CallInfo(); ci->F = fn; ci->name = fn->getName().str(); ci->d = -1; Ins x; memset((void*)&x, 0, sizeof x); x.op = I_CALL; x.p = ci; bootF->code.push_back(x); }; for (auto* c : ctors) call(c); call(F); Ins x; memset((void*)&x, 0, sizeof x); x.op = I_RET; bootF->code.push_back(x); }
    pushFrame(*s0, p, bootF.get(), nullptr, nullptr, 0);
  }
  work.push_back(std::move(s0));
  while (!work.empty()) {
    if (now() - t0 > tlimit) { incon.push_back("time limit, " + std::to_string(work.size()) + " states left"); break; }
    if (nPaths >= maxPaths) { incon.push_back("path limit"); break; }
    auto s = std::move(work.back()); work.pop_back();
    try { runState(*s); flushObl(*s); nPaths++; nComplete++; if (samples.size() < 12 && (nComplete & (nComplete - 1)) == 0) { Violation v; fillAsg(*s, v, s->model); samples.push_back(v.asg); } }
    catch (PathEnd&) { nPaths++; }
    catch (Unsupported& u) { string m = u.what(); if (incon.size() < 20) { incon.push_back(m); for (auto& l : stackTrace(*s, s->procs[s->cur])) incon.push_back("   " + l); } flushObl(*s); nPaths++; }
    if (viols.size() >= maxViol) break;
  }
}
static string jq(const string& s) { string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r + "\""; }
void Engine::report(const string& out) {
  std::ofstream f(out);
  f << "{\n \"status\": " << jq(viols.size() ? "violation" : incon.size() ? "inconclusive" : "ok") << ",\n";
  f << " \"violations\": [";
  for (size_t i = 0; i < viols.size(); i++) {
    auto& v = viols[i]; f << (i ? ",\n" : "\n") << "  {\"kind\":" << jq(v.kind) << ",\"label\":" << jq(v.label) << ",\"msg\":" << jq(v.msg) << ",\"stack\":["; for (size_t k = 0; k < v.stack.size(); k++) f << (k ? "," : "") << jq(v.stack[k]);
    f << "],\"assignment\":{"; bool first = true; for (auto& a : v.asg) { f << (first ? "" : ",") << jq(a.first) << ":" << jq(a.second); first = false; } f << "},\"notes\":["; for (size_t k = 0; k < v.notes.size(); k++) f << (k ? "," : "") << jq(v.notes[k].first + "=" + std::to_string(v.notes[k].second)); f << "]}";
  }
  f << "],\n \"inconclusive\": ["; for (size_t i = 0; i < incon.size(); i++) f << (i ? "," : "") << jq(incon[i]); f << "],\n";
  f << " \"covers\": {"; { bool first = true; for (auto& c : covers) { f << (first ? "" : ",") << jq(c.first) << ":" << c.second; first = false; } } f << "},\n";
  f << " \"labels\": {"; for (size_t i = 0; i < labels.size(); i++) f << (i ? "," : "") << jq(labels[i]) << ":[" << labelHits[i] << "," << labelSyn[i] << "," << labelSolved[i] << "]"; f << "},\n";
  f << " \"functions\": ["; { bool first = true; for (auto& c : touchedFns) { f << (first ? "" : ",") << jq(c); first = false; } } f << "],\n";
  f << " \"stats\": {\"paths\":" << nPaths << ",\"forks\":" << nForks << ",\"steps\":" << nSteps << ",\"queries\":" << nQueries << ",\"sat\":" << nSat << ",\"unsat\":" << nUnsat << ",\"unknown\":" << nUnk << ",\"unknown_branches\":" << nUnkBranches << ",\"assertions\":" << nObl << ",\"assertions_folded\":" << nOblTrivial << ",\"assertion_queries\":" << nOblQueries << ",\"fp_exact_ops\":" << X.exactOps << ",\"fp_inexact_ops\":" << X.inexactOps << ",\"symbolic_vars\":" << X.vars.size() << ",\"solver_s\":" << solverTime << ",\"wall_s\":" << (now() - t0) << ",\"complete_paths\":" << nComplete << "},\n \"samples\": [";
  for (size_t i = 0; i < samples.size(); i++) { f << (i ? ",\n" : "\n") << "  {"; bool first = true; for (auto& a : samples[i]) { f << (first ? "" : ",") << jq(a.first) << ":" << jq(a.second); first = false; } f << "}"; }
  f << "]\n}\n";
}
int main(int argc, char** argv) {
  Engine E; registerBuiltins(E);
  vector<string> files; string out = "/dev/stdout"; bool opt = true; string dump;
  for (int i = 1; i < argc; i++) {
    string a = argv[i];
    if (a == "-n") E.nranks = atoi(argv[++i]); else if (a == "-o") out = argv[++i]; else if (a == "-t") E.tlimit = atof(argv[++i]); else if (a == "-q") E.qtimeout = atoi(argv[++i]); else if (a == "-v") E.verbose = true; else if (a == "--no-opt") opt = false; else if (a == "--dump") dump = argv[++i]; else if (a == "--maxviol") E.maxViol = atoi(argv[++i]); else if (a == "--entry") E.entry = argv[++i]; else if (a == "--trace") E.traceCalls = true; else if (a == "--maxsteps") E.maxSteps = strtoull(argv[++i], 0, 10); else if (a == "--prep-only") { E.prepOnly = argv[++i]; } else if (a == "--prepped") E.prepped = true;
    else if (a.find('=') != string::npos) { size_t q = a.find('='); E.cfg[a.substr(0, q)] = strtoll(a.substr(q + 1).c_str(), 0, 0); } else files.push_back(a);
  }
  E.load(files);
  if (!E.prepped) E.prep(opt);
  if (!E.prepOnly.empty()) { std::error_code ec; raw_fd_ostream o(E.prepOnly, ec); WriteBitcodeToFile(*E.M, o); return 0; }
  if (!dump.empty()) { std::error_code ec; raw_fd_ostream o(dump, ec); E.M->print(o, nullptr); }
  E.index(); E.t0 = now();
  E.explore(); E.report(out);
  if (E.verbose || !E.incon.empty()) for (auto& m : E.incon) fprintf(stderr, "inconclusive: %s\n", m.c_str());
  if (E.verbose) { for (auto& v : E.viols) { fprintf(stderr, "VIOL %s [%s] %s\n", v.kind.c_str(), v.label.c_str(), v.msg.c_str()); for (auto& l : v.stack) fprintf(stderr, "   %s\n", l.c_str()); } fprintf(stderr, "paths=%lu forks=%lu steps=%lu queries=%lu solver=%.2fs wall=%.2fs obl=%lu (folded %lu) fp exact/inexact %lu/%lu\n", E.nPaths, E.nForks, E.nSteps, E.nQueries, E.solverTime, now() - E.t0, E.nObl, E.nOblTrivial, X.exactOps, X.inexactOps); }
  fflush(nullptr); _exit(E.viols.size() ? 1 : E.incon.size() ? 2 : 0);
}
