// ushsym: path-forking symbolic executor for LLVM bitcode of small C programs,
// deciding with Z3.  See /verif/DESIGN.md.
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
#include <deque>
#include <memory>
#include <fstream>
#include <sstream>
#include "solver.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugLoc.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
using namespace llvm;
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;

// ---------------------------------------------------------------- values
struct V { u64 c; Expr *e; V() : c(0), e(0) {} V(u64 x) : c(x), e(0) {} V(Expr *x) : c(0), e(x) { if (x->k == K_CONST) { c = x->c; e = 0; } } };
static inline Expr *toE(const V &v, unsigned w) { return v.e ? v.e : eConst(v.c, w); }

// ---------------------------------------------------------------- memory
static const u64 OFF0 = 0x10000000ull;           // objects start here inside their own 4G region
static inline u64 regionOf(u64 a) { return a >> 32; }
enum ObjKind : u8 { OK_GLOBAL, OK_STACK, OK_HEAP };
struct Obj {
  u32 ref = 0; u32 id = 0; u32 size = 0; ObjKind kind = OK_GLOBAL; bool ro = false; bool hasSym = false; bool hasUninit = false;
  const char *name = "";
  std::vector<u8> b; std::vector<Expr *> s; std::vector<u8> un;
  u64 base() const { return ((u64)id << 32) | OFF0; }
};
struct ObjRef {
  Obj *p;
  ObjRef() : p(0) {} ObjRef(Obj *o) : p(o) { if (p) p->ref++; }
  ObjRef(const ObjRef &o) : p(o.p) { if (p) p->ref++; }
  ObjRef(ObjRef &&o) noexcept : p(o.p) { o.p = 0; }
  ObjRef &operator=(ObjRef o) { std::swap(p, o.p); return *this; }
  ~ObjRef() { if (p && --p->ref == 0) delete p; }
};

// ---------------------------------------------------------------- code
enum OpK : u8 { O_REG, O_CONST, O_UNDEF };
struct Opnd { OpK k; u32 r; u64 c; };
enum ICode : u8 { I_BIN, I_ICMP, I_ALLOCA, I_LOAD, I_STORE, I_GEP, I_ZEXT, I_SEXT, I_TRUNC, I_MOV, I_SELECT, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_UNREACH, I_UNSUP };
struct Edge { u32 pc; std::vector<std::pair<u32, Opnd>> moves; u32 bb; };
struct CallInfo { struct Func *f; int builtin; std::vector<Opnd> args; std::vector<u8> aw; Opnd callee; std::string name; bool vararg; unsigned nfixed; };
struct SwitchInfo { std::vector<std::pair<u64, u32>> cases; u32 def; };
struct Inst {
  ICode op; u8 k; u8 w, w2; bool hasDst; u32 dst; Opnd a, b, c; u32 t1, t2; u64 imm; std::vector<std::pair<Opnd, std::pair<u8, u64>>> *gep; CallInfo *call; SwitchInfo *sw; u32 line; const char *file; std::string *txt;
};
struct Func {
  Function *F; std::string name; u32 idx; bool decoded = false; u32 nregs = 0, nargs = 0; std::vector<u8> argw; bool vararg = false;
  std::vector<Inst> code; std::vector<Edge> edges; std::vector<u32> bbpc; const char *file = ""; bool executed = false; std::vector<u8> bbcov; u32 id;
};

struct Frame { Func *f; u32 pc; u32 cur; std::vector<V> regs; std::vector<u32> allocas; bool wantRet; u32 retDst; u64 va; u64 stk = 0; };
struct InputRec { u32 var; const char *name; bool undef; u8 kind; };
struct LogRec { V v; };
struct State {
  std::vector<Frame> st; std::vector<std::pair<u32, ObjRef>> objs; std::vector<Expr *> pc; std::vector<u8> model; u32 nvars = 0; u32 nextObj = 0;
  std::vector<InputRec> inputs; std::vector<V> log; std::vector<std::pair<u8,bool>> known; VarSet knownSet; u64 steps = 0; u32 nforks = 0;
  u64 stkLive = 0, stkPeak = 0, stkBase = 0; bool sealed = false;   // bytes of stack in use: variables, and FRAME_COST per call
};
static const u64 FRAME_COST = 64;

// ---------------------------------------------------------------- globals of the engine
static LLVMContext C; static std::unique_ptr<Module> M; static const DataLayout *DL;
static std::vector<Func *> g_funcs; static std::unordered_map<Function *, Func *> g_fmap;
static std::unordered_map<const GlobalVariable *, u64> g_gaddr; static std::vector<ObjRef> g_const; // by id
static const u32 FREG = 0x7f000000;   // function pointer regions
static Solver S;
static double g_deadline; static u64 g_maxsteps = 20000000; static unsigned g_maxviol = 3; static unsigned g_samples = 6; static unsigned g_jobs = 1, g_frontier = 0;
static u64 g_maxpaths = 0;
static std::string g_entry = "main", g_out;
static u64 g_seed = 1;
static std::set<std::string> g_reach; static std::set<std::string> g_incomplete;
struct Shared { volatile u32 next; volatile u32 nviol; volatile u32 stop; volatile u32 nsamples; volatile u64 paths; };
static Shared *g_sh;
struct Viol { std::string kind, msg, where, stack; std::vector<std::pair<std::string, u8>> in; std::vector<u64> log; };
static std::vector<Viol> g_viol; struct Sample { std::vector<std::pair<std::string, u8>> in; std::vector<u64> log; u64 steps; }; static std::vector<Sample> g_samp;
static std::vector<std::unique_ptr<State>> g_stack; static std::deque<std::unique_ptr<State>> g_queue; static bool g_bfs = false;
static std::unordered_map<std::string, std::unique_ptr<std::string>> g_intern;
static const char *intern(const std::string &s) { auto &p = g_intern[s]; if (!p) p.reset(new std::string(s)); return p->c_str(); }

static void pushState(std::unique_ptr<State> s) { if (g_bfs) g_queue.push_back(std::move(s)); else g_stack.push_back(std::move(s)); }

struct PathEnd {};           // terminates the current path
static State *cur;

// ---------------------------------------------------------------- loading
enum Builtin { B_NONE = 0, B_SYM_BYTES, B_SYM_CHOICE, B_ASSUME, B_CHECK, B_REACH, B_LOG, B_MALLOC, B_FREE, B_STRCMP, B_STRNCMP, B_MEMCMP, B_MEMCPY, B_MEMSET, B_ABORT, B_NOP, B_VASTART, B_VACOPY, B_STACKSAVE, B_STACKRESTORE, B_ISSYM, B_EXIT, B_CONC, B_ABS, B_SMAX, B_SMIN, B_UMAX, B_UMIN, B_ASSERTFAIL, B_USUBSAT, B_EXPECT, B_STEPMARK, B_BSWAP, B_FSHL, B_FSHR, B_CTPOP, B_CTLZ, B_CTTZ, B_MODELVAL, B_STKMARK, B_STKPEAK, B_SEAL };
static int builtinFor(StringRef n) {
  static const std::map<std::string, int> m = {
    {"sym_bytes_", B_SYM_BYTES}, {"sym_choice_", B_SYM_CHOICE}, {"sym_assume", B_ASSUME}, {"sym_check_", B_CHECK}, {"sym_reach", B_REACH}, {"sym_log", B_LOG},
    {"malloc", B_MALLOC}, {"free", B_FREE}, {"strcmp", B_STRCMP}, {"strncmp", B_STRNCMP}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET},
    {"abort", B_ABORT}, {"__assert_fail", B_ABORT}, {"exit", B_EXIT}, {"_exit", B_EXIT}, {"sym_is_symbolic", B_ISSYM}, {"sym_concretize", B_CONC}, {"ush_sym_assert_failed", B_ASSERTFAIL}, {"sym_step_mark", B_STEPMARK}, {"sym_model_value", B_MODELVAL}, {"sym_stack_mark", B_STKMARK}, {"sym_stack_peak", B_STKPEAK}, {"sym_heap_seal", B_SEAL}};
  auto it = m.find(n.str()); if (it != m.end()) return it->second;
  if (n.starts_with("llvm.")) {
    if (n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove")) return B_MEMCPY;
    if (n.starts_with("llvm.memset")) return B_MEMSET;
    if (n.starts_with("llvm.va_start")) return B_VASTART;
    if (n.starts_with("llvm.va_copy")) return B_VACOPY;
    if (n.starts_with("llvm.stacksave")) return B_STACKSAVE;
    if (n.starts_with("llvm.stackrestore")) return B_STACKRESTORE;
    if (n.starts_with("llvm.trap") || n.starts_with("llvm.ubsantrap")) return B_ABORT;
    if (n.starts_with("llvm.abs")) return B_ABS; if (n.starts_with("llvm.smax")) return B_SMAX; if (n.starts_with("llvm.smin")) return B_SMIN;
    if (n.starts_with("llvm.umax")) return B_UMAX; if (n.starts_with("llvm.umin")) return B_UMIN; if (n.starts_with("llvm.expect")) return B_EXPECT;
    if (n.starts_with("llvm.bswap")) return B_BSWAP; if (n.starts_with("llvm.fshl")) return B_FSHL; if (n.starts_with("llvm.fshr")) return B_FSHR;
    if (n.starts_with("llvm.va_end") || n.starts_with("llvm.dbg") || n.starts_with("llvm.lifetime") || n.starts_with("llvm.assume") || n.starts_with("llvm.donothing") || n.starts_with("llvm.experimental.noalias")) return B_NOP;
  }
  return B_NONE;
}
static u64 funcAddr(Function *F) { return ((u64)(FREG + g_fmap[F]->idx) << 32) | OFF0; }
static u64 constVal(const Constant *c);
static unsigned tw(Type *t) {
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w <= 64) return w; }
  return 0;
}
static u64 gepConst(const GEPOperator *g) {
  APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "ushsym: nonconst gep expr\n"); exit(4); }
  return constVal(cast<Constant>(g->getPointerOperand())) + off.getSExtValue();
}
static u64 constVal(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) return ci->getValue().getZExtValue();
  if (isa<ConstantPointerNull>(c)) return 0;
  if (isa<UndefValue>(c)) return 0;
  if (auto *gv = dyn_cast<GlobalVariable>(c)) { auto it = g_gaddr.find(gv); if (it == g_gaddr.end()) { fprintf(stderr, "ushsym: unknown global %s\n", gv->getName().str().c_str()); exit(4); } return it->second; }
  if (auto *f = dyn_cast<Function>(c)) return funcAddr(const_cast<Function *>(f));
  if (auto *ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee());
  if (auto *g = dyn_cast<GEPOperator>(c)) return gepConst(g);
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    unsigned w = tw(ce->getType());
    switch (ce->getOpcode()) {
    case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::ZExt: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0)) & maskw(w);
    case Instruction::Trunc: return constVal(ce->getOperand(0)) & maskw(w);
    case Instruction::Add: return (constVal(ce->getOperand(0)) + constVal(ce->getOperand(1))) & maskw(w);
    case Instruction::Sub: return (constVal(ce->getOperand(0)) - constVal(ce->getOperand(1))) & maskw(w);
    default: break;
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "ushsym: unsupported constant %s\n", s.c_str()); exit(4);
}
static void initBytes(Obj *o, u64 off, const Constant *c) {
  Type *t = c->getType();
  if (c->isNullValue() || isa<UndefValue>(c)) return;
  if (auto *cs = dyn_cast<ConstantDataSequential>(c)) { unsigned es = cs->getElementByteSize(); for (unsigned i = 0; i < cs->getNumElements(); i++) { u64 v = cs->getElementAsInteger(i); for (unsigned k = 0; k < es; k++) o->b[off + i * es + k] = v >> (8 * k); } return; }
  if (auto *ca = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initBytes(o, off + i * es, ca->getOperand(i)); return; }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initBytes(o, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
  u64 v = constVal(c); u64 n = DL->getTypeStoreSize(t); for (unsigned k = 0; k < n; k++) o->b[off + k] = v >> (8 * k);
}

static Opnd mkop(std::unordered_map<const Value *, u32> &rm, Value *v) {
  Opnd o{O_CONST, 0, 0};
  if (isa<UndefValue>(v)) { o.k = O_UNDEF; return o; }
  if (auto *c = dyn_cast<Constant>(v)) { unsigned w = tw(c->getType()); o.c = constVal(c); if (w) o.c &= maskw(w); return o; }
  auto it = rm.find(v); if (it == rm.end()) { o.k = O_UNDEF; return o; }
  o.k = O_REG; o.r = it->second; return o;
}
static void decode(Func *f) {
  if (f->decoded) return; f->decoded = true;
  Function *F = f->F; std::unordered_map<const Value *, u32> rm; u32 n = 0;
  for (auto &a : F->args()) rm[&a] = n++;
  std::unordered_map<const BasicBlock *, u32> bbi; u32 nb = 0;
  for (auto &bb : *F) { bbi[&bb] = nb++; for (auto &i : bb) if (!i.getType()->isVoidTy()) rm[&i] = n++; }
  f->nregs = n; f->bbpc.resize(nb); f->bbcov.assign(nb, 0);
  auto edge = [&](BasicBlock *from, BasicBlock *to) -> u32 {
    Edge e; e.pc = 0; e.bb = bbi[to];
    for (auto &p : to->phis()) { e.moves.push_back({rm[&p], mkop(rm, p.getIncomingValueForBlock(from))}); if (e.moves.back().second.k == O_UNDEF) e.moves.back().second.r = tw(p.getType()); }
    f->edges.push_back(e); return f->edges.size() - 1;
  };
  for (auto &bb : *F) {
    f->bbpc[bbi[&bb]] = f->code.size();
    for (auto &i : bb) {
      if (isa<PHINode>(i)) continue;
      Inst x; memset((void *)&x, 0, sizeof x); x.op = I_UNSUP; x.line = 0; x.file = f->file;
      if (auto &dl = i.getDebugLoc()) { x.line = dl.getLine(); }
      x.w = tw(i.getType()); x.hasDst = !i.getType()->isVoidTy(); if (x.hasDst) x.dst = rm[&i];
      auto O = [&](unsigned k) { return mkop(rm, i.getOperand(k)); };
      if (auto *bo = dyn_cast<BinaryOperator>(&i)) {
        static const std::map<unsigned, Kind> km = {{Instruction::Add, K_ADD}, {Instruction::Sub, K_SUB}, {Instruction::Mul, K_MUL}, {Instruction::UDiv, K_UDIV}, {Instruction::SDiv, K_SDIV}, {Instruction::URem, K_UREM}, {Instruction::SRem, K_SREM}, {Instruction::And, K_AND}, {Instruction::Or, K_OR}, {Instruction::Xor, K_XOR}, {Instruction::Shl, K_SHL}, {Instruction::LShr, K_LSHR}, {Instruction::AShr, K_ASHR}};
        auto it = km.find(bo->getOpcode()); if (it != km.end() && x.w) { x.op = I_BIN; x.k = it->second; x.a = O(0); x.b = O(1); }
      } else if (auto *ic = dyn_cast<ICmpInst>(&i)) {
        x.w2 = tw(ic->getOperand(0)->getType()); if (x.w2) { x.op = I_ICMP; x.k = ic->getPredicate(); x.a = O(0); x.b = O(1); }
      } else if (auto *al = dyn_cast<AllocaInst>(&i)) {
        x.op = I_ALLOCA; x.imm = DL->getTypeAllocSize(al->getAllocatedType()); x.a = O(0); x.txt = new std::string(al->getName().str() + "@" + f->name);
      } else if (auto *ld = dyn_cast<LoadInst>(&i)) { if (x.w) { x.op = I_LOAD; x.a = O(0); x.imm = DL->getTypeStoreSize(ld->getType()); }
      } else if (auto *sto = dyn_cast<StoreInst>(&i)) { x.w = tw(sto->getValueOperand()->getType()); if (x.w) { x.op = I_STORE; x.a = O(0); x.b = O(1); x.imm = DL->getTypeStoreSize(sto->getValueOperand()->getType()); }
      } else if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
        x.op = I_GEP; x.a = O(0); x.gep = new std::vector<std::pair<Opnd, std::pair<u8, u64>>>(); u64 off = 0;
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
          Value *ix = gi.getOperand();
          if (StructType *stt = gi.getStructTypeOrNull()) { off += DL->getStructLayout(stt)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
          u64 es = DL->getTypeAllocSize(gi.getIndexedType());
          if (auto *ci = dyn_cast<ConstantInt>(ix)) off += (u64)ci->getSExtValue() * es;
          else x.gep->push_back({mkop(rm, ix), {(u8)tw(ix->getType()), es}});
        }
        x.imm = off;
      } else if (isa<ZExtInst>(i) || isa<SExtInst>(i) || isa<TruncInst>(i) || isa<PtrToIntInst>(i) || isa<IntToPtrInst>(i) || isa<BitCastInst>(i) || isa<FreezeInst>(i)) {
        x.w2 = tw(i.getOperand(0)->getType()); x.a = O(0);
        if (x.w && x.w2) { if (isa<SExtInst>(i)) x.op = I_SEXT; else if (x.w > x.w2) x.op = I_ZEXT; else if (x.w < x.w2) x.op = I_TRUNC; else x.op = I_MOV; }
      } else if (isa<SelectInst>(i)) { if (x.w) { x.op = I_SELECT; x.a = O(0); x.b = O(1); x.c = O(2); x.k = i.getType()->isPointerTy(); }
      } else if (auto *br = dyn_cast<BranchInst>(&i)) {
        if (br->isUnconditional()) { x.op = I_BR; x.t1 = edge(&bb, br->getSuccessor(0)); }
        else { x.op = I_CBR; x.a = O(0); x.t1 = edge(&bb, br->getSuccessor(0)); x.t2 = edge(&bb, br->getSuccessor(1)); }
      } else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
        x.w2 = tw(sw->getCondition()->getType());
        if (x.w2) { x.op = I_SWITCH; x.a = O(0); x.sw = new SwitchInfo(); x.sw->def = edge(&bb, sw->getDefaultDest()); std::map<BasicBlock *, u32> em; em[sw->getDefaultDest()] = x.sw->def;
          for (auto &cs : sw->cases()) { auto *d = cs.getCaseSuccessor(); if (!em.count(d)) em[d] = edge(&bb, d); x.sw->cases.push_back({cs.getCaseValue()->getZExtValue(), em[d]}); } }
      } else if (auto *rt = dyn_cast<ReturnInst>(&i)) { x.op = I_RET; if (rt->getReturnValue()) { x.a = O(0); x.w = tw(rt->getReturnValue()->getType()); x.k = 1; if (!x.w) x.op = I_UNSUP; }
      } else if (isa<UnreachableInst>(i)) { x.op = I_UNREACH;
      } else if (auto *cb = dyn_cast<CallInst>(&i)) {
        x.op = I_CALL; auto *ci = x.call = new CallInfo(); ci->f = 0; ci->builtin = 0; ci->callee = Opnd{O_CONST, 0, 0};
        bool dbg = isa<DbgInfoIntrinsic>(i);
        Value *cv = cb->getCalledOperand()->stripPointerCastsAndAliases();
        if (auto *cf = dyn_cast<Function>(cv)) {
          ci->name = cf->getName().str(); ci->builtin = dbg ? B_NOP : builtinFor(cf->getName());
          ci->f = g_fmap[cf];
        } else ci->callee = mkop(rm, cv);
        ci->vararg = cb->getFunctionType()->isVarArg(); ci->nfixed = cb->getFunctionType()->getNumParams();
        if (!dbg) for (auto &a : cb->args()) { if (a->getType()->isMetadataTy()) { ci->args.push_back(Opnd{O_CONST,0,0}); ci->aw.push_back(64); continue; } ci->args.push_back(mkop(rm, a)); ci->aw.push_back(tw(a->getType())); if (!tw(a->getType())) ci->builtin = -1; }
        if (x.hasDst && !x.w) ci->builtin = -1;
        if (ci->builtin == B_NOP && !x.hasDst) continue;
      }
      if (x.op == I_UNSUP) { std::string s; raw_string_ostream os(s); i.print(os); x.txt = new std::string(f->name + ": " + s); }
      f->code.push_back(x);
    }
  }
  for (auto &e : f->edges) e.pc = f->bbpc[e.bb];
}

// ---------------------------------------------------------------- error reporting
static std::string whereAmI() {
  for (size_t i = cur->st.size(); i-- > 0;) { Frame &fr = cur->st[i]; u32 pc = fr.cur; std::ostringstream o; if (pc < fr.f->code.size()) { o << fr.f->name << " (" << fr.f->file << ":" << fr.f->code[pc].line << ")"; return o.str(); } }
  return "?";
}
static std::string stackTrace() {
  std::ostringstream o; for (size_t i = cur->st.size(); i-- > 0;) { Frame &fr = cur->st[i]; u32 pc = fr.cur; if (o.tellp() > 0) o << " < "; o << fr.f->name; if (pc < fr.f->code.size()) o << ":" << fr.f->code[pc].line; } return o.str();
}
static u64 evV(const V &v, const std::vector<u8> &m) { return v.e ? evalExpr(v.e, m) : v.c; }
static void collect(std::vector<std::pair<std::string, u8>> &in, std::vector<u64> &log, const std::vector<u8> &m) {
  for (auto &r : cur->inputs) in.push_back({std::string(r.undef ? "undef:" : "") + r.name, r.var < m.size() ? m[r.var] : 0});
  for (auto &v : cur->log) log.push_back(evV(v, m));
}
static void violation(const char *kind, const std::string &msg, const std::vector<u8> &m) {
  std::string w = whereAmI();
  for (auto &v : g_viol) if (v.kind == kind && v.where == w && v.msg == msg) return;
  Viol v; v.kind = kind; v.msg = msg; v.where = w; v.stack = stackTrace(); collect(v.in, v.log, m); g_viol.push_back(v);
  __sync_fetch_and_add(&g_sh->nviol, 1);
}
static void incomplete(const std::string &why) { g_incomplete.insert(why); }

// ---------------------------------------------------------------- constraints
static void addC(State *s, Expr *e) {
  if (isC(e)) return;
  if (e->k == K_AND && e->width == 1) { addC(s, e->a); addC(s, e->b); return; }
  if (e->k == K_XOR && isC(e->b) && e->a->k == K_OR && e->a->width == 1) { addC(s, eNot(e->a->a)); addC(s, eNot(e->a->b)); return; }
  if (e->k == K_EQ && e->a->k == K_VAR && isC(e->b)) {
    u32 v = e->a->c; if (s->known.size() <= v) s->known.resize(v + 1, {0, false}); s->known[v] = {(u8)e->b->c, true}; s->knownSet.set(v);
  }
  for (auto *x : s->pc) if (x == e) return;
  s->pc.push_back(e);
}
static inline bool allKnown(State *s, Expr *e) { return e->vars.subsetOf(s->knownSet); }
static V simp(State *s, V v) { if (v.e && allKnown(s, v.e)) return V(evalExpr(v.e, s->model)); return v; }
// can e be true on the current path?  on sat, *m receives a full model
static int feasible(State *s, Expr *e, std::vector<u8> *m) {
  if (isC(e)) { if (m) *m = s->model; return e->c ? 1 : 0; }
  if (allKnown(s, e)) { if (m) *m = s->model; return evalExpr(e, s->model) ? 1 : 0; }
  if (evalExpr(e, s->model)) { if (m) *m = s->model; return 1; }
  std::vector<u8> mm = s->model;
  int r = S.check(s->pc, e, &mm);
  if (r < 0) { incomplete("solver returned unknown"); return 0; }
  if (r == 1 && m) *m = mm;
  return r;
}
static std::unique_ptr<State> clone(State *s) { g_st.forks++; std::unique_ptr<State> n(new State(*s)); n->nforks++; return n; }

// Decide a boolean on the current path; forks if both outcomes are possible.
// The returned value is the outcome taken by the current state.  The forked state re-executes
// the current instruction (its frame pc still points at it) under the opposite constraint.
static bool decide(V v) {
  if (!v.e) return v.c & 1;
  Expr *e = v.e;
  if (allKnown(cur, e)) return evalExpr(e, cur->model);
  bool t = evalExpr(e, cur->model);
  Expr *other = t ? eNot(e) : e;
  std::vector<u8> m;
  if (feasible(cur, other, &m) == 1) {
    auto n = clone(cur); n->model = m; addC(n.get(), other); pushState(std::move(n));
    addC(cur, t ? e : eNot(e));
  }
  return t;
}
static void checkMust(V ok, const char *kind, const std::string &msg) {
  if (!ok.e) { if (!(ok.c & 1)) { violation(kind, msg, cur->model); throw PathEnd(); } return; }
  std::vector<u8> m;
  if (feasible(cur, eNot(ok.e), &m) == 1) {
    violation(kind, msg, m);
    if (feasible(cur, ok.e, &m) == 1) { cur->model = m; addC(cur, ok.e); } else throw PathEnd();
  }
}
// Concretise: current state takes its model's value, the rest is forked to be re-executed.
static u64 concretize(V v, unsigned w) {
  if (!v.e) return v.c;
  if (allKnown(cur, v.e)) return evalExpr(v.e, cur->model);
  u64 c = evalExpr(v.e, cur->model);
  Expr *eq = eBin(K_EQ, v.e, eConst(c, w)); std::vector<u8> m;
  if (feasible(cur, eNot(eq), &m) == 1) { auto n = clone(cur); n->model = m; addC(n.get(), eNot(eq)); pushState(std::move(n)); }
  addC(cur, eq); return c;
}

// ---------------------------------------------------------------- memory operations
static Obj *findObj(u64 addr, bool write, std::string *err) {
  u64 r = regionOf(addr);
  if (r >= FREG) { if (err) *err = "access to a function address"; return 0; }
  if (r < g_const.size() && g_const[r].p) { if (write) { if (err) *err = std::string("write to read-only object ") + g_const[r].p->name; return 0; } return g_const[r].p; }
  auto &v = cur->objs; size_t lo = 0, hi = v.size();
  while (lo < hi) { size_t mid = (lo + hi) / 2; if (v[mid].first < r) lo = mid + 1; else hi = mid; }
  if (lo < v.size() && v[lo].first == r) {
    Obj *o = v[lo].second.p;
    if (write && o->ref > 1) { Obj *n = new Obj(*o); n->ref = 0; v[lo].second = ObjRef(n); o = n; }
    return o;
  }
  if (err) *err = r == 0 ? (addr < OFF0 ? "null pointer dereference" : "wild pointer") : (r < cur->nextObj ? "access to a dead object (use after return/free)" : "wild pointer");
  return 0;
}
static u32 newObj(u32 size, ObjKind k, const char *name, bool uninit) {
  Obj *o = new Obj(); o->id = cur->nextObj++; o->size = size; o->kind = k; o->name = name; o->b.assign(size, 0);
  if (uninit && size) { o->un.assign(size, 1); o->hasUninit = true; }
  cur->objs.push_back({o->id, ObjRef(o)}); return o->id;
}
static void useStack(Frame &fr, u64 n) { fr.stk += n; cur->stkLive += n; if (cur->stkLive > cur->stkPeak) cur->stkPeak = cur->stkLive; }
static u64 objSize(u32 id) { auto &v = cur->objs; for (size_t i = v.size(); i-- > 0;) if (v[i].first == id) return v[i].second.p->size; return 0; }
static void freeObj(u32 id) { auto &v = cur->objs; for (size_t i = v.size(); i-- > 0;) { if (v[i].first == id) { v.erase(v.begin() + i); return; } if (v[i].first < id) return; } }
static Expr *freshVar(const char *name, bool undef, u8 kind) { u32 v = cur->nvars++; cur->inputs.push_back({v, name, undef, kind}); if (cur->model.size() <= v) cur->model.resize(v + 1, 0); return eVar(v); }
static std::string oobMsg(Obj *o, u64 addr, u64 n, bool w) {
  std::ostringstream s; s << "out-of-bounds " << (w ? "write" : "read") << " of " << n << " byte(s) at offset " << (int64_t)(addr - o->base()) << " of object '" << o->name << "' of size " << o->size; return s.str();
}
static Obj *access(u64 addr, u64 n, bool w, const char *what = 0) {
  g_st.memchecks++;
  std::string err; Obj *o = findObj(addr, w, &err);
  if (!o) { violation("memory", err + (w ? " (write)" : " (read)"), cur->model); throw PathEnd(); }
  u64 off = addr - o->base();
  if (off > o->size || o->size - off < n) { violation("memory", oobMsg(o, addr, n, w), cur->model); throw PathEnd(); }
  return o;
}
static inline V rdByte(Obj *&o, u64 off) {
  if (o->hasUninit && o->un[off]) {
    // reading an indeterminate byte: an arbitrary but stable value
    std::string nm = std::string(o->name);
    Expr *e = freshVar(o->name, true, 0);
    if (!(o->id < g_const.size() && g_const[o->id].p)) { std::string er; o = findObj(o->base(), true, &er); }
    if (!o->hasSym) { o->s.assign(o->size, 0); o->hasSym = true; }
    o->un[off] = 0; o->s[off] = e; return V(e);
  }
  if (o->hasSym && o->s[off]) {
    Expr *e = o->s[off];
    if (e->k == K_VAR) { u32 v = e->c; if (v < cur->known.size() && cur->known[v].second) return V((u64)cur->known[v].first); }
    return V(e);
  }
  return V((u64)o->b[off]);
}
static inline void wrByte(Obj *o, u64 off, V v) {
  if (o->hasUninit) o->un[off] = 0;
  if (v.e) { if (!o->hasSym) { o->s.assign(o->size, 0); o->hasSym = true; } o->s[off] = v.e; }
  else { o->b[off] = (u8)v.c; if (o->hasSym) o->s[off] = 0; }
}
static V loadC(u64 addr, unsigned n, unsigned w) {
  Obj *o = access(addr, n, false); u64 off = addr - o->base();
  if (!o->hasSym && !o->hasUninit) { u64 v = 0; for (unsigned i = 0; i < n; i++) v |= (u64)o->b[off + i] << (8 * i); return V(v & maskw(w)); }
  bool sym = false; V bs[8]; for (unsigned i = 0; i < n; i++) { bs[i] = rdByte(o, off + i); if (bs[i].e) sym = true; }
  if (!sym) { u64 v = 0; for (unsigned i = 0; i < n; i++) v |= bs[i].c << (8 * i); return V(v & maskw(w)); }
  Expr *e = toE(bs[n - 1], 8); for (int i = (int)n - 2; i >= 0; i--) e = eConcat(e, toE(bs[i], 8));
  if (w < 8 * n) e = eExtract(e, 0, w);
  return V(e);
}
static void storeC(u64 addr, unsigned n, unsigned w, V v) {
  Obj *o = access(addr, n, true); u64 off = addr - o->base();
  if (!v.e) { for (unsigned i = 0; i < n; i++) wrByte(o, off + i, V((u64)(u8)(v.c >> (8 * i)))); return; }
  Expr *e = v.e; if (w < 8 * n) e = eZext(e, 8 * n);
  for (unsigned i = 0; i < n; i++) wrByte(o, off + i, V(eExtract(e, 8 * i, 8)));
}
static V loadV(V a, unsigned n, unsigned w) {
  if (a.e) a = simp(cur, a);
  if (!a.e) return loadC(a.c, n, w);
  // symbolic address: inside one small object -> ITE over offsets
  u64 c = evalExpr(a.e, cur->model); std::string err; Obj *o = findObj(c, false, &err);
  if (o && o->size <= 1024 && o->size >= n) {
    Expr *off = eBin(K_SUB, a.e, eConst(o->base(), 64));
    Expr *inb = eBin(K_ULE, off, eConst(o->size - n, 64)); std::vector<u8> m;
    if (feasible(cur, eNot(inb), &m) == 1) {
      // fork: the other part re-executes (and either hits another object or is reported)
      auto nn = clone(cur); nn->model = m; addC(nn.get(), eNot(inb)); pushState(std::move(nn));
      if (feasible(cur, inb, &m) != 1) throw PathEnd();
      cur->model = m; addC(cur, inb);
    }
    V r; bool first = true; u32 id = o->id;
    for (int64_t k = o->size - n; k >= 0; k--) {
      Expr *eq = eBin(K_EQ, off, eConst(k, 64)); if (isC(eq) && !eq->c) continue;
      if (!first) { if (n == 1) { } }
      // skip clearly infeasible offsets cheaply when the range is large
      V b = loadC(((u64)id << 32 | OFF0) + k, n, w);
      if (first) { r = b; first = false; } else if (b.e || r.e || b.c != r.c) r = V(eIte(eq, toE(b, w), toE(r, w)));
    }
    return r;
  }
  return loadC(concretize(a, 64), n, w);
}
static void storeV(V a, unsigned n, unsigned w, V v) { if (a.e) a = V(concretize(a, 64)); storeC(a.c, n, w, v); }

static std::string cstr(u64 a) { std::string s; for (;;) { V v = loadC(a++, 1, 8); u64 c = v.e ? evalExpr(v.e, cur->model) : v.c; if (!c) break; s += (char)c; if (s.size() > 500) break; } return s; }

// string comparison as one expression (no forks unless reading past the end is possible)
static V strCompare(u64 a, u64 b, u64 maxn, bool stopNul) {
  struct It { V ca, cb; }; std::vector<It> its; Expr *guard = eConst(1, 1);
  auto guardFeasible = [&]() -> bool { if (isC(guard)) return guard->c; return feasible(cur, guard, 0) == 1; };
  for (u64 i = 0; i < maxn; i++) {
    // is another byte readable on both sides?
    for (int side = 0; side < 2; side++) {
      u64 p = (side ? b : a) + i; std::string err; Obj *o = findObj(p, false, &err);
      bool ok = o && p - o->base() < o->size;
      if (!ok) {
        std::vector<u8> m; int r = isC(guard) ? (int)guard->c : feasible(cur, guard, &m);
        if (isC(guard)) m = cur->model;
        if (r == 1) { violation("memory", o ? oobMsg(o, p, 1, false) : err, m); throw PathEnd(); }
        goto done;
      }
    }
    {
      V ca = loadC(a + i, 1, 8), cb = loadC(b + i, 1, 8); its.push_back({ca, cb});
      if (!ca.e && !cb.e) { if (ca.c != cb.c) break; if (stopNul && ca.c == 0) break; continue; }
      Expr *ea = toE(ca, 8), *eb = toE(cb, 8);
      Expr *g = eBin(K_EQ, ea, eb); if (stopNul) g = eBin(K_AND, g, eNot(eBin(K_EQ, ea, eConst(0, 8))));
      guard = eBin(K_AND, guard, g);
      if (isC(guard) && !guard->c) break;
      if (its.size() > 4 && (its.size() & 7) == 0 && !guardFeasible()) break;
    }
  }
done:
  Expr *r = eConst(0, 32);
  for (size_t i = its.size(); i-- > 0;) {
    Expr *ea = toE(its[i].ca, 8), *eb = toE(its[i].cb, 8);
    Expr *ne = eNot(eBin(K_EQ, ea, eb)); Expr *df = eBin(K_SUB, eZext(ea, 32), eZext(eb, 32));
    if (stopNul) r = eIte(eBin(K_EQ, ea, eConst(0, 8)), eConst(0, 32), r);
    r = eIte(ne, df, r);
  }
  return V(r);
}

// ---------------------------------------------------------------- interpreter
static Expr *const UNDEF = (Expr *)calloc(1, sizeof(Expr));      // an undefined value nobody has used yet
static V undefV(unsigned w) {                                    // undef: an arbitrary value
  unsigned n = (w + 7) / 8; Expr *e = freshVar("undef-value", true, 0);
  for (unsigned i = 1; i < n; i++) e = eConcat(freshVar("undef-value", true, 0), e);
  if (e->width > w) e = eExtract(e, 0, w);
  return V(e);
}
static inline V opv(Frame &fr, const Opnd &o, unsigned w) {
  if (o.k == O_REG) { V &v = fr.regs[o.r]; if (__builtin_expect(v.e == UNDEF, 0)) v = undefV(w); return v; }
  if (o.k == O_CONST) return V(o.c);
  return undefV(w);
}
static inline V opvMove(Frame &fr, const Opnd &o) {
  if (o.k == O_REG) return fr.regs[o.r];
  if (o.k == O_CONST) return V(o.c);
  V v; v.e = UNDEF; return v;
}
static void takeEdge(Frame &fr, u32 ei) {
  Edge &e = fr.f->edges[ei]; fr.pc = e.pc; fr.f->bbcov[e.bb] = 1;
  size_t n = e.moves.size(); if (!n) return;
  if (n == 1) { fr.regs[e.moves[0].first] = opvMove(fr, e.moves[0].second); return; }
  std::vector<V> t(n); for (size_t i = 0; i < n; i++) t[i] = opvMove(fr, e.moves[i].second);
  for (size_t i = 0; i < n; i++) fr.regs[e.moves[i].first] = t[i];
}
static void enter(Func *f, std::vector<V> &args, bool wantRet, u32 retDst, const CallInfo *ci) {
  decode(f);
  if (cur->st.size() > 400) { violation("recursion", "call depth limit exceeded", cur->model); throw PathEnd(); }
  f->executed = true; f->bbcov[0] = 1;
  Frame fr; fr.f = f; fr.pc = 0; fr.cur = 0; fr.regs.resize(f->nregs); fr.wantRet = wantRet; fr.retDst = retDst; fr.va = 0;
  for (u32 i = 0; i < f->nargs && i < args.size(); i++) fr.regs[i] = args[i];
  if (f->vararg && ci) {
    u32 n = args.size() > f->nargs ? args.size() - f->nargs : 0; u32 id = newObj(n ? n * 8 : 0, OK_STACK, "variadic-arguments", false); fr.allocas.push_back(id);
    u64 base = ((u64)id << 32) | OFF0; fr.va = base;
    useStack(fr, n * 8);
    for (u32 i = 0; i < n; i++) { V v = args[f->nargs + i]; unsigned w = ci->aw[f->nargs + i]; if (v.e && w < 64) v = V(eZext(v.e, 64)); storeC(base + 8 * i, 8, 64, v); }
  }
  useStack(fr, FRAME_COST); cur->st.push_back(std::move(fr));
}
static void pathDone() {
  g_st.paths++; __sync_fetch_and_add(&g_sh->paths, 1); if (cur->steps > g_st.maxsteps) g_st.maxsteps = cur->steps;
  // reservoir of samples spread over the exploration
  static u64 nextSample = 0, stride = 1;
  if (g_st.paths > nextSample) { Sample s; collect(s.in, s.log, cur->model); s.steps = cur->steps; g_samp.push_back(s); nextSample = g_st.paths + stride;
    if (g_samp.size() >= 2 * g_samples) { std::vector<Sample> k; for (size_t i = 0; i < g_samp.size(); i += 2) k.push_back(g_samp[i]); g_samp.swap(k); stride *= 2; } }
}

static bool callBuiltin(Frame &fr, Inst &x, CallInfo *ci, std::vector<V> &a) {
  V r; bool has = false;
  switch (ci->builtin) {
  case B_NOP: has = true; break;
  case B_SYM_BYTES: { u64 p = concretize(a[0], 64), n = concretize(a[1], 64); const char *nm = intern(cstr(a[2].c)); for (u64 i = 0; i < n; i++) storeC(p + i, 1, 8, V(freshVar(nm, false, 1))); break; }
  case B_SYM_CHOICE: {
    u64 n = concretize(a[0], 64); const char *nm = intern(cstr(a[1].c)); if (n < 1 || n > 256) { incomplete("bad choice size"); throw PathEnd(); }
    u32 vi = cur->nvars; Expr *v = freshVar(nm, false, 2);
    fr.pc++;  // forked states continue after the call
    for (u64 k = n; k-- > 1;) { auto s = clone(cur); s->model[vi] = k; addC(s.get(), eBin(K_EQ, v, eConst(k, 8))); s->st.back().regs[x.dst] = V(k); pushState(std::move(s)); }
    cur->model[vi] = 0; addC(cur, eBin(K_EQ, v, eConst(0, 8))); fr.regs[x.dst] = V((u64)0); return true;
  }
  case B_ASSUME: {
    V c = simp(cur, a[0]); unsigned w = ci->aw[0];
    if (!c.e) { if (!c.c) throw PathEnd(); break; }
    Expr *e = w == 1 ? c.e : eNot(eBin(K_EQ, c.e, eConst(0, w))); std::vector<u8> m;
    if (feasible(cur, e, &m) != 1) throw PathEnd();
    cur->model = m; addC(cur, e); break;
  }
  case B_CHECK: {
    g_st.checks++;
    V c = simp(cur, a[0]); unsigned w = ci->aw[0]; std::string msg = cstr(a[1].c);
    if (c.e && w > 1) c = V(eNot(eBin(K_EQ, c.e, eConst(0, w)))); else if (!c.e) c = V((u64)(c.c != 0));
    checkMust(c, "check", msg); break;
  }
  case B_REACH: g_reach.insert(cstr(a[0].c)); break;
  case B_LOG: { V v = a[0]; cur->log.push_back(v); break; }
  case B_STKMARK: cur->stkBase = cur->stkPeak = cur->stkLive; break;
  case B_STKPEAK: r = V(cur->stkPeak - cur->stkBase); has = true; break;
  case B_SEAL: cur->sealed = concretize(a[0], ci->aw[0]) != 0; break;
  case B_MALLOC: { u64 n = concretize(a[0], 64); if (cur->sealed) { violation("memory", "dynamic allocation", cur->model); throw PathEnd(); } if (n > (1u << 24)) { incomplete("huge allocation"); throw PathEnd(); } u32 id = newObj(n, OK_HEAP, "malloc", true); r = V(((u64)id << 32) | OFF0); has = true; break; }
  case B_FREE: { u64 p = concretize(a[0], 64); if (p) { Obj *o = access(p, 0, false); if (o->base() != p || o->kind != OK_HEAP) { violation("memory", "invalid free", cur->model); throw PathEnd(); } freeObj(o->id); } break; }
  case B_STRCMP: r = strCompare(concretize(a[0], 64), concretize(a[1], 64), ~0ull, true); has = true; break;
  case B_STRNCMP: r = strCompare(concretize(a[0], 64), concretize(a[1], 64), concretize(a[2], 64), true); has = true; break;
  case B_MEMCMP: { u64 n = concretize(a[2], 64); u64 p = concretize(a[0], 64), q = concretize(a[1], 64); if (n) { access(p, n, false); access(q, n, false); } r = strCompare(p, q, n, false); has = true; break; }
  case B_MEMCPY: {
    u64 n = concretize(a[2], 64), d = concretize(a[0], 64), s = concretize(a[1], 64); r = V(d); has = true; if (!n) break;
    Obj *so = access(s, n, false); Obj *dobj = access(d, n, true); so = access(s, n, false);
    if (ci->name.find("memcpy") != std::string::npos && so == dobj && s != d && !(s + n <= d || d + n <= s)) { violation("memory", "memcpy with overlapping ranges", cur->model); throw PathEnd(); }
    u64 doff = d - dobj->base(), soff = s - so->base();
    std::vector<u8> tb(so->b.begin() + soff, so->b.begin() + soff + n); std::vector<Expr *> ts(n, 0); std::vector<u8> tu(n, 0);
    if (so->hasSym) for (u64 i = 0; i < n; i++) ts[i] = so->s[soff + i];
    if (so->hasUninit) for (u64 i = 0; i < n; i++) tu[i] = so->un[soff + i];
    for (u64 i = 0; i < n; i++) { if (tu[i]) { if (!dobj->hasUninit) { dobj->un.assign(dobj->size, 0); dobj->hasUninit = true; } dobj->un[doff + i] = 1; if (dobj->hasSym) dobj->s[doff + i] = 0; } else wrByte(dobj, doff + i, ts[i] ? V(ts[i]) : V((u64)tb[i])); }
    break;
  }
  case B_MEMSET: { u64 d = concretize(a[0], 64), n = concretize(a[2], 64); r = V(d); has = true; if (!n) break; Obj *o = access(d, n, true); u64 off = d - o->base(); V v = a[1]; if (v.e) v = V(eExtract(v.e, 0, 8)); else v = V((u64)(u8)v.c); for (u64 i = 0; i < n; i++) wrByte(o, off + i, v); break; }
  case B_ABORT: violation("abort", "abort reached (" + ci->name + ")", cur->model); throw PathEnd();
  case B_ASSERTFAIL: { std::ostringstream o; o << "internal assertion failed"; violation("assert", o.str(), cur->model); throw PathEnd(); }
  case B_EXIT: violation("exit", "process exit called", cur->model); throw PathEnd();
  case B_VASTART: { u64 p = concretize(a[0], 64); storeC(p, 4, 32, V((u64)48)); storeC(p + 4, 4, 32, V((u64)304)); storeC(p + 8, 8, 64, V(fr.va)); storeC(p + 16, 8, 64, V((u64)0)); break; }
  case B_VACOPY: { u64 d = concretize(a[0], 64), s = concretize(a[1], 64); for (int i = 0; i < 24; i += 8) storeC(d + i, 8, 64, loadC(s + i, 8, 64)); break; }
  case B_STACKSAVE: r = V((u64)fr.allocas.size() + 1); has = true; break;
  case B_STACKRESTORE: { u64 n = concretize(a[0], 64); while (fr.allocas.size() + 1 > n) { u64 z = objSize(fr.allocas.back()); fr.stk -= z; cur->stkLive -= z; freeObj(fr.allocas.back()); fr.allocas.pop_back(); } break; }
  case B_ISSYM: r = V((u64)(a[0].e != 0)); has = true; break;
  case B_CONC: r = V(concretize(a[0], ci->aw[0])); has = true; break;
  case B_MODELVAL: r = V(evV(a[0], cur->model)); has = true; break;
  case B_STEPMARK: break;
  case B_EXPECT: r = a[0]; has = true; break;
  case B_SMAX: case B_SMIN: case B_UMAX: case B_UMIN: {
    unsigned w = x.w; Expr *p = toE(a[0], w), *q = toE(a[1], w); bool s = ci->builtin == B_SMAX || ci->builtin == B_SMIN, mx = ci->builtin == B_SMAX || ci->builtin == B_UMAX;
    Expr *lt = eBin(s ? K_SLT : K_ULT, p, q); r = V(mx ? eIte(lt, q, p) : eIte(lt, p, q)); has = true; break; }
  case B_ABS: { unsigned w = x.w; Expr *p = toE(a[0], w); r = V(eIte(eBin(K_SLT, p, eConst(0, w)), eBin(K_SUB, eConst(0, w), p), p)); has = true; break; }
  case B_BSWAP: { unsigned w = x.w; Expr *p = toE(a[0], w); Expr *o = eExtract(p, 0, 8); for (unsigned i = 8; i < w; i += 8) o = eConcat(o, eExtract(p, i, 8)); r = V(o); has = true; break; }
  default: incomplete("unsupported call to " + ci->name); throw PathEnd();
  }
  if (x.hasDst) fr.regs[x.dst] = has ? r : V((u64)0);
  fr.pc++;
  return true;
}

static void step() {
  Frame &fr = cur->st.back(); fr.cur = fr.pc; Inst &x = fr.f->code[fr.pc];
  g_st.insts++; cur->steps++;
  switch (x.op) {
  case I_BIN: {
    V a = opv(fr, x.a, x.w), b = opv(fr, x.b, x.w);
    if (x.k == K_UDIV || x.k == K_SDIV || x.k == K_UREM || x.k == K_SREM) checkMust(b.e ? V(eNot(eBin(K_EQ, b.e, eConst(0, x.w)))) : V((u64)(b.c != 0)), "arith", "division by zero");
    if (!a.e && !b.e) fr.regs[x.dst] = V(binop((Kind)x.k, a.c, b.c, x.w));
    else fr.regs[x.dst] = V(eBin((Kind)x.k, toE(a, x.w), toE(b, x.w)));
    fr.pc++; break;
  }
  case I_ICMP: {
    V a = opv(fr, x.a, x.w2), b = opv(fr, x.b, x.w2); unsigned w = x.w2;
    auto P = [&](Kind k, bool sw, bool ng) { if (!a.e && !b.e) { u64 r = sw ? binop(k, b.c, a.c, w) : binop(k, a.c, b.c, w); return V((u64)(ng ? !r : r)); } Expr *p = toE(a, w), *q = toE(b, w); Expr *e = sw ? eBin(k, q, p) : eBin(k, p, q); return V(ng ? eNot(e) : e); };
    V r;
    switch ((CmpInst::Predicate)x.k) {
    case CmpInst::ICMP_EQ: r = P(K_EQ, false, false); break; case CmpInst::ICMP_NE: r = P(K_EQ, false, true); break;
    case CmpInst::ICMP_ULT: r = P(K_ULT, false, false); break; case CmpInst::ICMP_UGE: r = P(K_ULT, false, true); break;
    case CmpInst::ICMP_UGT: r = P(K_ULT, true, false); break; case CmpInst::ICMP_ULE: r = P(K_ULT, true, true); break;
    case CmpInst::ICMP_SLT: r = P(K_SLT, false, false); break; case CmpInst::ICMP_SGE: r = P(K_SLT, false, true); break;
    case CmpInst::ICMP_SGT: r = P(K_SLT, true, false); break; case CmpInst::ICMP_SLE: r = P(K_SLT, true, true); break;
    default: incomplete("icmp predicate"); throw PathEnd();
    }
    fr.regs[x.dst] = r; fr.pc++; break;
  }
  case I_ALLOCA: {
    V n = opv(fr, x.a, 64); u64 c = concretize(n, 64); u64 sz = c * x.imm;
    if (c > (1u << 24) || sz > (1u << 24)) { violation("memory", "huge or negative stack allocation", cur->model); throw PathEnd(); }
    u32 id = newObj(sz, OK_STACK, x.txt->c_str(), true); fr.allocas.push_back(id); useStack(fr, sz); fr.regs[x.dst] = V(((u64)id << 32) | OFF0); fr.pc++; break;
  }
  case I_LOAD: { V r = loadV(opv(fr, x.a, 64), x.imm, x.w); Frame &f2 = cur->st.back(); f2.regs[x.dst] = r; f2.pc++; break; }
  case I_STORE: { storeV(opv(fr, x.b, 64), x.imm, x.w, opv(fr, x.a, x.w)); fr.pc++; break; }
  case I_GEP: {
    V b = opv(fr, x.a, 64); u64 off = x.imm; Expr *se = 0;
    for (auto &g : *x.gep) { V i = opv(fr, g.first, g.second.first); if (!i.e) off += (u64)sx(i.c, g.second.first) * g.second.second; else { Expr *t = eBin(K_MUL, eSext(i.e, 64), eConst(g.second.second, 64)); se = se ? eBin(K_ADD, se, t) : t; } }
    if (!b.e && !se) fr.regs[x.dst] = V(b.c + off);
    else { Expr *e = toE(b, 64); if (se) e = eBin(K_ADD, e, se); e = eBin(K_ADD, e, eConst(off, 64)); fr.regs[x.dst] = V(e); }
    fr.pc++; break;
  }
  case I_ZEXT: { V a = opv(fr, x.a, x.w2); fr.regs[x.dst] = a.e ? V(eZext(a.e, x.w)) : V(a.c); fr.pc++; break; }
  case I_SEXT: { V a = opv(fr, x.a, x.w2); fr.regs[x.dst] = a.e ? V(eSext(a.e, x.w)) : V((u64)sx(a.c, x.w2) & maskw(x.w)); fr.pc++; break; }
  case I_TRUNC: { V a = opv(fr, x.a, x.w2); fr.regs[x.dst] = a.e ? V(eExtract(a.e, 0, x.w)) : V(a.c & maskw(x.w)); fr.pc++; break; }
  case I_MOV: { fr.regs[x.dst] = opv(fr, x.a, x.w2); fr.pc++; break; }
  case I_SELECT: {
    V c = opv(fr, x.a, 1); c = simp(cur, c);
    if (!c.e) { fr.regs[x.dst] = (c.c & 1) ? opv(fr, x.b, x.w) : opv(fr, x.c, x.w); fr.pc++; break; }
    if (x.k) { bool t = decide(c); fr.regs[x.dst] = t ? opv(fr, x.b, x.w) : opv(fr, x.c, x.w); fr.pc++; break; }
    fr.regs[x.dst] = V(eIte(c.e, toE(opv(fr, x.b, x.w), x.w), toE(opv(fr, x.c, x.w), x.w))); fr.pc++; break;
  }
  case I_BR: takeEdge(fr, x.t1); break;
  case I_CBR: {
    V c = simp(cur, opv(fr, x.a, 1));
    if (!c.e) { takeEdge(fr, (c.c & 1) ? x.t1 : x.t2); break; }
    bool t = evalExpr(c.e, cur->model); Expr *mine = t ? c.e : eNot(c.e), *other = eNot(mine); std::vector<u8> m;
    if (feasible(cur, other, &m) == 1) {
      auto n = clone(cur); n->model = m; addC(n.get(), other); State *sv = cur; cur = n.get(); takeEdge(cur->st.back(), t ? x.t2 : x.t1); cur = sv; pushState(std::move(n));
      addC(cur, mine);
    }
    takeEdge(fr, t ? x.t1 : x.t2); break;
  }
  case I_SWITCH: {
    V v = simp(cur, opv(fr, x.a, x.w2));
    if (!v.e) { u32 t = x.sw->def; for (auto &c : x.sw->cases) if (c.first == v.c) { t = c.second; break; } takeEdge(fr, t); break; }
    // group cases by target
    std::map<u32, Expr *> g; Expr *any = eConst(0, 1);
    for (auto &c : x.sw->cases) { Expr *q = eBin(K_EQ, v.e, eConst(c.first, x.w2)); any = eBin(K_OR, any, q); if (c.second == x.sw->def) continue; auto it = g.find(c.second); if (it == g.end()) g[c.second] = q; else it->second = eBin(K_OR, it->second, q); }
    Expr *dflt = eConst(1, 1); for (auto &p : g) dflt = eBin(K_AND, dflt, eNot(p.second));
    g[x.sw->def] = dflt;
    u32 mine = x.sw->def; for (auto &p : g) if (evalExpr(p.second, cur->model)) { mine = p.first; break; }
    for (auto &p : g) if (p.first != mine) { std::vector<u8> m; if (feasible(cur, p.second, &m) == 1) { auto n = clone(cur); n->model = m; addC(n.get(), p.second); State *sv = cur; cur = n.get(); takeEdge(cur->st.back(), p.first); cur = sv; pushState(std::move(n)); } }
    addC(cur, g[mine]); takeEdge(fr, mine); break;
  }
  case I_RET: {
    V r; if (x.k) r = opv(fr, x.a, x.w);
    for (auto id : fr.allocas) freeObj(id);
    cur->stkLive -= fr.stk;
    bool want = fr.wantRet; u32 d = fr.retDst; cur->st.pop_back();
    if (cur->st.empty()) { pathDone(); throw PathEnd(); }
    Frame &p = cur->st.back(); if (want) p.regs[d] = r; break;
  }
  case I_CALL: {
    CallInfo *ci = x.call;
    if (ci->builtin < 0) { incomplete("unsupported call signature " + ci->name + " in " + fr.f->name); throw PathEnd(); }
    std::vector<V> args(ci->args.size()); for (size_t i = 0; i < args.size(); i++) args[i] = opv(fr, ci->args[i], ci->aw[i]);
    Func *f = ci->f;
    if (ci->builtin) { callBuiltin(fr, x, ci, args); break; }
    if (!f) {
      u64 t = concretize(opv(fr, ci->callee, 64), 64); u64 r = regionOf(t);
      if (r >= FREG && r - FREG < g_funcs.size() && (t & 0xffffffff) == OFF0) f = g_funcs[r - FREG];
      else { violation("memory", t == 0 ? "call through a null function pointer" : "call through a wild function pointer", cur->model); throw PathEnd(); }
      int b = builtinFor(f->name);
      if (b) { CallInfo tmp = *ci; tmp.builtin = b; tmp.name = f->name; callBuiltin(fr, x, &tmp, args); break; }
    }
    if (f->F->isDeclaration()) { incomplete("call to undefined external function " + f->name); throw PathEnd(); }
    fr.pc++;
    // a caller expecting a value from a void function (or narrower type) sees an arbitrary one
    bool want = x.hasDst; u32 d = x.dst;
    enter(f, args, want && !f->F->getReturnType()->isVoidTy(), d, ci);
    break;
  }
  case I_UNREACH: violation("abort", "unreachable code reached (undefined behaviour)", cur->model); throw PathEnd();
  case I_UNSUP: incomplete("unsupported instruction: " + (x.txt ? *x.txt : "")); throw PathEnd();
  }
}
// run cur until it ends; returns when path ends. Returns false on deadline/stop.
static bool runState(std::unique_ptr<State> s, bool oneFork) {
  cur = s.get(); u32 cnt = 0;
  try {
    for (;;) {
      if (++cnt >= 4096) { cnt = 0; if (nowS() > g_deadline) { incomplete("time limit"); return false; } if (g_sh->stop || g_sh->nviol >= g_maxviol) return false; }
      if (cur->steps > g_maxsteps) { violation("hang", "step limit per path exceeded (possible endless loop)", cur->model); throw PathEnd(); }
      step();
      if (oneFork && g_bfs && g_queue.size() && cur->nforks == 0 && false) return true;
    }
  } catch (PathEnd &) {}
  return true;
}

// ---------------------------------------------------------------- output
static std::string js(const std::string &s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
static void writeResult(const std::string &fn) {
  std::ofstream f(fn);
  f << "{\"paths\":" << g_st.paths << ",\"forks\":" << g_st.forks << ",\"insts\":" << g_st.insts << ",\"checks\":" << g_st.checks << ",\"memchecks\":" << g_st.memchecks << ",\"queries\":" << g_st.queries << ",\"z3calls\":" << g_st.z3calls << ",\"sat\":" << g_st.sat << ",\"unsat\":" << g_st.unsat << ",\"unknown\":" << g_st.unknown << ",\"cached\":" << g_st.cached << ",\"solver_s\":" << g_st.solver_s << ",\"maxsteps\":" << g_st.maxsteps;
  f << ",\n\"incomplete\":["; bool c = false; for (auto &s : g_incomplete) { if (c) f << ","; c = true; f << js(s); } f << "]";
  f << ",\n\"reach\":["; c = false; for (auto &s : g_reach) { if (c) f << ","; c = true; f << js(s); } f << "]";
  f << ",\n\"functions\":["; c = false; for (auto *fn : g_funcs) if (fn->executed) { if (c) f << ","; c = true; unsigned n = 0; for (auto b : fn->bbcov) n += b; f << "[" << js(fn->name) << "," << js(fn->file) << "," << n << "," << fn->bbcov.size() << ",["; bool d = false; for (size_t i = 0; i < fn->bbcov.size(); i++) if (fn->bbcov[i]) { if (d) f << ","; d = true; f << i; } f << "]]"; } f << "]";
  auto ins = [&](const std::vector<std::pair<std::string, u8>> &in) { f << "["; bool d = false; for (auto &p : in) { if (d) f << ","; d = true; f << "[" << js(p.first) << "," << (int)p.second << "]"; } f << "]"; };
  auto lg = [&](const std::vector<u64> &l) { f << "["; bool d = false; for (auto v : l) { if (d) f << ","; d = true; f << v; } f << "]"; };
  f << ",\n\"violations\":["; c = false; for (auto &v : g_viol) { if (c) f << ",\n"; c = true; f << "{\"kind\":" << js(v.kind) << ",\"msg\":" << js(v.msg) << ",\"where\":" << js(v.where) << ",\"stack\":" << js(v.stack) << ",\"inputs\":"; ins(v.in); f << ",\"log\":"; lg(v.log); f << "}"; } f << "]";
  f << ",\n\"samples\":["; c = false; for (auto &s : g_samp) { if (c) f << ",\n"; c = true; f << "{\"inputs\":"; ins(s.in); f << ",\"log\":"; lg(s.log); f << ",\"steps\":" << s.steps << "}"; } f << "]}\n";
}

int main(int argc, char **argv) {
  std::string bc; double tmo = 600;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") g_entry = nx(); else if (a == "--out") g_out = nx(); else if (a == "--timeout") tmo = atof(nx().c_str()); else if (a == "--maxsteps") g_maxsteps = strtoull(nx().c_str(), 0, 10);
    else if (a == "--maxviol") g_maxviol = atoi(nx().c_str()); else if (a == "--samples") g_samples = atoi(nx().c_str()); else if (a == "--jobs") g_jobs = atoi(nx().c_str()); else if (a == "--dump-smt") S.dumpdir = nx(); else if (a == "--dump-max") S.dumpmax = atoi(nx().c_str());
    else bc = a; }
  g_deadline = nowS() + tmo;
  SMDiagnostic err; M = parseIRFile(bc, err, C); if (!M) { err.print("ushsym", errs()); return 4; }
  DL = &M->getDataLayout();
  g_sh = (Shared *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  S.init();
  for (auto &F : *M) { Func *f = new Func(); f->F = &F; f->name = F.getName().str(); f->idx = g_funcs.size(); f->nargs = F.arg_size(); f->vararg = F.isVarArg(); if (auto *sp = F.getSubprogram()) f->file = intern(sp->getFilename().str()); g_funcs.push_back(f); g_fmap[&F] = f; }
  // globals
  std::unique_ptr<State> s0(new State()); cur = s0.get(); u32 id = 1; g_const.resize(1);
  for (auto &g : M->globals()) { if (g.isDeclaration()) { if (g.getName().starts_with("llvm.")) continue; g_gaddr[&g] = 0x10; fprintf(stderr, "ushsym: warning: external global %s\n", g.getName().str().c_str()); continue; } g_gaddr[&g] = ((u64)id << 32) | OFF0; id++; }
  g_const.resize(id);
  for (auto &g : M->globals()) { if (g.isDeclaration() || g.getName().starts_with("llvm.")) continue;
    Obj *o = new Obj(); o->id = g_gaddr[&g] >> 32; o->size = DL->getTypeAllocSize(g.getValueType()); o->b.assign(o->size, 0); o->name = intern(g.getName().str()); o->ro = g.isConstant(); initBytes(o, 0, g.getInitializer());
    if (g.isConstant()) g_const[o->id] = ObjRef(o); else s0->objs.push_back({o->id, ObjRef(o)}); }
  std::sort(s0->objs.begin(), s0->objs.end(), [](auto &a, auto &b) { return a.first < b.first; });
  s0->nextObj = id; s0->model.assign(1, 0);
  Function *E = M->getFunction(g_entry); if (!E || E->isDeclaration()) { fprintf(stderr, "ushsym: no entry %s\n", g_entry.c_str()); return 4; }
  std::vector<V> noargs; enter(g_fmap[E], noargs, false, 0, 0);
  if (g_jobs <= 1) {
    g_stack.push_back(std::move(s0));
    while (!g_stack.empty()) { auto s = std::move(g_stack.back()); g_stack.pop_back(); if (!runState(std::move(s), false)) break; if (g_sh->nviol >= g_maxviol) break; }
    writeResult(g_out);
  } else {
    // breadth-first until there is enough work, then distribute over forked workers
    u32 want = g_jobs * 64; g_bfs = true; g_queue.push_back(std::move(s0)); double tb = nowS();
    while (!g_queue.empty() && g_queue.size() < want && !(nowS() - tb > 3 && g_queue.size() >= 4 * g_jobs) && !(nowS() - tb > 15 && g_queue.size() >= 2) && nowS() - tb < 60) { auto s = std::move(g_queue.front()); g_queue.pop_front(); if (!runState(std::move(s), true)) break; if (g_sh->nviol >= g_maxviol) break; }
    g_bfs = false;
    if (g_queue.empty() || g_sh->nviol >= g_maxviol || g_incomplete.size()) { if (!g_queue.empty() && !g_sh->nviol) incomplete("stopped early"); writeResult(g_out + ".0"); std::ofstream(g_out) << "1\n"; return 0; }
    std::vector<std::unique_ptr<State>> work; for (auto &s : g_queue) work.push_back(std::move(s)); g_queue.clear();
    writeResult(g_out + ".0");
    std::vector<pid_t> kids;
    for (unsigned j = 0; j < g_jobs; j++) { pid_t p = fork(); if (p == 0) {
        g_st = Stats(); g_viol.clear(); g_samp.clear();
        for (;;) { u32 k = __sync_fetch_and_add(&g_sh->next, 1); if (k >= work.size()) break; g_stack.push_back(std::move(work[k])); bool ok = true;
          while (!g_stack.empty()) { auto s = std::move(g_stack.back()); g_stack.pop_back(); if (!runState(std::move(s), false)) { ok = false; break; } if (g_sh->nviol >= g_maxviol) { ok = false; break; } }
          if (!ok) break; }
        writeResult(g_out + "." + std::to_string(j + 1)); _exit(0); }
      kids.push_back(p); }
    bool bad = false; for (auto p : kids) { int st = 0; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = true; }
    std::ofstream(g_out) << (bad ? 0 : g_jobs + 1) << "\n"; if (bad) return 5;
  }
  return 0;
}
