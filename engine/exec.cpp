// Symbolic executor for LLVM IR (C++ subset produced by clang -O1).
#include <llvm/ADT/SmallPtrSet.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <unistd.h>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <deque>
#include <set>
#include <unordered_set>

#include "core.hpp"
#include "solver.hpp"

using namespace llvm;
Aig G;
SymByteTab SB;
static Solver SOL;

// ------------------------------------------------------------------ options
struct Opt {
  std::string file, entry, out;
  std::vector<uint64_t> params;
  double maxTime = 300;
  uint64_t maxPathInstr = 60000000, maxPaths = 1000000;
  uint64_t symAlloc = 256;
  uint64_t maxAlloc = 64ull << 20;
  unsigned maxWit = 6;
  unsigned concCap = 600;
  unsigned maxViol = 4;
  bool merge = true, forkSelect = false, fpFree = false;
  uint64_t mergeBudget = 20000;
  bool verbose = false;
  std::string dumpSmt;
} O;

static double now() {
  static auto t0 = std::chrono::steady_clock::now();
  return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
}

// ------------------------------------------------------------------ decoded code
enum BI : uint16_t {
  B_NONE, B_NEW, B_NEWA, B_DEL, B_MALLOC, B_CALLOC, B_FREE, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCMP, B_BCMP,
  B_SYMBYTES, B_ASSUME, B_ASSERT, B_REACH, B_OBSERVE, B_SYMEQ, B_ENUM, B_FAIL, B_LIVE, B_PARAM, B_LOG, B_NOFORKOR,
  B_ALLOCEXC, B_FREEEXC, B_THROW, B_BEGINCATCH, B_ENDCATCH, B_RETHROW, B_DYNCAST, B_GUARDACQ, B_NOPZ, B_TERMINATE,
  B_THROWSTD, B_PUREVIRT, B_EXIT, B_MERGEHINT, B_SYMALLOC, B_ISSYM,
  // intrinsics
  I_NOP, I_MEMCPY, I_MEMMOVE, I_MEMSET, I_UMAX, I_UMIN, I_SMAX, I_SMIN, I_ABS, I_BSWAP, I_FSHL, I_FSHR, I_CTLZ, I_CTTZ,
  I_CTPOP, I_USUBSAT, I_UADDSAT, I_UADDO, I_USUBO, I_UMULO, I_SADDO, I_SSUBO, I_SMULO, I_TYPEID, I_TRAP, I_UBTRAP,
  I_EXPECT, I_OBJSIZE, I_ISCONST, I_ASSUME, I_FABS, I_FLOOR, I_CEIL, I_STACKSAVE, I_SSUBSAT, I_SADDSAT, I_TRUNC, I_ROUND
};

struct FnInfo;
struct Ins {
  Instruction* I;
  unsigned op;
  int dst = -1;
  std::vector<int> o;
  unsigned w = 0, w2 = 0;
  bool ptr = false, fp = false, agg = false;
  // gep
  int64_t goff = 0;
  std::vector<std::pair<int, int64_t>> gidx;
  std::vector<unsigned> gw;
  // calls
  FnInfo* callee = nullptr;
  uint16_t bi = 0;
  // branches
  std::vector<int> succ;
  std::vector<uint64_t> cases;
  // merge info
  int mfail = 0;
};
struct Blk {
  BasicBlock* bb;
  int start = 0, firstNonPhi = 0, end = 0;  // index in ins
};
struct FnInfo {
  Function* F;
  std::string name;
  bool decoded = false;
  uint16_t bi = 0;
  std::string throwStd;
  uint64_t addr = 0;
  int nregs = 0;
  std::vector<Ins> ins;
  std::vector<Blk> blk;
  std::vector<Val> consts;
  DenseMap<const BasicBlock*, int> bidx;
  bool pdDone = false;
  std::vector<int> ipd, regBlk;
  std::unordered_map<int, int> regIns;
  std::unique_ptr<DominatorTree> dt;
  bool entered = false;
  uint64_t count = 0;
};

struct Frame {
  FnInfo* fn;
  std::vector<Val> r;
  int bb = 0, ip = 0;
  std::vector<uint32_t> allocas;
};
typedef std::shared_ptr<Frame> FrameP;
struct PC {
  Lit l;
  std::shared_ptr<const PC> next;
  int n;
};
typedef std::shared_ptr<const PC> PCP;
struct Input {
  std::string name;
  std::vector<Lit> bits;
};
struct ExcRec {
  uint64_t obj;
  uint64_t tinfo;
  int handlers = 0;
};
typedef std::unordered_map<uint32_t, bool> Known;

struct State {
  ObjTab mem;
  uint32_t nextId = 1;
  std::vector<FrameP> st;
  PCP pc;
  std::shared_ptr<const Known> known;
  ModelP model;
  std::vector<Input> inputs;
  std::vector<uint32_t> obs;      // symbolic byte ids or concrete (high bit trick)
  std::vector<std::string> reached;
  std::vector<ExcRec> caught;     // stack of caught exceptions
  std::map<uint64_t, ExcRec> excs;  // live exception objects
  uint64_t instr = 0;
  int64_t live = 0;
  unsigned concN = 0;
  int ctorIdx = 0;
  uint64_t depthForks = 0;
  uint64_t symAlloc = 0;
  bool refused = false;
  uint32_t uninitN = 0;
};

struct MergeAbort {};
struct PathEnd {
  std::string kind, label;
};  // violation or abort
struct Forked {};

// ------------------------------------------------------------------ executor
struct Violation {
  std::string kind, label, where;
  std::vector<std::pair<std::string, std::vector<uint8_t>>> inputs;
};
struct Witness {
  std::string label;
  std::vector<std::pair<std::string, std::vector<uint8_t>>> inputs;
  std::vector<uint8_t> obs;
  bool refused;
};

struct Exec {
  LLVMContext ctx;
  std::unique_ptr<Module> M;
  const DataLayout* DL;
  std::unordered_map<const Function*, std::unique_ptr<FnInfo>> fns;
  std::unordered_map<uint64_t, FnInfo*> byAddr;
  std::unordered_map<const GlobalValue*, uint64_t> gaddr;
  std::unordered_map<uint64_t, const GlobalVariable*> gvAt;
  std::unordered_map<std::string, uint64_t> pseudo;
  std::unordered_map<uint64_t, std::string> pseudoName;
  std::unordered_map<uint64_t, int> typeIds;
  std::map<std::string, std::vector<std::string>> stdBases;
  std::vector<FnInfo*> ctors;
  FnInfo* entry = nullptr;
  std::vector<std::unique_ptr<State>> work;
  bool noFork = false;
  uint64_t totInstr = 0, paths = 0, forks = 0, merges = 0, mergeFail = 0, folded = 0, asserts = 0, aborted = 0, cuts = 0;
  uint64_t refusedAllocs = 0, infeasible = 0;
  std::map<std::string, uint64_t> reach;
  std::map<std::string, uint64_t> assertCnt;
  std::vector<Violation> viol;
  std::vector<Witness> wit;
  std::map<std::string, int> witPer;
  std::map<std::string, uint64_t> unsupported;
  std::string incomplete;
  std::vector<std::vector<Lit>> inputBank;  // ordinal -> bits
  std::unordered_map<std::string, std::vector<Lit>> inputKey;

  // ---------- setup
  FnInfo* info(const Function* F) {
    if (!F->isIntrinsic())
      if (auto* ov = M->getFunction(("__ovr_" + F->getName()).str())) F = ov;
    auto& p = fns[F];
    if (!p) {
      p.reset(new FnInfo);
      p->F = const_cast<Function*>(F);
      p->name = F->getName().str();
      classify(p.get());
    }
    return p.get();
  }
  void classify(FnInfo* f) {
    const std::string& n = f->name;
    static const std::unordered_map<std::string, uint16_t> m = {
        {"_Znwm", B_NEW}, {"_Znam", B_NEWA}, {"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZdlPv", B_DEL}, {"_ZdaPv", B_DEL},
        {"_ZdlPvm", B_DEL}, {"_ZdaPvm", B_DEL}, {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"free", B_FREE},
        {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_BCMP},
        {"sym_bytes", B_SYMBYTES}, {"sym_assume", B_ASSUME}, {"sym_assert", B_ASSERT}, {"sym_reach", B_REACH},
        {"sym_observe", B_OBSERVE}, {"sym_eq", B_SYMEQ}, {"sym_enum", B_ENUM}, {"sym_fail", B_FAIL},
        {"sym_live_heap", B_LIVE}, {"sym_param", B_PARAM}, {"sym_log", B_LOG}, {"sym_alloc_limit", B_SYMALLOC},
        {"sym_exit", B_EXIT}, {"sym_is_symbolic", B_ISSYM},
        {"__cxa_allocate_exception", B_ALLOCEXC}, {"__cxa_free_exception", B_FREEEXC}, {"__cxa_throw", B_THROW},
        {"__cxa_begin_catch", B_BEGINCATCH}, {"__cxa_end_catch", B_ENDCATCH}, {"__cxa_rethrow", B_RETHROW},
        {"__dynamic_cast", B_DYNCAST}, {"__cxa_guard_acquire", B_GUARDACQ}, {"__cxa_guard_release", B_NOPZ},
        {"__cxa_guard_abort", B_NOPZ}, {"__cxa_atexit", B_NOPZ}, {"_ZSt9terminatev", B_TERMINATE}, {"abort", B_TERMINATE},
        {"__cxa_pure_virtual", B_PUREVIRT}, {"_ZSt20__throw_length_errorPKc", B_THROWSTD},
    };
    auto it = m.find(n);
    if (it != m.end()) f->bi = it->second;
    static const std::unordered_map<std::string, std::string> th = {
        {"_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"},
        {"_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"},
        {"__cxa_throw_bad_array_new_length", "_ZTISt20bad_array_new_length"},
        {"_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"},
        {"__cxa_bad_cast", "_ZTISt8bad_cast"},
        {"_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"},
        {"_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"},
        {"_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"},
        {"_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"},
        {"_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"},
        {"_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"},
        {"_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error"},
        {"_ZSt20__throw_system_errori", "_ZTISt12system_error"},
        {"_ZSt19__throw_ios_failurePKc", "_ZTINSt8ios_base7failureB5cxx11E"},
        {"_ZSt19__throw_ios_failurePKci", "_ZTINSt8ios_base7failureB5cxx11E"},
        {"_ZSt25__throw_bad_variant_accessPKc", "_ZTISt18bad_variant_access"},
    };
    auto jt = th.find(n);
    if (jt != th.end()) {
      f->bi = B_THROWSTD;
      f->throwStd = jt->second;
    }
    if (f->F->isIntrinsic()) {
      switch (f->F->getIntrinsicID()) {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::experimental_noalias_scope_decl:
        case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::stackrestore:
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::prefetch:
          f->bi = I_NOP; break;
        case Intrinsic::stacksave: f->bi = I_STACKSAVE; break;
        case Intrinsic::memcpy: case Intrinsic::memcpy_inline: f->bi = I_MEMCPY; break;
        case Intrinsic::memmove: f->bi = I_MEMMOVE; break;
        case Intrinsic::memset: f->bi = I_MEMSET; break;
        case Intrinsic::umax: f->bi = I_UMAX; break;
        case Intrinsic::umin: f->bi = I_UMIN; break;
        case Intrinsic::smax: f->bi = I_SMAX; break;
        case Intrinsic::smin: f->bi = I_SMIN; break;
        case Intrinsic::abs: f->bi = I_ABS; break;
        case Intrinsic::bswap: f->bi = I_BSWAP; break;
        case Intrinsic::fshl: f->bi = I_FSHL; break;
        case Intrinsic::fshr: f->bi = I_FSHR; break;
        case Intrinsic::ctlz: f->bi = I_CTLZ; break;
        case Intrinsic::cttz: f->bi = I_CTTZ; break;
        case Intrinsic::ctpop: f->bi = I_CTPOP; break;
        case Intrinsic::usub_sat: f->bi = I_USUBSAT; break;
        case Intrinsic::uadd_sat: f->bi = I_UADDSAT; break;
        case Intrinsic::uadd_with_overflow: f->bi = I_UADDO; break;
        case Intrinsic::usub_with_overflow: f->bi = I_USUBO; break;
        case Intrinsic::umul_with_overflow: f->bi = I_UMULO; break;
        case Intrinsic::sadd_with_overflow: f->bi = I_SADDO; break;
        case Intrinsic::ssub_with_overflow: f->bi = I_SSUBO; break;
        case Intrinsic::smul_with_overflow: f->bi = I_SMULO; break;
        case Intrinsic::eh_typeid_for: f->bi = I_TYPEID; break;
        case Intrinsic::trap: f->bi = I_TRAP; break;
        case Intrinsic::ubsantrap: f->bi = I_UBTRAP; break;
        case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group:
        case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ptr_annotation:
          f->bi = I_EXPECT; break;
        case Intrinsic::objectsize: f->bi = I_OBJSIZE; break;
        case Intrinsic::is_constant: f->bi = I_ISCONST; break;
        case Intrinsic::assume: f->bi = I_ASSUME; break;
        case Intrinsic::fabs: f->bi = I_FABS; break;
        case Intrinsic::floor: f->bi = I_FLOOR; break;
        case Intrinsic::ceil: f->bi = I_CEIL; break;
        case Intrinsic::trunc: f->bi = I_TRUNC; break;
        case Intrinsic::round: f->bi = I_ROUND; break;
        default: break;
      }
    }
  }

  uint32_t gnext = 1;
  ObjTab gmem;
  uint64_t newPseudo(const std::string& n) {
    auto it = pseudo.find(n);
    if (it != pseudo.end()) return it->second;
    // pseudo objects live above the heap id range
    uint64_t a = (uint64_t)(0xE00000 + pseudo.size()) << 32;
    pseudo[n] = a;
    pseudoName[a] = n;
    return a;
  }
  uint64_t addrOf(const GlobalValue* g) {
    if (auto* a = dyn_cast<GlobalAlias>(g)) {
      Val v = constVal(a->getAliasee());
      return v.u;
    }
    auto it = gaddr.find(g);
    if (it != gaddr.end()) return it->second;
    if (auto* F = dyn_cast<Function>(g)) {
      uint32_t id = gnext++;
      uint64_t a = (uint64_t)id << 32;
      gaddr[g] = a;
      Obj* o = new Obj(0);
      o->kind = FUNC;
      gmem.set(id, o);
      FnInfo* f = info(F);
      f->addr = a;
      byAddr[a] = f;
      return a;
    }
    auto* V = cast<GlobalVariable>(g);
    std::string nm = V->getName().str();
    uint32_t id = gnext++;
    uint64_t a = (uint64_t)id << 32;
    gaddr[g] = a;
    gvAt[a] = V;
    uint64_t sz = V->hasInitializer() ? DL->getTypeAllocSize(V->getValueType()) : std::max<uint64_t>(1024, V->getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(V->getValueType()) : 0);
    Obj* o = new Obj((uint32_t)sz);
    o->kind = GLOBAL;
    o->zero = true;
    gmem.set(id, o);
    if (V->hasInitializer()) {
      initGlobal(id, 0, V->getInitializer());
      gmem.w(id)->ro = V->isConstant();
    } else if (nm == "__libc_single_threaded")
      o->set(0, 1, 0);
    return a;
  }
  void initGlobal(uint32_t id, uint64_t off, const Constant* c) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || c->isNullValue()) return;
    if (auto* s = dyn_cast<ConstantStruct>(c)) {
      auto* sl = DL->getStructLayout(cast<StructType>(t));
      for (unsigned i = 0; i < s->getNumOperands(); i++) initGlobal(id, off + sl->getElementOffset(i), s->getOperand(i));
      return;
    }
    if (auto* s = dyn_cast<ConstantArray>(c)) {
      uint64_t es = DL->getTypeAllocSize(cast<ArrayType>(t)->getElementType());
      for (unsigned i = 0; i < s->getNumOperands(); i++) initGlobal(id, off + i * es, s->getOperand(i));
      return;
    }
    if (auto* s = dyn_cast<ConstantVector>(c)) {
      uint64_t es = DL->getTypeAllocSize(cast<FixedVectorType>(t)->getElementType());
      for (unsigned i = 0; i < s->getNumOperands(); i++) initGlobal(id, off + i * es, s->getOperand(i));
      return;
    }
    if (auto* s = dyn_cast<ConstantDataSequential>(c)) {
      uint64_t es = DL->getTypeAllocSize(s->getElementType());
      for (unsigned i = 0; i < s->getNumElements(); i++) initGlobal(id, off + i * es, s->getElementAsConstant(i));
      return;
    }
    Val v = constVal(c);
    uint64_t n = DL->getTypeStoreSize(t);
    Obj* o = gmem.w(id);
    if (v.t == Val::C) {
      for (uint64_t i = 0; i < n && i < 8; i++) o->set((uint32_t)(off + i), (uint8_t)(v.u >> (8 * i)), 0);
    }
  }
  Val aggZero(Type* t) {
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
      Agg* a = new Agg;
      unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? (unsigned)t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
      for (unsigned i = 0; i < n; i++)
        a->v.push_back(aggZero(t->isStructTy() ? t->getStructElementType(i) : t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType()));
      return Val(a);
    }
    return Val(0);
  }
  Val constVal(const Constant* c) {
    if (auto* i = dyn_cast<ConstantInt>(c)) {
      if (i->getBitWidth() <= 64) return Val(i->getZExtValue());
      APInt v = i->getValue();
      BV* b = BV::make((int)v.getBitWidth());
      for (unsigned k = 0; k < v.getBitWidth(); k++) b->b[k] = v[k] ? LT : LF;
      return Val(b);
    }
    if (auto* f = dyn_cast<ConstantFP>(c)) return Val(f->getValueAPF().bitcastToAPInt().getZExtValue());
    if (isa<ConstantPointerNull>(c)) return Val(0);
    if (auto* g = dyn_cast<GlobalValue>(c)) return Val(addrOf(g));
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return aggZero(c->getType());
    if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantVector>(c)) {
      Agg* a = new Agg;
      for (auto& o : c->operands()) a->v.push_back(constVal(cast<Constant>(o)));
      return Val(a);
    }
    if (auto* s = dyn_cast<ConstantDataSequential>(c)) {
      Agg* a = new Agg;
      for (unsigned i = 0; i < s->getNumElements(); i++) a->v.push_back(constVal(s->getElementAsConstant(i)));
      return Val(a);
    }
    if (auto* e = dyn_cast<ConstantExpr>(c)) {
      auto opv = [&](unsigned i) { return constVal(e->getOperand(i)).u; };
      switch (e->getOpcode()) {
        case Instruction::GetElementPtr: {
          APInt off(64, 0);
          if (cast<GEPOperator>(e)->accumulateConstantOffset(*DL, off)) return Val(opv(0) + off.getZExtValue());
          break;
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
          return Val(opv(0) & maskw(e->getType()->isPointerTy() ? 64 : e->getType()->getIntegerBitWidth()));
        case Instruction::Add: return Val((opv(0) + opv(1)) & maskw(e->getType()->getIntegerBitWidth()));
        case Instruction::Sub: return Val((opv(0) - opv(1)) & maskw(e->getType()->getIntegerBitWidth()));
        case Instruction::Trunc: return Val(opv(0) & maskw(e->getType()->getIntegerBitWidth()));
        case Instruction::ICmp: {
          uint64_t a = opv(0), b = opv(1);
          switch (e->getPredicate()) {
            case CmpInst::ICMP_EQ: return Val(a == b);
            case CmpInst::ICMP_NE: return Val(a != b);
            default: break;
          }
          break;
        }
        default: break;
      }
      std::string s;
      raw_string_ostream os(s);
      e->print(os);
      fprintf(stderr, "unsupported constexpr %s\n", s.c_str());
    }
    return Val(0);
  }
  static unsigned tw(Type* t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    if (t->isX86_FP80Ty()) return 80;
    return 0;
  }
  void decode(FnInfo* f) {
    f->decoded = true;
    DenseMap<const Value*, int> num;
    int n = 0;
    for (auto& a : f->F->args()) num[&a] = n++;
    for (auto& b : *f->F) {
      f->bidx[&b] = (int)f->blk.size();
      f->blk.push_back({&b});
      for (auto& i : b)
        if (!i.getType()->isVoidTy()) num[&i] = n++;
    }
    f->nregs = n;
    DenseMap<const Value*, int> cn;
    auto opnd = [&](Value* v) -> int {
      auto it = num.find(v);
      if (it != num.end()) return it->second;
      auto c = dyn_cast<Constant>(v);
      if (!c) return -1000000000;  // metadata, blocks
      auto jt = cn.find(c);
      if (jt != cn.end()) return jt->second;
      f->consts.push_back(constVal(c));
      int k = -(int)f->consts.size();
      cn[c] = k;
      return k;
    };
    for (auto& bk : f->blk) {
      bk.start = (int)f->ins.size();
      bool phis = true;
      for (auto& i : *bk.bb) {
        Ins x;
        x.I = &i;
        x.op = i.getOpcode();
        if (!i.getType()->isVoidTy()) {
          x.dst = num[&i];
          x.w = tw(i.getType());
          x.ptr = i.getType()->isPointerTy();
          x.fp = i.getType()->isFloatingPointTy();
          x.agg = i.getType()->isAggregateType() || i.getType()->isVectorTy();
        }
        if (phis && !isa<PHINode>(i)) {
          phis = false;
          bk.firstNonPhi = (int)f->ins.size();
        }
        if (auto* p = dyn_cast<PHINode>(&i)) {
          for (unsigned k = 0; k < p->getNumIncomingValues(); k++) {
            x.o.push_back(opnd(p->getIncomingValue(k)));
            x.succ.push_back(f->bidx[p->getIncomingBlock(k)]);
          }
        } else if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
          x.o.push_back(opnd(g->getPointerOperand()));
          for (auto ti = gep_type_begin(g), te = gep_type_end(g); ti != te; ++ti) {
            Value* iv = ti.getOperand();
            if (auto* st = ti.getStructTypeOrNull()) {
              x.goff += (int64_t)DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(iv)->getZExtValue());
            } else {
              int64_t sc = (int64_t)DL->getTypeAllocSize(ti.getIndexedType());
              if (auto* ci = dyn_cast<ConstantInt>(iv)) x.goff += ci->getSExtValue() * sc;
              else {
                x.gidx.push_back({opnd(iv), sc});
                x.gw.push_back(tw(iv->getType()));
              }
            }
          }
        } else if (auto* cb = dyn_cast<CallBase>(&i)) {
          for (auto& a : cb->args()) x.o.push_back(opnd(a.get()));
          Value* cv = cb->getCalledOperand();
          if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
          if (auto* cf = dyn_cast<Function>(cv)) {
            x.callee = info(cf);
            x.bi = x.callee->bi;
          } else
            x.o.push_back(opnd(cv));  // last operand: function pointer
          if (cb->arg_size()) x.w2 = tw(cb->getArgOperand(0)->getType());
          if (auto* inv = dyn_cast<InvokeInst>(&i)) {
            x.succ = {f->bidx[inv->getNormalDest()], f->bidx[inv->getUnwindDest()]};
          }
        } else if (auto* br = dyn_cast<BranchInst>(&i)) {
          if (br->isConditional()) x.o.push_back(opnd(br->getCondition()));
          for (unsigned k = 0; k < br->getNumSuccessors(); k++) x.succ.push_back(f->bidx[br->getSuccessor(k)]);
        } else if (auto* sw = dyn_cast<SwitchInst>(&i)) {
          x.o.push_back(opnd(sw->getCondition()));
          x.w2 = tw(sw->getCondition()->getType());
          x.succ.push_back(f->bidx[sw->getDefaultDest()]);
          for (auto& c : sw->cases()) {
            x.cases.push_back(c.getCaseValue()->getZExtValue());
            x.succ.push_back(f->bidx[c.getCaseSuccessor()]);
          }
        } else {
          for (auto& op : i.operands()) x.o.push_back(opnd(op.get()));
          if (i.getNumOperands()) x.w2 = tw(i.getOperand(0)->getType());
        }
        f->ins.push_back(std::move(x));
      }
      bk.end = (int)f->ins.size();
    }
  }

  // ---------- value helpers
  static Lit bit(const Val& v, unsigned i) { return v.t == Val::C ? (i < 64 && (v.u >> i & 1) ? LT : LF) : v.s->b[i]; }
  static Val fromBits(BV* b) {
    if (b->w <= 64) {
      uint64_t u = 0;
      bool c = true;
      for (int i = 0; i < b->w; i++) {
        if (b->b[i] > 1) {
          c = false;
          break;
        }
        u |= (uint64_t)b->b[i] << i;
      }
      if (c) {
        free(b);
        return Val(u);
      }
    }
    return Val(b);
  }
  static Val litVal(Lit l) {
    if (lconst(l)) return Val((uint64_t)l);
    BV* b = BV::make(1);
    b->b[0] = l;
    return Val(b);
  }
  template <class Fn>
  static Val mapBits(unsigned w, Fn f) {
    BV* b = BV::make((int)w);
    for (unsigned i = 0; i < w; i++) b->b[i] = f(i);
    return fromBits(b);
  }
  static Val vAdd(const Val& a, const Val& b, unsigned w, Lit cin = LF, Lit* cout = nullptr, Lit* cprev = nullptr) {
    Lit c = cin;
    BV* r = BV::make((int)w);
    for (unsigned i = 0; i < w; i++) {
      Lit x = bit(a, i), y = bit(b, i);
      Lit xy = G.XOR_(x, y);
      r->b[i] = G.XOR_(xy, c);
      if (cprev && i == w - 1) *cprev = c;
      c = G.ITE_(xy, c, x);
    }
    if (cout) *cout = c;
    return fromBits(r);
  }
  static Val vNot(const Val& a, unsigned w) {
    return mapBits(w, [&](unsigned i) { return lnot(bit(a, i)); });
  }
  static Val vSub(const Val& a, const Val& b, unsigned w, Lit* nb = nullptr, Lit* cprev = nullptr) {
    // nb: no-borrow (carry out)
    return vAdd(a, vNot(b, w), w, LT, nb, cprev);
  }
  static Lit vUlt(const Val& a, const Val& b, unsigned w) {
    Lit r = LF;
    for (unsigned i = 0; i < w; i++) {
      Lit x = bit(a, i), y = bit(b, i);
      r = G.ITE_(G.XOR_(x, y), y, r);
    }
    return r;
  }
  static Lit vSlt(const Val& a, const Val& b, unsigned w) {
    Lit r = LF;
    for (unsigned i = 0; i < w; i++) {
      Lit x = bit(a, i), y = bit(b, i);
      r = G.ITE_(G.XOR_(x, y), i == w - 1 ? x : y, r);
    }
    return r;
  }
  static Lit vEq(const Val& a, const Val& b, unsigned w) {
    Lit r = LT;
    for (unsigned i = 0; i < w; i++) {
      r = G.AND_(r, lnot(G.XOR_(bit(a, i), bit(b, i))));
      if (r == LF) break;
    }
    return r;
  }
  static Val vIte(Lit c, const Val& a, const Val& b, unsigned w) {
    if (c == LT) return a;
    if (c == LF) return b;
    return mapBits(w, [&](unsigned i) { return G.ITE_(c, bit(a, i), bit(b, i)); });
  }
  // ---- sums in a canonical order: x+(y+c), (x+y)+c, (x+y)-y.. become the same network
  struct Lin {
    uint64_t k = 0;
    std::vector<std::pair<uint32_t, int64_t>> t;  // atom, coefficient; by atom
  };
  struct LinTab {
    struct H {
      size_t operator()(const std::vector<Lit>& v) const {
        uint64_t h = 1469598103934665603ull;
        for (Lit l : v) h = (h ^ l) * 1099511628211ull;
        return (size_t)(h ^ h >> 31);
      }
    };
    std::unordered_map<std::vector<Lit>, Lin, H> m;
    std::vector<Val> atom;
    size_t hits = 0;
  };
  static LinTab& linTab() { static LinTab t; return t; }
  static std::vector<Lit> litsOf(const Val& v, unsigned w) {
    std::vector<Lit> r(w);
    for (unsigned i = 0; i < w; i++) r[i] = bit(v, i);
    return r;
  }
  static Lin linOf(const Val& v, unsigned w) {
    if (v.conc()) {
      Lin l;
      l.k = v.u;
      return l;
    }
    LinTab& T = linTab();
    auto key = litsOf(v, w);
    auto it = T.m.find(key);
    if (it != T.m.end()) return it->second;
    Lin l;
    l.t.push_back({(uint32_t)T.atom.size(), 1});
    T.atom.push_back(v);
    T.m.emplace(std::move(key), l);
    return l;
  }
  static Lin linAdd(const Lin& x, const Lin& y, int64_t sign) {
    Lin r;
    r.k = x.k + (uint64_t)sign * y.k;
    size_t i = 0, j = 0;
    while (i < x.t.size() || j < y.t.size()) {
      if (j == y.t.size() || (i < x.t.size() && x.t[i].first < y.t[j].first)) r.t.push_back(x.t[i++]);
      else if (i == x.t.size() || y.t[j].first < x.t[i].first) r.t.push_back({y.t[j].first, sign * y.t[j].second}), j++;
      else {
        int64_t c = (int64_t)((uint64_t)x.t[i].second + (uint64_t)(sign * y.t[j].second));
        if (c) r.t.push_back({x.t[i].first, c});
        i++, j++;
      }
    }
    return r;
  }
  static Val linVal(const Lin& l, unsigned w) {
    Val r(0);
    for (auto& [a, c] : l.t) {
      const Val& v = linTab().atom[a];
      if (c == 1) r = r.conc() && r.u == 0 ? v : vAdd(r, v, w);
      else if (c == -1) r = vSub(r, v, w);
      else r = vAdd(r, vMul(v, Val((uint64_t)c & maskw(w)), w), w);
    }
    if (l.k & maskw(w)) r = vAdd(r, Val(l.k & maskw(w)), w);
    if (!r.conc()) linTab().m.emplace(litsOf(r, w), l);
    return r;
  }
  static bool linWidth(unsigned w) { return w == 64 || w == 32; }
  static Val vSum(const Val& a, const Val& b, unsigned w, bool sub) {
    if (linWidth(w)) {
      Lin l = linAdd(linOf(a, w), linOf(b, w), sub ? -1 : 1);
      bool small = l.t.size() <= 10;
      for (auto& x : l.t) small = small && x.second >= -64 && x.second <= 64;
      if (small) return linVal(l, w);
    }
    return sub ? vSub(a, b, w) : vAdd(a, b, w);
  }
  // equal parts of two sums cancel
  static Lit vSumEq(const Val& a, const Val& b, unsigned w) {
    if (linWidth(w) && !(a.conc() && b.conc())) {
      Lin x = linOf(a, w), y = linOf(b, w);
      if (x.t.size() + y.t.size() > 2 || (x.t.size() + y.t.size() && x.k && y.k)) {
        Lin d = linAdd(x, y, -1);
        if (d.t.size() < x.t.size() + y.t.size() || (x.k && y.k)) {
          if (d.t.empty()) return (d.k & maskw(w)) == 0 ? LT : LF;
          Lin p, q;
          for (auto& z : d.t)
            if (z.second > 0) p.t.push_back(z);
            else q.t.push_back({z.first, -z.second});
          q.k = 0 - d.k;
          if (p.t.empty()) { p.k = d.k; q.k = 0; }
          bool small = true;
          for (auto& z : d.t) small = small && z.second >= -64 && z.second <= 64;
          if (small) return vEq(linVal(p, w), linVal(q, w), w);
        }
      }
    }
    return vEq(a, b, w);
  }
  // choice between two sums that differ only in the constant
  static Val vSumIte(Lit c, const Val& a, const Val& b, unsigned w) {
    if (c == LT) return a;
    if (c == LF) return b;
    if (linWidth(w) && !a.conc() && !b.conc()) {
      LinTab& T = linTab();
      auto x = T.m.find(litsOf(a, w));
      if (x != T.m.end()) {
        auto y = T.m.find(litsOf(b, w));
        if (y != T.m.end() && x->second.t == y->second.t && x->second.k != y->second.k) {
          Lin l = x->second;
          uint64_t k1 = l.k & maskw(w), k2 = y->second.k & maskw(w);
          l.k = 0;
          return vSum(linVal(l, w), vIte(c, Val(k1), Val(k2), w), w, false);
        }
      }
    }
    return vIte(c, a, b, w);
  }
  static Val vMul(Val a, Val b, unsigned w) {
    if (a.conc()) std::swap(a, b);
    Val r(0);
    for (unsigned i = 0; i < w; i++) {
      Lit c = bit(b, i);
      if (c == LF) continue;
      Val t = mapBits(w, [&](unsigned k) { return k < i ? LF : G.AND_(c, bit(a, k - i)); });
      r = vAdd(r, t, w);
    }
    if (w > 64 && r.conc()) r = mapBits(w, [&](unsigned k) { return bit(r, k); });
    return r;
  }
  static void vDivRem(const Val& a, const Val& b, unsigned w, Val& q, Val& r) {
    BV* qb = BV::make((int)w);
    Val rem(0);
    for (int i = (int)w - 1; i >= 0; i--) {
      // rem = rem<<1 | a[i]  (w+1 bits)
      Val rs = mapBits(w + 1, [&](unsigned k) { return k == 0 ? bit(a, (unsigned)i) : bit(rem, k - 1); });
      Val bx = mapBits(w + 1, [&](unsigned k) { return k < w ? bit(b, k) : LF; });
      Lit nb;
      Val d = vSub(rs, bx, w + 1, &nb);
      qb->b[i] = nb;
      Val sel = vIte(nb, d, rs, w + 1);
      rem = mapBits(w, [&](unsigned k) { return bit(sel, k); });
    }
    q = fromBits(qb);
    r = rem;
  }
  enum ShK { SHL, LSHR, ASHR };
  static Val vShift(ShK k, const Val& a, const Val& s, unsigned w) {
    Lit sign = k == ASHR ? bit(a, w - 1) : LF;
    auto sh = [&](const Val& v, unsigned n) {
      return mapBits(w, [&](unsigned i) -> Lit {
        if (k == SHL) return i < n ? LF : bit(v, i - n);
        return i + n < w ? bit(v, i + n) : sign;
      });
    };
    if (s.conc()) return s.u >= w ? mapBits(w, [&](unsigned) { return sign; }) : sh(a, (unsigned)s.u);
    Val r = a;
    unsigned lg = 0;
    while ((1u << lg) < w) lg++;
    for (unsigned i = 0; i < lg; i++) r = vIte(bit(s, i), sh(r, 1u << i), r, w);
    Lit big = LF;
    for (unsigned i = lg; i < w; i++) big = G.OR_(big, bit(s, i));
    return vIte(big, mapBits(w, [&](unsigned) { return sign; }), r, w);
  }
  static int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

  // ---------- path condition
  Lit simp(State& s, Lit l) {
    if (lconst(l) || !s.known) return l;
    auto it = s.known->find(l >> 1);
    if (it == s.known->end()) return l;
    return (it->second ? LT : LF) ^ (l & 1);
  }
  void addKnown(State& s, Lit l) {
    std::vector<Lit> q{l};
    std::shared_ptr<Known> k;
    if (s.known && s.known.use_count() == 1) k = std::const_pointer_cast<Known>(s.known);
    else k = s.known ? std::make_shared<Known>(*s.known) : std::make_shared<Known>();
    while (!q.empty()) {
      Lit x = q.back();
      q.pop_back();
      if (lconst(x)) continue;
      if (!k->emplace(x >> 1, !(x & 1)).second) continue;
      const auto& nd = G.n[x >> 1];
      if (nd.k == Aig::AND && !(x & 1)) {
        q.push_back(nd.a);
        q.push_back(nd.b);
      }
    }
    s.known = k;
  }
  void addPC(State& s, Lit l) {
    if (l == LT) return;
    s.pc = std::make_shared<PC>(PC{l, s.pc, s.pc ? s.pc->n + 1 : 1});
    addKnown(s, l);
  }
  // inputs a literal depends on (sorted ordinals)
  struct Supp {
    std::vector<uint32_t> in;
    uint32_t cone = 0;
  };
  std::unordered_map<uint32_t, std::unique_ptr<Supp>> supp;
  std::vector<uint32_t> sstamp;
  uint32_t scur = 0;
  const Supp& support(Lit l) {
    auto& p = supp[l >> 1];
    if (p) return *p;
    p.reset(new Supp);
    if (sstamp.size() < G.n.size()) sstamp.resize(G.n.capacity(), 0);
    ++scur;
    std::vector<uint32_t> st{l >> 1};
    sstamp[l >> 1] = scur;
    while (!st.empty()) {
      uint32_t x = st.back();
      st.pop_back();
      p->cone++;
      const auto& q = G.n[x];
      if (q.k == Aig::CONST) continue;
      if (q.k == Aig::IN) {
        p->in.push_back(q.a);
        continue;
      }
      auto add = [&](Lit y) {
        if (sstamp[y >> 1] != scur) {
          sstamp[y >> 1] = scur;
          st.push_back(y >> 1);
        }
      };
      add(q.a);
      add(q.b);
      if (q.k == Aig::ITE) add(q.c);
    }
    std::sort(p->in.begin(), p->in.end());
    return *p;
  }
  struct CacheE {
    int r;
    std::vector<std::pair<uint32_t, uint8_t>> as;
  };
  struct VecHash {
    size_t operator()(const std::vector<Lit>& v) const {
      uint64_t h = 1469598103934665603ull;
      for (Lit x : v) h = (h ^ x) * 1099511628211ull;
      return h;
    }
  };
  std::unordered_map<std::vector<Lit>, CacheE, VecHash> qcache;
  uint64_t cacheHits = 0, flipHits = 0;
  std::vector<uint32_t> istamp;
  uint32_t icur = 0;
  int query(State& s, Lit l, ModelP* m) {
    if (l == LF) return 0;
    // slice: constraints connected to l through shared inputs
    if (istamp.size() < G.inputs.size()) istamp.resize(G.inputs.size() * 2 + 64, 0);
    ++icur;
    std::vector<Lit> rest, as{l};
    for (auto p = s.pc.get(); p; p = p->next.get()) rest.push_back(p->l);
    std::vector<uint32_t> ins;
    auto addS = [&](Lit x) {
      for (uint32_t i : support(x).in)
        if (istamp[i] != icur) {
          istamp[i] = icur;
          ins.push_back(i);
        }
    };
    addS(l);
    size_t nSup = ins.size();
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < rest.size(); i++) {
        if (rest[i] == LT) continue;
        bool hit = false;
        for (uint32_t k : support(rest[i]).in)
          if (istamp[k] == icur) {
            hit = true;
            break;
          }
        if (hit) {
          as.push_back(rest[i]);
          addS(rest[i]);
          rest[i] = LT;
          ch = true;
        }
      }
    }
    std::sort(as.begin() + 1, as.end());
    as.erase(std::unique(as.begin() + 1, as.end()), as.end());
    auto it = qcache.find(as);
    if (it != qcache.end()) {
      ++cacheHits;
      if (it->second.r == 1) {
        auto mm = std::make_shared<Model>();
        mm->id = SOL.nextModel++;
        mm->in = s.model->in;
        mm->in.resize(G.inputs.size(), 0);
        for (auto& x : it->second.as) mm->in[x.first] = x.second;
        *m = mm;
      }
      return it->second.r;
    }
    // a satisfying assignment one bit away from the current one?
    uint32_t cone = 0;
    for (Lit x : as) cone += support(x).cone;
    if (cone < 4000) {
      unsigned tries = 0;
      for (size_t k = 0; k < nSup && tries < 10; k++, tries++) {
        auto mm = std::make_shared<Model>();
        mm->id = SOL.nextModel++;
        mm->in = s.model->in;
        mm->in.resize(G.inputs.size(), 0);
        mm->in[ins[k]] ^= 1;
        bool good = true;
        for (Lit x : as)
          if (!G.eval(mm, x)) {
            good = false;
            break;
          }
        if (good) {
          ++flipHits;
          *m = mm;
          return 1;
        }
      }
    }
    double q0 = SOL.time;
    int r = SOL.check(as, s.model, m);
    static const char* slowq = getenv("SLOWQ");
    if (slowq && SOL.time - q0 > atof(slowq)) {
      fprintf(stderr, "slow query %.1fs result %d, %zu conjuncts, %zu nodes\n", SOL.time - q0, r, as.size(), SOL.var.size());
      trace(s);
    }
    if (r < 0) {
      incomplete = "solver returned unknown";
      return r;
    }
    CacheE& e = qcache[as];
    e.r = r;
    if (r == 1) {
      auto mm = std::make_shared<Model>();
      mm->id = SOL.nextModel++;
      mm->in = s.model->in;
      mm->in.resize(G.inputs.size(), 0);
      for (uint32_t i : ins) {
        mm->in[i] = i < (*m)->in.size() ? (*m)->in[i] : 0;
        e.as.push_back({i, mm->in[i]});
      }
      *m = mm;
    }
    return r;
  }
  bool evalM(State& s, Lit l) { return G.eval(s.model, l); }
  uint64_t evalV(State& s, const Val& v, unsigned w) {
    if (v.conc()) return v.u;
    uint64_t r = 0;
    for (unsigned i = 0; i < w && i < 64; i++) r |= (uint64_t)evalM(s, v.s->b[i]) << i;
    return r;
  }
  // returns 1 / 0 if decided, 2 if both are feasible (other = model for the side opposite to the current model)
  int decide(State& s, Lit& c, ModelP* other, bool* cur) {
    c = simp(s, c);
    if (lconst(c)) return c == LT;
    bool v = evalM(s, c);
    *cur = v;
    int r = query(s, v ? lnot(c) : c, other);
    if (r == 0) {
      addKnown(s, v ? c : lnot(c));
      return v;
    }
    if (r < 0) {
      return v;  // incomplete flagged
    }
    return 2;
  }
  std::unique_ptr<State> clone(State& s) {
    auto n = std::make_unique<State>(s);
    if (!n->st.empty()) n->st.back() = std::make_shared<Frame>(*n->st.back());  // callers keep writing the top frame of s
    return n;
  }
  FrameP& topW(State& s) {
    FrameP& f = s.st.back();
    if (f.use_count() > 1) f = std::make_shared<Frame>(*f);
    return f;
  }
  // make the state take side `c`; push the other feasible side to re-execute the same instruction
  void forkOn(State& s, Lit c, const ModelP& other, bool cur) {
    if (noFork) throw MergeAbort{};
    ++forks;
    if (dbg) trace(s), fprintf(stderr, "FORK\n");
    static const bool stat = getenv("FORKSTAT") != nullptr;
    if (stat) fprintf(stderr, "fork %s\n", where(s).c_str());
    auto n = clone(s);
    addPC(*n, cur ? lnot(c) : c);
    n->model = other;
    work.push_back(std::move(n));
    addPC(s, cur ? c : lnot(c));
  }
  bool truth(State& s, Lit c) {
    ModelP o;
    bool cur;
    int d = decide(s, c, &o, &cur);
    if (d != 2) return d;
    forkOn(s, c, o, cur);
    return cur;
  }
  uint64_t concretize(State& s, const Val& v, unsigned w) {
    if (v.conc()) return v.u;
    Val sv = mapBits(w, [&](unsigned i) { return simp(s, v.s->b[i]); });
    if (sv.conc()) return sv.u;
    uint64_t x = evalV(s, sv, w);
    Lit eq = vEq(sv, Val(x), w);
    eq = simp(s, eq);
    if (eq == LT) return x;
    ModelP o;
    int r = query(s, lnot(eq), &o);
    if (r == 1) {
      if (noFork) throw MergeAbort{};
      if (s.concN >= O.concCap) {
        ++cuts;
        incomplete = "too many values for an address or size";
      } else {
        ++forks;
        static const bool stat = getenv("FORKSTAT") != nullptr;
        if (stat) fprintf(stderr, "value %s\n", where(s).c_str());
        auto n = clone(s);
        n->concN++;
        addPC(*n, lnot(eq));
        n->model = o;
        work.push_back(std::move(n));
      }
      addPC(s, eq);
    } else
      addKnown(s, eq);
    return x;
  }

  // ---------- memory
  [[noreturn]] void bad(const std::string& k, const std::string& l) { throw PathEnd{k, l}; }
  const Obj* chk(State& s, uint64_t addr, uint64_t n, const char* what) {
    uint32_t id = (uint32_t)(addr >> 32), off = (uint32_t)addr;
    if (id == 0) bad("memory", std::string(what) + " through null pointer");
    if (id >= 0xE00000) bad("memory", std::string(what) + " of opaque library object " + pseudoName[(uint64_t)id << 32]);
    const Obj* o = s.mem.get(id);
    if (!o) bad("memory", std::string(what) + (id < s.nextId ? " of freed memory" : " through wild pointer"));
    if ((uint64_t)off + n > o->size) {
      if (off >= 0x80000000u) bad("memory", std::string(what) + " before object");
      bad("memory", std::string(what) + " out of bounds (object size " + std::to_string(o->size) + ", offset " + std::to_string(off) + ", length " + std::to_string(n) + ")");
    }
    if (o->kind == FUNC) bad("memory", std::string(what) + " of code");
    return o;
  }
  Obj* chkW(State& s, uint64_t addr, uint64_t n, const char* what) {
    const Obj* o = chk(s, addr, n, what);
    if (o->ro) bad("memory", std::string(what) + " to read-only object");
    return s.mem.w((uint32_t)(addr >> 32));
  }
  uint32_t freshByte(State& s) {
    Lit b[8];
    while (uninitBank.size() < (s.uninitN + 1) * 8ull) uninitBank.push_back(G.input());
    memcpy(b, &uninitBank[s.uninitN * 8ull], sizeof b);
    ++s.uninitN;
    ++uninitReads;
    if (getenv("SYMEX_UNINIT")) fprintf(stderr, "uninit read\n%s", where(s).c_str());
    return SB.get(b);
  }
  // --fp-free: floating point results of symbolic operands may be anything
  bool fpAny(State& s, const Val& v, unsigned w) {
    if (!O.fpFree || v.conc()) return false;
    Val x = mapBits(w, [&](unsigned i) { return simp(s, v.s->b[i]); });
    return !x.conc();
  }
  Val anyBits(State& s, unsigned w) {
    uint64_t n = (w + 7) / 8;
    while (uninitBank.size() < (s.uninitN + n) * 8ull) uninitBank.push_back(G.input());
    uint64_t at = s.uninitN * 8ull;
    s.uninitN += n;
    return mapBits(w, [&](unsigned i) { return uninitBank[at + i]; });
  }
  uint64_t uninitReads = 0;
  std::vector<Lit> uninitBank;
  Val loadInt(State& s, uint64_t addr, unsigned w) {
    unsigned n = (w + 7) / 8;
    const Obj* o = chk(s, addr, n, "read");
    uint32_t off = (uint32_t)addr;
    uint8_t d[16];
    uint32_t sy[16];
    bool conc = true;
    Page* p = o->pg[off / PS];
    if (p && p->sy.empty() && off / PS == (off + n - 1) / PS) {
      uint64_t u = 0;
      if (n <= 8) {
        memcpy(&u, &p->d[off % PS], n);
        return Val(u & maskw(w));
      }
    }
    for (unsigned i = 0; i < n; i++) {
      o->get(off + i, d[i], sy[i]);
      if (sy[i]) conc = false;
    }
    if (conc && w <= 64) {
      uint64_t u = 0;
      memcpy(&u, d, n);
      return Val(u & maskw(w));
    }
    for (unsigned i = 0; i < n; i++)
      if (sy[i] == UNINIT) {
        sy[i] = freshByte(s);
        s.mem.w((uint32_t)(addr >> 32))->set(off + i, 0, sy[i]);
      }
    BV* b = BV::make((int)w);
    for (unsigned i = 0; i < w; i++) b->b[i] = sy[i / 8] ? simp(s, SB.v[sy[i / 8]].b[i % 8]) : (d[i / 8] >> (i % 8) & 1 ? LT : LF);
    return fromBits(b);
  }
  void storeInt(State& s, uint64_t addr, const Val& v, unsigned w) {
    unsigned n = (w + 7) / 8;
    Obj* o = chkW(s, addr, n, "write");
    uint32_t off = (uint32_t)addr;
    if (v.conc()) {
      if (off / PS == (off + n - 1) / PS && n <= 8) {
        Page* p = o->wpage(off / PS);
        memcpy(&p->d[off % PS], &v.u, n);
        if (!p->sy.empty())
          for (unsigned i = 0; i < n; i++) p->sy[off % PS + i] = 0;
        return;
      }
      for (unsigned i = 0; i < n; i++) o->set(off + i, i < 8 ? (uint8_t)(v.u >> (8 * i)) : 0, 0);
      return;
    }
    for (unsigned i = 0; i < n; i++) {
      Lit b[8];
      bool c = true;
      uint8_t d = 0;
      for (unsigned k = 0; k < 8; k++) {
        b[k] = i * 8 + k < w ? v.s->b[i * 8 + k] : LF;
        if (b[k] > 1) c = false;
        else d |= (uint8_t)(b[k] << k);
      }
      if (c) o->set(off + i, d, 0);
      else o->set(off + i, 0, SB.get(b));
    }
  }
  Val loadT(State& s, uint64_t addr, Type* t) {
    if (unsigned w = tw(t)) return loadInt(s, addr, w);
    Agg* a = new Agg;
    Val r(a);
    if (auto* st = dyn_cast<StructType>(t)) {
      auto* sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++) a->v.push_back(loadT(s, addr + sl->getElementOffset(i), st->getElementType(i)));
    } else {
      Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
      uint64_t n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
      uint64_t es = DL->getTypeAllocSize(et);
      for (uint64_t i = 0; i < n; i++) a->v.push_back(loadT(s, addr + i * es, et));
    }
    return r;
  }
  void storeT(State& s, uint64_t addr, const Val& v, Type* t) {
    if (unsigned w = tw(t)) return storeInt(s, addr, v, w);
    if (auto* st = dyn_cast<StructType>(t)) {
      auto* sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++) storeT(s, addr + sl->getElementOffset(i), v.a->v[i], st->getElementType(i));
    } else {
      Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
      uint64_t n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
      uint64_t es = DL->getTypeAllocSize(et);
      for (uint64_t i = 0; i < n; i++) storeT(s, addr + i * es, v.a->v[i], et);
    }
  }
  uint64_t alloc(State& s, uint64_t n, OK k, bool zero = false) {
    uint32_t id = s.nextId++;
    if (id >= 0xD00000) bad("internal", "object ids exhausted");
    Obj* o = new Obj((uint32_t)n);
    o->kind = k;
    o->zero = zero;
    s.mem.set(id, o);
    if (k == HEAP) ++s.live;
    return (uint64_t)id << 32;
  }
  void freeObj(State& s, uint64_t addr) {
    if (addr == 0) return;
    uint32_t id = (uint32_t)(addr >> 32);
    const Obj* o = id && id < 0xE00000 ? s.mem.get(id) : nullptr;
    if (!o) bad("memory", id && id < s.nextId ? "double free" : "free of wild pointer");
    if ((uint32_t)addr != 0) bad("memory", "free of interior pointer");
    if (o->kind != HEAP) bad("memory", "free of non-heap object");
    s.mem.set(id, nullptr);
    --s.live;
  }
  void copyMem(State& s, uint64_t d, uint64_t src, uint64_t n) {
    if (!n) return;
    const Obj* so = chk(s, src, n, "copy source read");
    Obj* dob = chkW(s, d, n, "copy destination write");
    so = s.mem.get((uint32_t)(src >> 32));
    uint32_t so_ = (uint32_t)src, do_ = (uint32_t)d;
    std::vector<uint8_t> bd(n);
    std::vector<uint32_t> bs(n);
    for (uint64_t i = 0; i < n; i++) so->get((uint32_t)(so_ + i), bd[i], bs[i]);
    for (uint64_t i = 0; i < n; i++) dob->set((uint32_t)(do_ + i), bd[i], bs[i]);
  }
  std::string cstr(State& s, uint64_t a) {
    std::string r;
    for (;;) {
      Val v = loadInt(s, a + r.size(), 8);
      if (!v.conc() || !v.u || r.size() > 500) break;
      r += (char)v.u;
    }
    return r;
  }

  // ---------- exceptions
  std::string tiName(uint64_t a) {
    auto it = gvAt.find(a);
    if (it != gvAt.end()) return it->second->getName().str();
    auto jt = pseudoName.find(a);
    return jt != pseudoName.end() ? jt->second : "?";
  }
  uint64_t tiByName(const std::string& n) {
    if (auto* g = M->getNamedGlobal(n)) return addrOf(g);
    return newPseudo(n);
  }
  void bases(const std::string& n, std::vector<std::pair<std::string, int64_t>>& out) {
    auto it = stdBases.find(n);
    if (it != stdBases.end())
      for (auto& b : it->second) out.push_back({b, 0});
    if (auto* g = M->getNamedGlobal(n)) {
      if (g->hasInitializer())
        if (auto* cs = dyn_cast<ConstantStruct>(g->getInitializer())) {
          unsigned k = cs->getNumOperands();
          if (k == 3) {
            if (auto* b = dyn_cast<GlobalVariable>(cs->getOperand(2)->stripPointerCasts())) out.push_back({b->getName().str(), 0});
          } else if (k > 4) {
            for (unsigned i = 4; i + 1 < k; i += 2) {
              auto* b = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts());
              auto* fl = dyn_cast<ConstantInt>(cs->getOperand(i + 1));
              if (b && fl) {
                if (fl->getSExtValue() & 1) continue;  // virtual base: not handled
                out.push_back({b->getName().str(), fl->getSExtValue() >> 8});
              }
            }
          }
        }
    }
  }
  bool derives(const std::string& n, const std::string& b, int64_t* off) {
    if (n == b) {
      if (off) *off = 0;
      return true;
    }
    std::vector<std::pair<std::string, int64_t>> bs;
    bases(n, bs);
    for (auto& x : bs) {
      int64_t o2 = 0;
      if (derives(x.first, b, &o2)) {
        if (off) *off = x.second + o2;
        return true;
      }
    }
    return false;
  }
  int typeId(uint64_t a) {
    auto& x = typeIds[a];
    if (!x) x = (int)typeIds.size();
    return x;
  }
  void popFrame(State& s) {
    for (uint32_t id : s.st.back()->allocas) s.mem.set(id, nullptr);
    s.st.pop_back();
  }
  // current frame's instruction is the call through which the exception leaves
  void unwind(State& s, uint64_t exc) {
    auto& rec = s.excs[exc];
    std::string tn = tiName(rec.tinfo);
    for (;;) {
      if (s.st.empty()) bad("uncaught", "uncaught exception " + tn);
      FrameP f = s.st.back();
      Ins& in = f->fn->ins[(size_t)f->ip];
      if (in.op == Instruction::Invoke) {
        int ub = in.succ[1];
        Blk& b = f->fn->blk[(size_t)ub];
        auto* lp = cast<LandingPadInst>(f->fn->ins[(size_t)b.firstNonPhi].I);
        int sel = -1;
        for (unsigned i = 0; i < lp->getNumClauses(); i++) {
          if (lp->isCatch(i)) {
            Constant* c = lp->getClause(i);
            if (c->isNullValue()) {
              sel = typeId(0);
              break;
            }
            auto* gv = cast<GlobalVariable>(c->stripPointerCasts());
            if (derives(tn, gv->getName().str(), nullptr)) {
              sel = typeId(addrOf(gv));
              break;
            }
          } else {
            // exception specification: empty filter catches everything not allowed
            auto* arr = lp->getClause(i);
            bool allowed = false;
            for (auto& o : arr->operands())
              if (auto* gv = dyn_cast<GlobalVariable>(o->stripPointerCasts()))
                if (derives(tn, gv->getName().str(), nullptr)) allowed = true;
            if (!allowed) {
              sel = -1;
              bad("terminate", "exception " + tn + " violates exception specification");
            }
          }
        }
        if (sel < 0 && lp->isCleanup()) sel = 0;
        if (sel >= 0) {
          jump(s, ub);
          auto& fr = topW(s);
          Ins& li = fr->fn->ins[(size_t)b.firstNonPhi];
          Agg* a = new Agg;
          a->v.push_back(Val(exc));
          a->v.push_back(Val((uint64_t)(uint32_t)sel));
          fr->r[(size_t)li.dst] = Val(a);
          fr->ip = b.firstNonPhi + 1;
          return;
        }
      } else if (auto* cb = dyn_cast<CallBase>(in.I)) {
        if (f->fn->F->doesNotThrow() && 0) (void)cb;
      }
      if (f->fn->F->doesNotThrow() ) bad("terminate", "exception " + tn + " leaves noexcept function " + f->fn->name);
      popFrame(s);
    }
  }
  void throwStd(State& s, const std::string& ti) {
    uint64_t a = alloc(s, 16, EXC);
    ExcRec r;
    r.obj = a;
    r.tinfo = tiByName(ti);
    s.excs[a] = r;
    unwind(s, a);
  }

  // ---------- control
  Val get(Frame& f, int o) { return o >= 0 ? f.r[(size_t)o] : f.fn->consts[(size_t)(-o - 1)]; }
  const Val& getR(Frame& f, int o) { return o >= 0 ? f.r[(size_t)o] : f.fn->consts[(size_t)(-o - 1)]; }
  void jump(State& s, int to) {
    auto& f = topW(s);
    Blk& b = f->fn->blk[(size_t)to];
    int from = f->bb;
    int np = b.firstNonPhi - b.start;
    if (np == 1) {
      Ins& x = f->fn->ins[(size_t)b.start];
      for (size_t k = 0; k < x.succ.size(); k++)
        if (x.succ[k] == from) {
          Val v = get(*f, x.o[k]);
          f->r[(size_t)x.dst] = std::move(v);
          break;
        }
    } else if (np) {
      Val tmp[64];
      std::vector<Val> big;
      Val* t = tmp;
      if (np > 64) {
        big.resize((size_t)np);
        t = big.data();
      }
      for (int i = 0; i < np; i++) {
        Ins& x = f->fn->ins[(size_t)(b.start + i)];
        for (size_t k = 0; k < x.succ.size(); k++)
          if (x.succ[k] == from) {
            t[i] = get(*f, x.o[k]);
            break;
          }
      }
      for (int i = 0; i < np; i++) f->r[(size_t)f->fn->ins[(size_t)(b.start + i)].dst] = std::move(t[i]);
    }
    f->bb = to;
    f->ip = b.firstNonPhi;
  }
  void push(State& s, FnInfo* fn, std::vector<Val>&& args) {
    if (!fn->decoded) decode(fn);
    if (s.st.size() > 2000) bad("stack", "call depth exceeds 2000");
    auto f = std::make_shared<Frame>();
    f->fn = fn;
    f->r.resize((size_t)fn->nregs);
    for (size_t i = 0; i < args.size() && i < fn->F->arg_size(); i++) f->r[i] = std::move(args[i]);
    f->bb = 0;
    f->ip = fn->blk[0].firstNonPhi;
    s.st.push_back(f);
    fn->entered = true;
    fn->count++;
  }
  void finishCall(State& s, const Val& v) {
    // top frame's current instruction is a call/invoke that completed
    auto& f = topW(s);
    Ins& in = f->fn->ins[(size_t)f->ip];
    if (in.dst >= 0) f->r[(size_t)in.dst] = v;
    if (in.op == Instruction::Invoke) jump(s, in.succ[0]);
    else f->ip++;
  }

  // ---------- merging
  // joint point of a branch: its post-dominator in the CFG without unwind edges and without blocks that cannot return
  void postdom(FnInfo* f) {
    f->pdDone = true;
    size_t n = f->blk.size();
    std::vector<std::vector<int>> su(n), pr(n);
    std::vector<char> good(n, 0);
    std::vector<int> q;
    for (size_t b = 0; b < n; b++) {
      Ins& t = f->ins[(size_t)f->blk[b].end - 1];
      if (t.op == Instruction::Ret) {
        good[b] = 1;
        q.push_back((int)b);
      } else if (t.op == Instruction::Invoke) su[b] = {t.succ[0]};
      else if (t.op == Instruction::Br || t.op == Instruction::Switch) su[b] = t.succ;
      for (int x : su[b]) pr[(size_t)x].push_back((int)b);
    }
    while (!q.empty()) {
      int x = q.back();
      q.pop_back();
      for (int p : pr[(size_t)x])
        if (!good[(size_t)p]) {
          good[(size_t)p] = 1;
          q.push_back(p);
        }
    }
    // reverse CFG, virtual exit = n; post-order from the exit
    std::vector<int> order, num(n + 1, -1);
    std::vector<char> seen(n + 1, 0);
    std::function<void(int)> dfs = [&](int x) {
      seen[(size_t)x] = 1;
      if (x == (int)n) {
        for (size_t b = 0; b < n; b++)
          if (f->ins[(size_t)f->blk[b].end - 1].op == Instruction::Ret && !seen[b]) dfs((int)b);
      } else
        for (int p : pr[(size_t)x])
          if (good[(size_t)p] && !seen[(size_t)p]) dfs(p);
      num[(size_t)x] = (int)order.size();
      order.push_back(x);
    };
    dfs((int)n);
    std::vector<int> idom(n + 1, -1);
    idom[n] = (int)n;
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t k = order.size(); k-- > 0;) {
        int x = order[k];
        if (x == (int)n) continue;
        int nd = -1;
        auto meet = [&](int y) {
          if (idom[(size_t)y] < 0) return;
          if (nd < 0) {
            nd = y;
            return;
          }
          int a = nd, b = y;
          while (a != b) {
            while (num[(size_t)a] < num[(size_t)b]) a = idom[(size_t)a];
            while (num[(size_t)b] < num[(size_t)a]) b = idom[(size_t)b];
          }
          nd = a;
        };
        if (f->ins[(size_t)f->blk[(size_t)x].end - 1].op == Instruction::Ret) meet((int)n);
        for (int y : su[(size_t)x])
          if (good[(size_t)y]) meet(y);
        if (nd != idom[(size_t)x]) {
          idom[(size_t)x] = nd;
          ch = true;
        }
      }
    }
    f->ipd.assign(n, -1);
    for (size_t b = 0; b < n; b++)
      if (idom[b] >= 0 && idom[b] < (int)n) f->ipd[b] = idom[b];
    DominatorTree dt(*f->F);
    f->dt = std::make_unique<DominatorTree>(std::move(dt));
    f->regBlk.assign((size_t)f->nregs, -1);
    for (size_t b = 0; b < n; b++)
      for (int i = f->blk[b].start; i < f->blk[b].end; i++)
        if (f->ins[(size_t)i].dst >= 0) {
          f->regBlk[(size_t)f->ins[(size_t)i].dst] = (int)b;
          f->regIns[f->ins[(size_t)i].dst] = i;
        }
  }
  bool tryMerge(State& s, Ins& in, Lit c, const ModelP& other, bool cur) {
    if (!O.merge || (in.mfail > 12 && (++in.mfail & 31))) return false;
    FrameP fr = s.st.back();
    FnInfo* fn = fr->fn;
    if (!fn->pdDone) postdom(fn);
    int J = fn->ipd[(size_t)fr->bb];
    if (J < 0) return false;
    size_t depth = s.st.size();
    auto a = clone(s), b = clone(s);
    addPC(*a, c);
    addPC(*b, lnot(c));
    if (cur) b->model = other;
    else a->model = other;
    bool save = noFork;
    noFork = true;
    uint64_t ti = totInstr;
    struct BudgetGuard {
      uint64_t& v;
      uint64_t old;
      ~BudgetGuard() { v = old; }
    } bg{mergeLimit, mergeLimit};
    mergeLimit = std::min(mergeLimit, totInstr + O.mergeBudget);
    try {
      for (State* x : {a.get(), b.get()}) {
        jump(*x, x == a.get() ? in.succ[0] : in.succ[1]);
        while (x->st.size() != depth || x->st.back()->bb != J || x->st.back()->ip != fn->blk[(size_t)J].firstNonPhi) {
          if (totInstr > mergeLimit) throw MergeAbort{};
          step(*x);
          if (x->st.size() < depth) throw MergeAbort{};
        }
      }
      noFork = save;
      if (a->inputs.size() != s.inputs.size() || b->inputs.size() != s.inputs.size() || a->obs.size() != s.obs.size() || b->obs.size() != s.obs.size() || a->reached.size() != b->reached.size() || a->caught.size() != b->caught.size() || a->excs.size() != b->excs.size() || a->live != b->live || a->refused != b->refused) throw MergeAbort{};
      // registers
      Frame& fa = *a->st.back();
      Frame& fb = *b->st.back();
      if (fa.allocas != fb.allocas) throw MergeAbort{};
      BasicBlock* JB = fn->blk[(size_t)J].bb;
      std::vector<std::pair<int, Val>> ph;
      for (int r = 0; r < fn->nregs; r++) {
        const Val& va = fa.r[(size_t)r];
        const Val& vb = fb.r[(size_t)r];
        if (va.t == vb.t && va.u == vb.u) {
          const Val& vs = s.st.back()->r[(size_t)r];
          if (vs.t != va.t || vs.u != va.u) ph.push_back({r, va});
          continue;
        }
        int db = fn->regBlk[(size_t)r];
        if (db < 0 || !(db == J || fn->dt->dominates(fn->blk[(size_t)db].bb, JB))) continue;  // dead at the join
        Ins& x = fn->ins[(size_t)fn->regIns[r]];
        if (db == J && x.op != Instruction::PHI) continue;
        if (x.ptr || x.agg || x.fp || va.t == Val::A || vb.t == Val::A || !x.w) throw MergeAbort{};
        ph.push_back({r, vSumIte(c, va, vb, x.w)});
      }
      std::vector<uint32_t> diff;
      ObjTab::diffRec(a->mem.root, b->mem.root, 0, 0, diff);
      struct Up {
        uint32_t id, off;
        uint8_t d;
        uint32_t sy;
      };
      std::vector<Up> ups;
      uint32_t maxId = std::max(a->nextId, b->nextId);
      a->uninitN = std::max(a->uninitN, b->uninitN);
      for (uint32_t id : diff) {
        const Obj* oa = a->mem.get(id);
        const Obj* ob = b->mem.get(id);
        if (!oa || !ob || oa->size != ob->size || oa->kind != ob->kind) throw MergeAbort{};
        for (size_t p = 0; p < oa->pg.size(); p++) {
          if (oa->pg[p] == ob->pg[p]) continue;
          uint32_t len = oa->plen((uint32_t)p);
          for (uint32_t w = 0; w < len; w += 8) {
            uint8_t da[8], db[8];
            uint32_t sa[8], sb[8];
            uint32_t wl = std::min(8u, len - w), base = (uint32_t)p * PS + w;
            bool same = true, ca = true, cb = true;
            for (uint32_t i = 0; i < wl; i++) {
              oa->get(base + i, da[i], sa[i]);
              ob->get(base + i, db[i], sb[i]);
              if (!(sa[i] == sb[i] && (sa[i] || da[i] == db[i]))) same = false;
              if (sa[i]) ca = false;
              if (sb[i]) cb = false;
            }
            if (same) continue;
            if (wl == 8 && ca && cb && oa->size > 8) {  // a lone word is more likely a buffer than a pointer
              uint64_t ua, ub;
              memcpy(&ua, da, 8);
              memcpy(&ub, db, 8);
              uint32_t ia = (uint32_t)(ua >> 32), ib = (uint32_t)(ub >> 32);
              auto isPtr = [&](uint32_t i) { return i && (i < maxId || i >= 0xE00000) && i <= 0xffffff; };
              if (isPtr(ia) || isPtr(ib)) throw MergeAbort{};
            }
            for (uint32_t i = 0; i < wl; i++) {
              if (sa[i] == sb[i] && (sa[i] || da[i] == db[i])) continue;
              if (sa[i] == UNINIT) sa[i] = freshByte(*a);
              if (sb[i] == UNINIT) sb[i] = freshByte(*a);
              Lit bb[8];
              bool cc = true;
              uint8_t d = 0;
              for (int k = 0; k < 8; k++) {
                Lit la = sa[i] ? SB.v[sa[i]].b[k] : (Lit)(da[i] >> k & 1);
                Lit lb = sb[i] ? SB.v[sb[i]].b[k] : (Lit)(db[i] >> k & 1);
                bb[k] = G.ITE_(c, la, lb);
                if (bb[k] > 1) cc = false;
                else d |= (uint8_t)(bb[k] << k);
              }
              ups.push_back({id, base + i, cc ? d : (uint8_t)0, cc ? 0u : SB.get(bb)});
            }
          }
        }
      }
      // commit: start from a's memory
      s.mem = a->mem;
      for (auto& u : ups) s.mem.w(u.id)->set(u.off, u.d, u.sy);
      s.nextId = maxId;
      s.uninitN = a->uninitN;
      s.live = a->live;
      s.reached = a->reached;
      auto& f = topW(s);
      for (auto& x : ph) f->r[(size_t)x.first] = x.second;
      f->allocas = fa.allocas;
      f->bb = J;
      f->ip = fn->blk[(size_t)J].firstNonPhi;
      s.instr += (totInstr - ti);
      ++merges;
      in.mfail = 0;
      return true;
    } catch (MergeAbort&) {
    } catch (PathEnd&) {
    }
    noFork = save;
    ++mergeFail;
    ++in.mfail;
    if (dbg) trace(s), fprintf(stderr, "MERGEFAIL\n");
    return false;
  }
  uint64_t mergeLimit = ~0ull;

  // ---------- recording
  // an allocation the environment refuses: recorded as a pseudo input, so that a native replay refuses the same size
  void refuse(State& s, const Val& sz) {
    s.refused = true;
    Input ip;
    ip.name = "!refuse";
    for (unsigned i = 0; i < 64; i++) ip.bits.push_back(bit(sz, i));
    s.inputs.push_back(ip);
  }
  std::vector<std::pair<std::string, std::vector<uint8_t>>> modelInputs(State& s, const ModelP& m) {
    std::vector<std::pair<std::string, std::vector<uint8_t>>> r;
    for (auto& in : s.inputs) {
      std::vector<uint8_t> v(in.bits.size() / 8);
      for (size_t i = 0; i < in.bits.size(); i++)
        if (G.eval(m, in.bits[i])) v[i / 8] |= (uint8_t)(1 << (i % 8));
      r.push_back({in.name, v});
    }
    return r;
  }
  std::string where(State& s) {
    std::string r;
    int n = 0;
    for (size_t i = s.st.size(); i-- > 0 && n < 14; n++) {
      r += demangle(s.st[i]->fn->name);
      r += "\n";
    }
    return r;
  }
  std::map<std::string, int> violPer;
  void violation(State& s, const std::string& kind, const std::string& label, const ModelP& m) {
    std::string key = kind + "|" + label;
    if (violPer[key]++ >= (int)O.maxViol) return;
    Violation v;
    v.kind = kind;
    v.label = label;
    v.where = where(s);
    v.inputs = modelInputs(s, m);
    viol.push_back(v);
    if (O.verbose) {
      fprintf(stderr, "VIOLATION %s %s\n%s", kind.c_str(), label.c_str(), v.where.c_str());
      for (auto& p : v.inputs) {
        fprintf(stderr, "  %s=", p.first.c_str());
        for (auto b : p.second) fprintf(stderr, "%02x", b);
        fprintf(stderr, "\n");
      }
    }
  }
  void endPath(State& s) {
    ++paths;
    for (auto& r : s.reached) reach[r]++;
    if (s.refused) ++refusedAllocs;
    std::string key;
    for (auto& r : s.reached) key += r + ",";
    if (wit.size() < 400 && witPer[key] < (int)O.maxWit) {
      witPer[key]++;
      Witness w;
      w.label = key;
      w.refused = s.refused;
      w.inputs = modelInputs(s, s.model);
      for (uint32_t x : s.obs) {
        if (x & 0x80000000u) w.obs.push_back((uint8_t)x);
        else {
          uint8_t d = 0;
          for (int k = 0; k < 8; k++) d |= (uint8_t)(G.eval(s.model, SB.v[x].b[k]) << k);
          w.obs.push_back(d);
        }
      }
      wit.push_back(w);
    }
  }

  void doAssert(State& s, Lit c, const std::string& label) {
    ++asserts;
    assertCnt[label]++;
    c = simp(s, c);
    if (c == LT) {
      ++folded;
      return;
    }
    if (c == LF) {
      violation(s, "assert", label, s.model);
      throw PathEnd{"stop", label};
    }
    if (!evalM(s, c)) {
      violation(s, "assert", label, s.model);
      ModelP m;
      int r = query(s, c, &m);
      if (r != 1) throw PathEnd{"stop", label};
      s.model = m;
      addPC(s, c);
      return;
    }
    ModelP m;
    int r = query(s, lnot(c), &m);
    if (r == 1) violation(s, "assert", label, m);
    if (r == 0) addKnown(s, c);
    else addPC(s, c);
  }

  // ---------- calls
  void callBuiltin(State& s, Frame& f, Ins& in, uint16_t bi, FnInfo* callee) {
    auto A = [&](size_t i) -> const Val& { return getR(f, in.o[i]); };
    auto W = [&](size_t i) { return tw(cast<CallBase>(in.I)->getArgOperand((unsigned)i)->getType()); };
    auto C = [&](size_t i) { return concretize(s, A(i), W(i)); };
    switch (bi) {
      case B_NEW: case B_NEWA: case B_MALLOC: case B_CALLOC: {
        Val sz = A(0);
        if (bi == B_CALLOC) sz = Val(C(0) * C(1));
        if (!sz.conc()) {
          uint64_t lim = s.symAlloc ? s.symAlloc : O.symAlloc;
          if (!truth(s, vUlt(sz, Val(lim + 1), 64))) {
            refuse(s, sz);
            if (bi == B_NEW || bi == B_NEWA) return throwStd(s, "_ZTISt9bad_alloc");
            return finishCall(s, Val(0));
          }
        }
        uint64_t n = concretize(s, sz, 64);
        s.concN = 0;
        if (n > O.maxAlloc) {
          refuse(s, Val(n));
          if (bi == B_NEW || bi == B_NEWA) return throwStd(s, "_ZTISt9bad_alloc");
          return finishCall(s, Val(0));
        }
        return finishCall(s, Val(alloc(s, n, HEAP, bi == B_CALLOC)));
      }
      case B_DEL: case B_FREE:
        freeObj(s, C(0));
        return finishCall(s, Val(0));
      case B_MEMCPY: case B_MEMMOVE: case I_MEMCPY: case I_MEMMOVE: {
        uint64_t d = C(0), sr = C(1), n = C(2);
        if (bi == B_MEMCPY || bi == I_MEMCPY) {
          if (n && d != sr && (d >> 32) == (sr >> 32)) {
            uint64_t lo = std::min(d, sr), hi = std::max(d, sr);
            if (lo + n > hi) bad("memory", "memcpy of overlapping regions");
          }
        }
        copyMem(s, d, sr, n);
        return finishCall(s, Val(d));
      }
      case B_MEMSET: case I_MEMSET: {
        uint64_t d = C(0), n = C(2);
        Val v = A(1);
        if (n) {
          Obj* o = chkW(s, d, n, "memset write");
          if (v.conc())
            for (uint64_t i = 0; i < n; i++) o->set((uint32_t)(d + i), (uint8_t)v.u, 0);
          else {
            uint32_t id = SB.get(v.s->b);
            for (uint64_t i = 0; i < n; i++) o->set((uint32_t)(d + i), 0, id);
          }
        }
        return finishCall(s, Val(d));
      }
      case B_MEMCMP: case B_BCMP: case B_SYMEQ: {
        uint64_t a = C(0), b = C(1), n = C(2);
        if (n) {
          chk(s, a, n, "compare read");
          chk(s, b, n, "compare read");
        }
        Lit eq = LT, lt = LF;
        for (uint64_t i = n; i-- > 0;) {
          Val x = loadInt(s, a + i, 8), y = loadInt(s, b + i, 8);
          Lit e = vEq(x, y, 8);
          if (bi == B_MEMCMP) lt = G.ITE_(e, lt, vUlt(x, y, 8));
          eq = G.AND_(eq, e);
        }
        eq = simp(s, eq);
        if (bi == B_SYMEQ) return finishCall(s, litVal(eq));
        if (bi == B_BCMP) return finishCall(s, mapBits(32, [&](unsigned i) { return i ? LF : lnot(eq); }));
        return finishCall(s, mapBits(32, [&](unsigned i) { return i ? G.AND_(lnot(eq), lt) : lnot(eq); }));
      }
      case B_SYMBYTES: {
        uint64_t p = C(0), n = C(1);
        std::string nm = cstr(s, C(2));
        Input ip;
        ip.name = nm;
        std::string key = std::to_string(s.inputs.size()) + "/" + nm + "/" + std::to_string(n);
        auto& bk = inputKey[key];
        if (bk.empty())
          for (uint64_t i = 0; i < n * 8; i++) bk.push_back(G.input());
        ip.bits = bk;
        if (n) {
          Obj* o = chkW(s, p, n, "write");
          for (uint64_t i = 0; i < n; i++) o->set((uint32_t)(p + i), 0, SB.get(&bk[i * 8]));
        }
        s.inputs.push_back(ip);
        return finishCall(s, Val(0));
      }
      case B_ASSUME: {
        Lit c = simp(s, bit(A(0), 0));
        if (c == LT) return finishCall(s, Val(0));
        if (c == LF) throw PathEnd{"assume", ""};
        if (!evalM(s, c)) {
          ModelP m;
          int r = query(s, c, &m);
          if (r != 1) throw PathEnd{"assume", ""};
          s.model = m;
        }
        addPC(s, c);
        return finishCall(s, Val(0));
      }
      case B_ASSERT: {
        std::string l = cstr(s, C(1));
        doAssert(s, bit(A(0), 0), l);
        return finishCall(s, Val(0));
      }
      case B_FAIL: {
        std::string l = cstr(s, C(0));
        ++asserts;
        assertCnt[l]++;
        violation(s, "assert", l, s.model);
        throw PathEnd{"stop", l};
      }
      case B_REACH: {
        std::string l = cstr(s, C(0));
        bool have = false;
        for (auto& x : s.reached) have |= x == l;
        if (!have) s.reached.push_back(l);
        return finishCall(s, Val(0));
      }
      case B_OBSERVE: {
        uint64_t p = C(0), n = C(1);
        if (n) chk(s, p, n, "read");
        for (uint64_t i = 0; i < n; i++) {
          Val v = loadInt(s, p + i, 8);
          if (v.conc()) s.obs.push_back(0x80000000u | (uint32_t)v.u);
          else s.obs.push_back(SB.get(v.s->b));
        }
        return finishCall(s, Val(0));
      }
      case B_ENUM: {
        uint64_t v = C(0);
        s.concN = 0;
        return finishCall(s, Val(v));
      }
      case B_ISSYM: return finishCall(s, Val((uint64_t)!A(0).conc()));
      case B_LIVE: return finishCall(s, Val((uint64_t)s.live));
      case B_SYMALLOC:
        s.symAlloc = C(0);
        return finishCall(s, Val(0));
      case B_PARAM: {
        uint64_t i = C(0);
        return finishCall(s, Val(i < O.params.size() ? O.params[i] : 0));
      }
      case B_LOG: {
        std::string l = cstr(s, C(0));
        Val v = A(1);
        if (O.verbose) fprintf(stderr, "log %s %llx%s\n", l.c_str(), (unsigned long long)evalV(s, v, 64), v.conc() ? "" : " (sym)");
        return finishCall(s, Val(0));
      }
      case B_EXIT: throw PathEnd{"done", ""};
      case B_ALLOCEXC: {
        uint64_t a = alloc(s, std::max<uint64_t>(16, C(0)), EXC);
        return finishCall(s, Val(a));
      }
      case B_FREEEXC: {
        s.mem.set((uint32_t)(C(0) >> 32), nullptr);
        return finishCall(s, Val(0));
      }
      case B_THROW: {
        ExcRec r;
        r.obj = C(0);
        r.tinfo = C(1);
        s.excs[r.obj] = r;
        return unwind(s, r.obj);
      }
      case B_THROWSTD: return throwStd(s, callee->throwStd);
      case B_BEGINCATCH: {
        uint64_t e = C(0);
        auto it = s.excs.find(e);
        if (it == s.excs.end()) bad("internal", "begin_catch of unknown exception");
        it->second.handlers++;
        s.caught.push_back(it->second);
        return finishCall(s, Val(e));
      }
      case B_ENDCATCH: {
        if (s.caught.empty()) bad("internal", "end_catch without catch");
        uint64_t e = s.caught.back().obj;
        s.caught.pop_back();
        auto it = s.excs.find(e);
        if (it != s.excs.end() && --it->second.handlers <= 0) {
          s.excs.erase(it);
          s.mem.set((uint32_t)(e >> 32), nullptr);
        }
        return finishCall(s, Val(0));
      }
      case B_RETHROW: {
        if (s.caught.empty()) bad("terminate", "rethrow without exception");
        uint64_t e = s.caught.back().obj;
        s.excs[e].handlers++;  // balanced by the end_catch of the rethrowing handler
        return unwind(s, e);
      }
      case B_DYNCAST: {
        uint64_t p = C(0);
        uint64_t dst = C(2);
        if (!p) return finishCall(s, Val(0));
        Val vp = loadInt(s, p, 64);
        uint64_t vt = concretize(s, vp, 64);
        uint64_t top = concretize(s, loadInt(s, vt - 16, 64), 64);
        uint64_t ti = concretize(s, loadInt(s, vt - 8, 64), 64);
        int64_t off = 0;
        if (derives(tiName(ti), tiName(dst), &off)) return finishCall(s, Val(p + top + (uint64_t)off));
        return finishCall(s, Val(0));
      }
      case B_GUARDACQ: {
        uint64_t g = C(0);
        Val v = loadInt(s, g, 8);
        if (v.conc() && v.u) return finishCall(s, Val(0));
        storeInt(s, g, Val(1), 8);
        return finishCall(s, Val(1));
      }
      case B_NOPZ: return finishCall(s, Val(0));
      case B_TERMINATE: bad("terminate", "std::terminate/abort called");
      case B_PUREVIRT: bad("memory", "pure virtual call");
      // ---- intrinsics
      case I_NOP: case I_ASSUME: f.ip++; return;
      case I_STACKSAVE: return finishCall(s, Val(0));
      case I_EXPECT: return finishCall(s, Val(A(0)));
      case I_TRAP: bad("ub", "trap");
      case I_UBTRAP: {
        static const char* nm[] = {"add-overflow", "builtin-unreachable", "cfi", "divrem-overflow", "dynamic-type-cache-miss", "float-cast-overflow", "function-type-mismatch", "implicit-conversion", "invalid-builtin", "invalid-objc-cast", "load-invalid-value", "missing-return", "mul-overflow", "negate-overflow", "nullability-arg", "nullability-return", "nonnull-arg", "nonnull-return", "out-of-bounds", "pointer-overflow", "shift-out-of-bounds", "sub-overflow", "type-mismatch", "alignment", "vla-bound"};
        uint64_t k = C(0);
        bad("ub", std::string("undefined behaviour: ") + (k < 25 ? nm[k] : "?"));
      }
      case I_TYPEID: return finishCall(s, Val((uint64_t)typeId(C(0))));
      case I_OBJSIZE: return finishCall(s, Val(~0ull & maskw(in.w)));
      case I_ISCONST: return finishCall(s, Val(0));
      default: break;
    }
    unsigned w = W(0);
    if (bi >= I_UMAX && bi <= I_SMIN) {
      const Val &a = A(0), &b = A(1);
      if (a.conc() && b.conc()) {
        bool lt = (bi == I_UMAX || bi == I_UMIN) ? a.u < b.u : sx(a.u, w) < sx(b.u, w);
        bool mx = bi == I_UMAX || bi == I_SMAX;
        return finishCall(s, (lt == mx) ? b : a);
      }
      Lit lt = (bi == I_UMAX || bi == I_UMIN) ? vUlt(a, b, w) : vSlt(a, b, w);
      lt = simp(s, lt);
      bool mx = bi == I_UMAX || bi == I_SMAX;
      return finishCall(s, mx ? vIte(lt, b, a, w) : vIte(lt, a, b, w));
    }
    switch (bi) {
      case I_ABS: {
        Val a = A(0);
        if (a.conc()) return finishCall(s, Val((uint64_t)(sx(a.u, w) < 0 ? -a.u : a.u) & maskw(w)));
        return finishCall(s, vIte(bit(a, w - 1), vSub(Val(0), a, w), a, w));
      }
      case I_BSWAP: {
        Val a = A(0);
        return finishCall(s, mapBits(w, [&](unsigned i) { return bit(a, (w / 8 - 1 - i / 8) * 8 + i % 8); }));
      }
      case I_FSHL: case I_FSHR: {
        Val a = A(0), b = A(1);
        uint64_t k = concretize(s, A(2), w) % w;
        // concat a:b
        return finishCall(s, mapBits(w, [&](unsigned i) -> Lit {
          unsigned pos = bi == I_FSHL ? i + w - (unsigned)k : i + (unsigned)k;
          return pos >= w ? bit(a, pos - w) : bit(b, pos);
        }));
      }
      case I_CTPOP: {
        Val a = A(0), r(0);
        for (unsigned i = 0; i < w; i++) r = vAdd(r, litVal(bit(a, i)).conc() ? Val((uint64_t)bit(a, i)) : mapBits(w, [&](unsigned k) { return k ? LF : bit(a, i); }), w);
        return finishCall(s, r);
      }
      case I_CTLZ: case I_CTTZ: {
        Val a = A(0), r((uint64_t)w);
        for (unsigned k = 0; k < w; k++) {
          unsigned i = bi == I_CTLZ ? k : w - 1 - k;  // last match wins
          r = vIte(bit(a, i), Val((uint64_t)(bi == I_CTLZ ? w - 1 - i : i)), r, w);
        }
        return finishCall(s, r);
      }
      case I_USUBSAT: {
        Val a = A(0), b = A(1);
        Lit nb;
        Val d = vSub(a, b, w, &nb);
        return finishCall(s, vIte(nb, d, Val(0), w));
      }
      case I_UADDSAT: {
        Lit co;
        Val d = vAdd(A(0), A(1), w, LF, &co);
        return finishCall(s, vIte(co, Val(maskw(w)), d, w));
      }
      case I_UADDO: case I_USUBO: case I_SADDO: case I_SSUBO: case I_UMULO: case I_SMULO: {
        Val a = A(0), b = A(1);
        Val r;
        Lit ov = LF;
        if (bi == I_UADDO) r = vAdd(a, b, w, LF, &ov);
        else if (bi == I_USUBO) {
          r = vSub(a, b, w, &ov);
          ov = lnot(ov);
        } else if (bi == I_SADDO || bi == I_SSUBO) {
          Lit co, cp;
          r = bi == I_SADDO ? vAdd(a, b, w, LF, &co, &cp) : vSub(a, b, w, &co, &cp);
          ov = G.XOR_(co, cp);
        } else {
          unsigned W2 = 2 * w;
          bool sg = bi == I_SMULO;
          auto ext = [&](const Val& v) { return mapBits(W2, [&](unsigned i) { return i < w ? bit(v, i) : (sg ? bit(v, w - 1) : LF); }); };
          Val x = vMul(ext(a), ext(b), W2);
          r = mapBits(w, [&](unsigned i) { return bit(x, i); });
          for (unsigned i = w; i < W2; i++) ov = G.OR_(ov, G.XOR_(bit(x, i), sg ? bit(x, w - 1) : LF));
        }
        Agg* ag = new Agg;
        ag->v.push_back(r);
        ag->v.push_back(litVal(ov));
        return finishCall(s, Val(ag));
      }
      case I_FABS: case I_FLOOR: case I_CEIL: case I_TRUNC: case I_ROUND: {
        uint64_t u = concretize(s, A(0), w);
        double d = toD(u, w);
        d = bi == I_FABS ? std::fabs(d) : bi == I_FLOOR ? std::floor(d) : bi == I_CEIL ? std::ceil(d) : bi == I_TRUNC ? std::trunc(d) : std::round(d);
        return finishCall(s, Val(fromD(d, w)));
      }
      default: break;
    }
    unsupportedEnd("builtin " + (callee ? callee->name : std::string("?")));
  }
  [[noreturn]] void unsupportedEnd(const std::string& w) {
    unsupported[w]++;
    incomplete = "unsupported: " + w;
    throw PathEnd{"unsupported", w};
  }
  static double toD(uint64_t u, unsigned w) {
    if (w == 32) {
      float f;
      uint32_t x = (uint32_t)u;
      memcpy(&f, &x, 4);
      return f;
    }
    double d;
    memcpy(&d, &u, 8);
    return d;
  }
  static uint64_t fromD(double d, unsigned w) {
    if (w == 32) {
      float f = (float)d;
      uint32_t x;
      memcpy(&x, &f, 4);
      return x;
    }
    uint64_t u;
    memcpy(&u, &d, 8);
    return u;
  }

  void doCall(State& s, Frame& f, Ins& in) {
    FnInfo* cal = in.callee;
    size_t nargs = cast<CallBase>(in.I)->arg_size();
    if (!cal) {
      if (cast<CallBase>(in.I)->isInlineAsm()) {
        // empty asm used as barrier
        if (in.dst < 0) {
          f.ip++;
          return;
        }
        unsupportedEnd("inline asm");
      }
      uint64_t a = concretize(s, getR(f, in.o.back()), 64);
      auto it = byAddr.find(a);
      if (it == byAddr.end()) bad("memory", "call through invalid function pointer");
      cal = it->second;
    }
    uint16_t bi = cal->bi;
    if (bi) return callBuiltin(s, f, in, bi, cal);
    if (cal->F->isDeclaration()) {
      if (noFork) throw MergeAbort{};
      const std::string& n = cal->name;
      // constructors / destructors of standard exceptions carry only the message
      if (n.rfind("_ZNSt", 0) == 0 || n.rfind("_ZNKSt", 0) == 0) {
        static const char* ex[] = {"13runtime_error", "11logic_error", "16invalid_argument", "12out_of_range", "12length_error", "11range_error", "14overflow_error", "12domain_error", "9exception", "9bad_alloc", "8bad_cast", "15underflow_error", "12system_error", "11regex_error"};
        for (auto e : ex)
          if (n.find(e) != std::string::npos && (n.find("C1") != std::string::npos || n.find("C2") != std::string::npos || n.find("D0") != std::string::npos || n.find("D1") != std::string::npos || n.find("D2") != std::string::npos))
            return finishCall(s, Val(0));
      }
      if (n.rfind("_ZN6spdlog", 0) == 0 && cal->F->getReturnType()->isVoidTy()) return finishCall(s, Val(0));
      unsupportedEnd("external " + demangle(n));
    }
    std::vector<Val> args;
    args.reserve(nargs);
    for (size_t i = 0; i < nargs; i++) args.push_back(getR(f, in.o[i]));
    // byval copies are made by the caller in C++ ABI except for 'byval' attributes
    auto* cb = cast<CallBase>(in.I);
    for (unsigned i = 0; i < nargs; i++)
      if (cb->isByValArgument(i)) {
        uint64_t n = DL->getTypeAllocSize(cb->getParamByValType(i));
        uint64_t src = concretize(s, args[i], 64);
        uint64_t d = alloc(s, n, STACK);
        copyMem(s, d, src, n);
        topW(s)->allocas.push_back((uint32_t)(d >> 32));
        args[i] = Val(d);
      }
    push(s, cal, std::move(args));
  }

  // ---------- one instruction
  void step(State& s) {
    FrameP& fp = topW(s);
    Frame& f = *fp;
    Ins& in = f.fn->ins[(size_t)f.ip];
    ++totInstr;
    ++s.instr;
    auto set = [&](Val&& v) {
      f.r[(size_t)in.dst] = std::move(v);
      f.ip++;
    };
    switch (in.op) {
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or:
      case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv:
      case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
        if (in.agg) return vecBin(s, f, in);
        return set(binop(s, in.op, getR(f, in.o[0]), getR(f, in.o[1]), in.w));
      case Instruction::ICmp: {
        if (in.agg) unsupportedEnd("vector icmp");
        const Val &a = getR(f, in.o[0]), &b = getR(f, in.o[1]);
        auto p = cast<ICmpInst>(in.I)->getPredicate();
        return set(litVal(icmp(s, p, a, b, in.w2)));
      }
      case Instruction::FCmp: {
        if (fpAny(s, getR(f, in.o[0]), in.w2) || fpAny(s, getR(f, in.o[1]), in.w2)) return set(anyBits(s, 1));
        double a = toD(concretize(s, getR(f, in.o[0]), in.w2), in.w2), b = toD(concretize(s, getR(f, in.o[1]), in.w2), in.w2);
        bool un = std::isnan(a) || std::isnan(b);
        bool r = false;
        switch (cast<FCmpInst>(in.I)->getPredicate()) {
          case CmpInst::FCMP_OEQ: r = !un && a == b; break;
          case CmpInst::FCMP_OGT: r = !un && a > b; break;
          case CmpInst::FCMP_OGE: r = !un && a >= b; break;
          case CmpInst::FCMP_OLT: r = !un && a < b; break;
          case CmpInst::FCMP_OLE: r = !un && a <= b; break;
          case CmpInst::FCMP_ONE: r = !un && a != b; break;
          case CmpInst::FCMP_ORD: r = !un; break;
          case CmpInst::FCMP_UNO: r = un; break;
          case CmpInst::FCMP_UEQ: r = un || a == b; break;
          case CmpInst::FCMP_UGT: r = un || a > b; break;
          case CmpInst::FCMP_UGE: r = un || a >= b; break;
          case CmpInst::FCMP_ULT: r = un || a < b; break;
          case CmpInst::FCMP_ULE: r = un || a <= b; break;
          case CmpInst::FCMP_UNE: r = un || a != b; break;
          default: break;
        }
        return set(Val((uint64_t)r));
      }
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
        if (fpAny(s, getR(f, in.o[0]), in.w) || fpAny(s, getR(f, in.o[1]), in.w)) return set(anyBits(s, in.w));
        uint64_t ua = concretize(s, getR(f, in.o[0]), in.w), ub = concretize(s, getR(f, in.o[1]), in.w);
        if (in.w == 32) {
          float a = (float)toD(ua, 32), b = (float)toD(ub, 32), r;
          r = in.op == Instruction::FAdd ? a + b : in.op == Instruction::FSub ? a - b : in.op == Instruction::FMul ? a * b : a / b;
          return set(Val(fromD(r, 32)));
        }
        double a = toD(ua, 64), b = toD(ub, 64), r;
        r = in.op == Instruction::FAdd ? a + b : in.op == Instruction::FSub ? a - b : in.op == Instruction::FMul ? a * b : a / b;
        return set(Val(fromD(r, 64)));
      }
      case Instruction::FNeg:
        if (fpAny(s, getR(f, in.o[0]), in.w)) return set(anyBits(s, in.w));
        return set(Val(fromD(-toD(concretize(s, getR(f, in.o[0]), in.w), in.w), in.w)));
      case Instruction::FPExt: case Instruction::FPTrunc:
        if (fpAny(s, getR(f, in.o[0]), in.w2)) return set(anyBits(s, in.w));
        return set(Val(fromD(toD(concretize(s, getR(f, in.o[0]), in.w2), in.w2), in.w)));
      case Instruction::UIToFP: {
        if (fpAny(s, getR(f, in.o[0]), in.w2)) return set(anyBits(s, in.w));
        uint64_t v = concretize(s, getR(f, in.o[0]), in.w2);
        if (in.w == 32) {
          float x = (float)v;
          return set(Val(fromD(x, 32)));
        }
        return set(Val(fromD((double)v, in.w)));
      }
      case Instruction::SIToFP: {
        if (fpAny(s, getR(f, in.o[0]), in.w2)) return set(anyBits(s, in.w));
        int64_t v = sx(concretize(s, getR(f, in.o[0]), in.w2), in.w2);
        if (in.w == 32) {
          float x = (float)v;
          return set(Val(fromD(x, 32)));
        }
        return set(Val(fromD((double)v, in.w)));
      }
      case Instruction::FPToUI: {
        if (fpAny(s, getR(f, in.o[0]), in.w2)) return set(anyBits(s, in.w));
        double d = toD(concretize(s, getR(f, in.o[0]), in.w2), in.w2);
        return set(Val((uint64_t)d & maskw(in.w)));
      }
      case Instruction::FPToSI: {
        if (fpAny(s, getR(f, in.o[0]), in.w2)) return set(anyBits(s, in.w));
        double d = toD(concretize(s, getR(f, in.o[0]), in.w2), in.w2);
        return set(Val((uint64_t)(int64_t)d & maskw(in.w)));
      }
      case Instruction::Trunc: {
        const Val& a = getR(f, in.o[0]);
        if (in.agg) unsupportedEnd("vector trunc");
        if (a.conc()) return set(Val(a.u & maskw(in.w)));
        Val t = a;
        return set(mapBits(in.w, [&](unsigned i) { return t.s->b[i]; }));
      }
      case Instruction::ZExt: case Instruction::SExt: {
        Val a = getR(f, in.o[0]);
        if (in.agg) unsupportedEnd("vector ext");
        bool sg = in.op == Instruction::SExt;
        if (a.conc() && in.w <= 64) return set(Val(sg ? (uint64_t)sx(a.u, in.w2) & maskw(in.w) : a.u));
        unsigned w2 = in.w2;
        return set(mapBits(in.w, [&](unsigned i) { return i < w2 ? bit(a, i) : sg ? bit(a, w2 - 1) : LF; }));
      }
      case Instruction::PtrToInt: case Instruction::IntToPtr: {
        Val a = getR(f, in.o[0]);
        if (in.w < in.w2) {
          if (a.conc()) return set(Val(a.u & maskw(in.w)));
          return set(mapBits(in.w, [&](unsigned i) { return a.s->b[i]; }));
        }
        if (in.w > in.w2 && !a.conc()) {
          unsigned w2 = in.w2;
          return set(mapBits(in.w, [&](unsigned i) { return i < w2 ? a.s->b[i] : LF; }));
        }
        return set(std::move(a));
      }
      case Instruction::BitCast: {
        if (in.agg || !in.w2) return bitcastV(s, f, in);
        Val a = getR(f, in.o[0]);
        return set(std::move(a));
      }
      case Instruction::Freeze: {
        Val a = getR(f, in.o[0]);
        return set(std::move(a));
      }
      case Instruction::Select: {
        if (in.I->getOperand(0)->getType()->isVectorTy()) unsupportedEnd("vector select");
        Lit c = simp(s, bit(getR(f, in.o[0]), 0));
        if (lconst(c)) {
          Val v = getR(f, c == LT ? in.o[1] : in.o[2]);
          return set(std::move(v));
        }
        const Val &a = getR(f, in.o[1]), &b = getR(f, in.o[2]);
        if (a.t == b.t && a.u == b.u) {
          Val v = a;
          return set(std::move(v));
        }
        if (in.ptr || in.agg || in.fp || a.t == Val::A) {
          bool t = truth(s, c);
          Val v = getR(f, t ? in.o[1] : in.o[2]);
          return set(std::move(v));
        }
        if (O.forkSelect && a.conc() && b.conc() && in.w > 1 && !lconst(c)) return set(Val(truth(s, c) ? a : b));
        return set(vSumIte(c, a, b, in.w));
      }
      case Instruction::GetElementPtr: {
        const Val& b = getR(f, in.o[0]);
        if (in.agg) unsupportedEnd("vector gep");
        bool conc = b.conc();
        for (auto& g : in.gidx)
          if (!getR(f, g.first).conc()) conc = false;
        if (conc) {
          uint64_t a = b.u + (uint64_t)in.goff;
          for (size_t i = 0; i < in.gidx.size(); i++) a += (uint64_t)sx(getR(f, in.gidx[i].first).u, in.gw[i]) * (uint64_t)in.gidx[i].second;
          return set(Val(a));
        }
        Val a = vAdd(b, Val((uint64_t)in.goff), 64);
        for (size_t i = 0; i < in.gidx.size(); i++) {
          Val x = getR(f, in.gidx[i].first);
          unsigned gw = in.gw[i];
          if (x.conc()) x = Val((uint64_t)sx(x.u, gw));
          else if (gw < 64) x = mapBits(64, [&](unsigned k) { return bit(x, k < gw ? k : gw - 1); });
          a = vAdd(a, vMul(x, Val((uint64_t)in.gidx[i].second), 64), 64);
        }
        return set(std::move(a));
      }
      case Instruction::Alloca: {
        auto* ai = cast<AllocaInst>(in.I);
        uint64_t n = DL->getTypeAllocSize(ai->getAllocatedType());
        if (ai->isArrayAllocation()) n *= concretize(s, getR(f, in.o[0]), in.w2);
        uint64_t a = alloc(s, n, STACK);
        f.allocas.push_back((uint32_t)(a >> 32));
        return set(Val(a));
      }
      case Instruction::Load: {
        uint64_t a = concretize(s, getR(f, in.o[0]), 64);
        if (in.w) return set(loadInt(s, a, in.w));
        Val v = loadT(s, a, in.I->getType());
        return set(std::move(v));
      }
      case Instruction::Store: {
        uint64_t a = concretize(s, getR(f, in.o[1]), 64);
        if (in.w2) storeInt(s, a, getR(f, in.o[0]), in.w2);
        else storeT(s, a, getR(f, in.o[0]), in.I->getOperand(0)->getType());
        s.concN = 0;
        f.ip++;
        return;
      }
      case Instruction::AtomicRMW: {
        auto* rmw = cast<AtomicRMWInst>(in.I);
        uint64_t a = concretize(s, getR(f, in.o[0]), 64);
        Val old = loadInt(s, a, in.w);
        Val x = getR(f, in.o[1]);
        Val nv;
        switch (rmw->getOperation()) {
          case AtomicRMWInst::Add: nv = binop(s, Instruction::Add, old, x, in.w); break;
          case AtomicRMWInst::Sub: nv = binop(s, Instruction::Sub, old, x, in.w); break;
          case AtomicRMWInst::Xchg: nv = x; break;
          case AtomicRMWInst::And: nv = binop(s, Instruction::And, old, x, in.w); break;
          case AtomicRMWInst::Or: nv = binop(s, Instruction::Or, old, x, in.w); break;
          default: unsupportedEnd("atomicrmw");
        }
        storeInt(s, a, nv, in.w);
        return set(std::move(old));
      }
      case Instruction::AtomicCmpXchg: {
        auto* cx = cast<AtomicCmpXchgInst>(in.I);
        unsigned w = tw(cx->getCompareOperand()->getType());
        uint64_t a = concretize(s, getR(f, in.o[0]), 64);
        Val old = loadInt(s, a, w);
        Lit e = vEq(old, getR(f, in.o[1]), w);
        bool t = truth(s, e);
        if (t) storeInt(s, a, getR(f, in.o[2]), w);
        Agg* ag = new Agg;
        ag->v.push_back(old);
        ag->v.push_back(Val((uint64_t)t));
        return set(Val(ag));
      }
      case Instruction::Fence: f.ip++; return;
      case Instruction::ExtractValue: {
        auto* ev = cast<ExtractValueInst>(in.I);
        Val v = getR(f, in.o[0]);
        for (unsigned i : ev->indices()) {
          Val t = v.a->v[i];
          v = t;
        }
        return set(std::move(v));
      }
      case Instruction::InsertValue: {
        auto* iv = cast<InsertValueInst>(in.I);
        Val v = getR(f, in.o[0]);
        std::function<Val(const Val&, unsigned)> ins = [&](const Val& x, unsigned d) -> Val {
          if (d == iv->getNumIndices()) return getR(f, in.o[1]);
          Agg* n = new Agg;
          n->v = x.a->v;
          n->v[iv->getIndices()[d]] = ins(x.a->v[iv->getIndices()[d]], d + 1);
          return Val(n);
        };
        Val r = ins(v, 0);
        return set(std::move(r));
      }
      case Instruction::ExtractElement: {
        uint64_t i = concretize(s, getR(f, in.o[1]), 64);
        Val v = getR(f, in.o[0]).a->v[i];
        return set(std::move(v));
      }
      case Instruction::InsertElement: {
        uint64_t i = concretize(s, getR(f, in.o[2]), 64);
        Agg* n = new Agg;
        n->v = getR(f, in.o[0]).a->v;
        n->v[i] = getR(f, in.o[1]);
        return set(Val(n));
      }
      case Instruction::ShuffleVector: {
        auto* sv = cast<ShuffleVectorInst>(in.I);
        Agg* n = new Agg;
        auto& a = getR(f, in.o[0]).a->v;
        auto& b = getR(f, in.o[1]).a->v;
        for (int m : sv->getShuffleMask()) n->v.push_back(m < 0 ? Val(0) : (size_t)m < a.size() ? a[(size_t)m] : b[(size_t)m - a.size()]);
        return set(Val(n));
      }
      case Instruction::Br: {
        if (in.o.empty()) return jump(s, in.succ[0]);
        Lit c = bit(getR(f, in.o[0]), 0);
        ModelP o;
        bool cur = false;
        int d = decide(s, c, &o, &cur);
        if (d != 2) return jump(s, d ? in.succ[0] : in.succ[1]);
        if (in.succ[0] == in.succ[1]) return jump(s, in.succ[0]);
        if (tryMerge(s, in, c, o, cur)) return;
        if (noFork) throw MergeAbort{};
        ++forks;
        auto n = clone(s);
        addPC(*n, cur ? lnot(c) : c);
        n->model = o;
        jump(*n, cur ? in.succ[1] : in.succ[0]);
        work.push_back(std::move(n));
        addPC(s, cur ? c : lnot(c));
        return jump(s, cur ? in.succ[0] : in.succ[1]);
      }
      case Instruction::Switch: {
        Val v = getR(f, in.o[0]);
        if (!v.conc()) v = mapBits(in.w2, [&](unsigned i) { return simp(s, v.s->b[i]); });
        if (v.conc()) {
          for (size_t i = 0; i < in.cases.size(); i++)
            if (in.cases[i] == v.u) return jump(s, in.succ[i + 1]);
          return jump(s, in.succ[0]);
        }
        if (noFork) throw MergeAbort{};
        // group by destination
        std::map<int, Lit> dst;
        Lit none = LT;
        for (size_t i = 0; i < in.cases.size(); i++) {
          Lit e = vEq(v, Val(in.cases[i]), in.w2);
          auto it = dst.find(in.succ[i + 1]);
          if (it == dst.end()) dst[in.succ[i + 1]] = e;
          else it->second = G.OR_(it->second, e);
          none = G.AND_(none, lnot(e));
        }
        {
          auto it = dst.find(in.succ[0]);
          if (it == dst.end()) dst[in.succ[0]] = none;
          else it->second = G.OR_(it->second, none);
        }
        std::vector<std::pair<int, ModelP>> ok;
        int mine = -1;
        for (auto& d : dst) {
          Lit l = simp(s, d.second);
          if (l == LF) continue;
          if (evalM(s, l)) {
            mine = d.first;
            continue;
          }
          ModelP m;
          if (query(s, l, &m) == 1) ok.push_back({d.first, m});
        }
        for (auto& k : ok) {
          ++forks;
          auto n = clone(s);
          addPC(*n, dst[k.first]);
          n->model = k.second;
          jump(*n, k.first);
          work.push_back(std::move(n));
        }
        if (ok.empty()) addKnown(s, dst[mine]);
        else addPC(s, dst[mine]);
        return jump(s, mine);
      }
      case Instruction::Call:
      case Instruction::Invoke:
        return doCall(s, f, in);
      case Instruction::Ret: {
        Val v;
        if (!in.o.empty()) v = getR(f, in.o[0]);
        popFrame(s);
        if (s.st.empty()) {
          return;
        }
        return finishCall(s, v);
      }
      case Instruction::Resume: {
        uint64_t e = getR(f, in.o[0]).a->v[0].u;
        popFrame(s);
        if (s.st.empty()) bad("uncaught", "uncaught exception");
        return unwind(s, e);
      }
      case Instruction::Unreachable: bad("ub", "unreachable code executed");
      default: unsupportedEnd(std::string("instruction ") + in.I->getOpcodeName());
    }
  }
  void vecBin(State& s, Frame& f, Ins& in) {
    const Val &a = getR(f, in.o[0]), &b = getR(f, in.o[1]);
    unsigned w = tw(cast<FixedVectorType>(in.I->getType())->getElementType());
    Agg* n = new Agg;
    Val r(n);
    for (size_t i = 0; i < a.a->v.size(); i++) n->v.push_back(binop(s, in.op, a.a->v[i], b.a->v[i], w));
    f.r[(size_t)in.dst] = r;
    f.ip++;
  }
  void bitcastV(State& s, Frame& f, Ins& in) {
    Type* st = in.I->getOperand(0)->getType();
    Type* dt = in.I->getType();
    Val a = getR(f, in.o[0]);
    std::vector<Lit> bits;
    if (auto* v = dyn_cast<FixedVectorType>(st)) {
      unsigned w = tw(v->getElementType());
      for (auto& x : a.a->v)
        for (unsigned i = 0; i < w; i++) bits.push_back(bit(x, i));
    } else
      for (unsigned i = 0; i < tw(st); i++) bits.push_back(bit(a, i));
    if (auto* v = dyn_cast<FixedVectorType>(dt)) {
      unsigned w = tw(v->getElementType());
      Agg* n = new Agg;
      for (unsigned k = 0; k < v->getNumElements(); k++) n->v.push_back(mapBits(w, [&](unsigned i) { return bits[k * w + i]; }));
      f.r[(size_t)in.dst] = Val(n);
    } else
      f.r[(size_t)in.dst] = mapBits(tw(dt), [&](unsigned i) { return bits[i]; });
    f.ip++;
    (void)s;
  }
  Val binop(State& s, unsigned op, const Val& a, const Val& b, unsigned w) {
    if (a.conc() && b.conc() && w <= 64) {
      uint64_t x = a.u, y = b.u, m = maskw(w);
      switch (op) {
        case Instruction::Add: return Val((x + y) & m);
        case Instruction::Sub: return Val((x - y) & m);
        case Instruction::Mul: return Val((x * y) & m);
        case Instruction::And: return Val(x & y);
        case Instruction::Or: return Val(x | y);
        case Instruction::Xor: return Val(x ^ y);
        case Instruction::Shl: return Val(y >= w ? 0 : (x << y) & m);
        case Instruction::LShr: return Val(y >= w ? 0 : x >> y);
        case Instruction::AShr: return Val((uint64_t)(sx(x, w) >> (y >= w ? w - 1 : y)) & m);
        case Instruction::UDiv: if (!y) bad("ub", "division by zero"); return Val(x / y);
        case Instruction::URem: if (!y) bad("ub", "division by zero"); return Val(x % y);
        case Instruction::SDiv: if (!y) bad("ub", "division by zero"); return Val((uint64_t)(sx(y, w) == -1 ? -sx(x, w) : sx(x, w) / sx(y, w)) & m);
        case Instruction::SRem: if (!y) bad("ub", "division by zero"); return Val((uint64_t)(sx(y, w) == -1 ? 0 : sx(x, w) % sx(y, w)) & m);
      }
    }
    switch (op) {
      case Instruction::Add: return vSum(a, b, w, false);
      case Instruction::Sub: return vSum(a, b, w, true);
      case Instruction::Mul: return vMul(a, b, w);
      case Instruction::And: return mapBits(w, [&](unsigned i) { return G.AND_(bit(a, i), bit(b, i)); });
      case Instruction::Or: return mapBits(w, [&](unsigned i) { return G.OR_(bit(a, i), bit(b, i)); });
      case Instruction::Xor: return mapBits(w, [&](unsigned i) { return G.XOR_(bit(a, i), bit(b, i)); });
      case Instruction::Shl: return vShift(SHL, a, b, w);
      case Instruction::LShr: return vShift(LSHR, a, b, w);
      case Instruction::AShr: return vShift(ASHR, a, b, w);
      case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
        if (truth(s, vEq(b, Val(0), w))) bad("ub", "division by zero");
        bool sg = op == Instruction::SDiv || op == Instruction::SRem;
        bool dv = op == Instruction::UDiv || op == Instruction::SDiv;
        if (b.conc() && (b.u & (b.u - 1)) == 0 && !sg && w <= 64) {
          unsigned k = (unsigned)__builtin_ctzll(b.u);
          return dv ? vShift(LSHR, a, Val((uint64_t)k), w) : mapBits(w, [&](unsigned i) { return i < k ? bit(a, i) : LF; });
        }
        Val x = a, y = b;
        Lit sa = LF, sb = LF;
        if (sg) {
          sa = bit(a, w - 1);
          sb = bit(b, w - 1);
          x = vIte(sa, vSub(Val(0), a, w), a, w);
          y = vIte(sb, vSub(Val(0), b, w), b, w);
        }
        Val q, r;
        vDivRem(x, y, w, q, r);
        if (sg) {
          Lit sq = G.XOR_(sa, sb);
          q = vIte(sq, vSub(Val(0), q, w), q, w);
          r = vIte(sa, vSub(Val(0), r, w), r, w);
        }
        return dv ? q : r;
      }
    }
    return Val(0);
  }
  Lit icmp(State& s, CmpInst::Predicate p, const Val& a, const Val& b, unsigned w) {
    if (a.conc() && b.conc() && w <= 64) {
      uint64_t x = a.u, y = b.u;
      int64_t i = sx(x, w), j = sx(y, w);
      bool r = false;
      switch (p) {
        case CmpInst::ICMP_EQ: r = x == y; break;
        case CmpInst::ICMP_NE: r = x != y; break;
        case CmpInst::ICMP_ULT: r = x < y; break;
        case CmpInst::ICMP_ULE: r = x <= y; break;
        case CmpInst::ICMP_UGT: r = x > y; break;
        case CmpInst::ICMP_UGE: r = x >= y; break;
        case CmpInst::ICMP_SLT: r = i < j; break;
        case CmpInst::ICMP_SLE: r = i <= j; break;
        case CmpInst::ICMP_SGT: r = i > j; break;
        case CmpInst::ICMP_SGE: r = i >= j; break;
        default: break;
      }
      return r ? LT : LF;
    }
    Lit l = LF;
    switch (p) {
      case CmpInst::ICMP_EQ: l = vSumEq(a, b, w); break;
      case CmpInst::ICMP_NE: l = lnot(vSumEq(a, b, w)); break;
      case CmpInst::ICMP_ULT: l = vUlt(a, b, w); break;
      case CmpInst::ICMP_ULE: l = lnot(vUlt(b, a, w)); break;
      case CmpInst::ICMP_UGT: l = vUlt(b, a, w); break;
      case CmpInst::ICMP_UGE: l = lnot(vUlt(a, b, w)); break;
      case CmpInst::ICMP_SLT: l = vSlt(a, b, w); break;
      case CmpInst::ICMP_SLE: l = lnot(vSlt(b, a, w)); break;
      case CmpInst::ICMP_SGT: l = vSlt(b, a, w); break;
      case CmpInst::ICMP_SGE: l = lnot(vSlt(a, b, w)); break;
      default: break;
    }
    return simp(s, l);
  }

  // ---------- driver
  void load() {
    SMDiagnostic err;
    M = parseIRFile(O.file, err, ctx);
    if (!M) {
      err.print("symex", errs());
      exit(3);
    }
    DL = &M->getDataLayout();
    auto B = [&](const char* a, std::vector<std::string> b) { stdBases[a] = b; };
    B("_ZTISt11logic_error", {"_ZTISt9exception"});
    B("_ZTISt13runtime_error", {"_ZTISt9exception"});
    B("_ZTISt16invalid_argument", {"_ZTISt11logic_error"});
    B("_ZTISt12out_of_range", {"_ZTISt11logic_error"});
    B("_ZTISt12length_error", {"_ZTISt11logic_error"});
    B("_ZTISt12domain_error", {"_ZTISt11logic_error"});
    B("_ZTISt11range_error", {"_ZTISt13runtime_error"});
    B("_ZTISt14overflow_error", {"_ZTISt13runtime_error"});
    B("_ZTISt15underflow_error", {"_ZTISt13runtime_error"});
    B("_ZTISt12system_error", {"_ZTISt13runtime_error"});
    B("_ZTISt11regex_error", {"_ZTISt13runtime_error"});
    B("_ZTINSt8ios_base7failureB5cxx11E", {"_ZTISt12system_error"});
    B("_ZTINSt10filesystem7__cxx1116filesystem_errorE", {"_ZTISt12system_error"});
    B("_ZTISt9bad_alloc", {"_ZTISt9exception"});
    B("_ZTISt20bad_array_new_length", {"_ZTISt9bad_alloc"});
    B("_ZTISt8bad_cast", {"_ZTISt9exception"});
    B("_ZTISt17bad_function_call", {"_ZTISt9exception"});
    B("_ZTISt18bad_variant_access", {"_ZTISt9exception"});
    B("_ZTIN3fmt2v912format_errorE", {"_ZTISt13runtime_error"});
    for (auto& g : M->globals()) addrOf(&g);
    for (auto& f : *M)
      if (!f.isIntrinsic()) addrOf(&f);
    if (auto* gc = M->getNamedGlobal("llvm.global_ctors"))
      if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer())) {
        std::vector<std::pair<uint64_t, FnInfo*>> v;
        for (auto& o : arr->operands()) {
          auto* cs = cast<ConstantStruct>(o);
          auto* fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts());
          if (fn) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), info(fn)});
        }
        std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
        for (auto& x : v) ctors.push_back(x.second);
      }
    auto* ef = M->getFunction(O.entry);
    if (!ef) {
      fprintf(stderr, "no entry %s\n", O.entry.c_str());
      exit(3);
    }
    entry = info(ef);
  }

  bool dbg = getenv("SYMEX_TRACE") != nullptr;
  void runState(std::unique_ptr<State> sp) {
    State& s = *sp;
    try {
      for (;;) {
        if (s.st.empty()) {
          if (s.ctorIdx < (int)ctors.size()) {
            push(s, ctors[(size_t)s.ctorIdx++], {});
            continue;
          } else if (s.ctorIdx == (int)ctors.size()) {
            s.ctorIdx++;
            push(s, entry, {});
            continue;
          }
          endPath(s);
          return;
        }
        if ((totInstr & 0x3ff) == 0) {
          if (now() > O.maxTime) {
            incomplete = "time limit";
            work.clear();
            return;
          }
        }
        if (s.instr > O.maxPathInstr) bad("hang", "path exceeds instruction bound (non-termination)");
        if (dbg) trace(s);
        step(s);
      }
    } catch (PathEnd& e) {
      if (e.kind == "assume") {
        ++infeasible;
        return;
      }
      if (e.kind == "done") {
        endPath(s);
        return;
      }
      ++aborted;
      if (e.kind == "stop" || e.kind == "unsupported") {
        if (e.kind == "unsupported" && O.verbose) fprintf(stderr, "UNSUPPORTED %s\n%s", e.label.c_str(), where(s).c_str());
        return;
      }
      violation(s, e.kind, e.label, s.model);
    }
  }
  void trace(State& s) {
    auto& f = *s.st.back();
    std::string t;
    raw_string_ostream os(t);
    f.fn->ins[(size_t)f.ip].I->print(os);
    fprintf(stderr, "[%zu] %s: %s\n", s.st.size(), f.fn->name.substr(0, 60).c_str(), t.c_str());
  }
  void run() {
    load();
    auto s = std::make_unique<State>();
    auto m = std::make_shared<Model>();
    m->id = SOL.nextModel++;
    s->model = m;
    s->nextId = gnext;
    s->mem = gmem;
    work.push_back(std::move(s));
    while (!work.empty()) {
      auto x = std::move(work.back());
      work.pop_back();
      if (paths + aborted > O.maxPaths) {
        incomplete = "path limit";
        break;
      }
      runState(std::move(x));
      if (!incomplete.empty() && incomplete == "time limit") break;
    }
  }
  static std::string esc(const std::string& s) {
    std::string r;
    for (char c : s) {
      if (c == '"' || c == '\\') r += '\\', r += c;
      else if (c == '\n') r += "\\n";
      else if ((unsigned char)c < 32) r += ' ';
      else r += c;
    }
    return r;
  }
  static std::string hex(const std::vector<uint8_t>& v) {
    std::string r;
    char b[3];
    for (auto x : v) {
      snprintf(b, 3, "%02x", x);
      r += b;
    }
    return r;
  }
  std::string insJson(const std::vector<std::pair<std::string, std::vector<uint8_t>>>& v) {
    std::string r = "[";
    for (size_t i = 0; i < v.size(); i++) r += std::string(i ? "," : "") + "[\"" + esc(v[i].first) + "\",\"" + hex(v[i].second) + "\"]";
    return r + "]";
  }
  void report() {
    FILE* o = O.out.empty() ? stdout : fopen(O.out.c_str(), "w");
    fprintf(o, "{\"entry\":\"%s\",\"params\":[", O.entry.c_str());
    for (size_t i = 0; i < O.params.size(); i++) fprintf(o, "%s%llu", i ? "," : "", (unsigned long long)O.params[i]);
    fprintf(o, "],\"paths\":%llu,\"aborted\":%llu,\"infeasible\":%llu,\"instructions\":%llu,\"forks\":%llu,\"merges\":%llu,\"merge_fail\":%llu,\n", (unsigned long long)paths, (unsigned long long)aborted, (unsigned long long)infeasible, (unsigned long long)totInstr, (unsigned long long)forks, (unsigned long long)merges, (unsigned long long)mergeFail);
    fprintf(o, "\"queries\":%llu,\"model_hits\":%llu,\"cache_hits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"asserts\":%llu,\"asserts_folded\":%llu,\"aig_nodes\":%zu,\"inputs\":%zu,\"cuts\":%llu,\"refused_alloc_paths\":%llu,\"uninit_bytes\":%llu,\"wall_s\":%.2f,\n", (unsigned long long)SOL.queries, (unsigned long long)flipHits, (unsigned long long)cacheHits, (unsigned long long)SOL.sat, (unsigned long long)SOL.unsat, (unsigned long long)SOL.unknown, SOL.time, SOL.maxQ, (unsigned long long)asserts, (unsigned long long)folded, G.n.size(), G.inputs.size(), (unsigned long long)cuts, (unsigned long long)refusedAllocs, (unsigned long long)uninitReads, now());
    fprintf(o, "\"incomplete\":\"%s\",\"unsupported\":{", esc(incomplete).c_str());
    int k = 0;
    for (auto& u : unsupported) fprintf(o, "%s\"%s\":%llu", k++ ? "," : "", esc(u.first).c_str(), (unsigned long long)u.second);
    fprintf(o, "},\"reach\":{");
    k = 0;
    for (auto& u : reach) fprintf(o, "%s\"%s\":%llu", k++ ? "," : "", esc(u.first).c_str(), (unsigned long long)u.second);
    fprintf(o, "},\"assert_labels\":{");
    k = 0;
    for (auto& u : assertCnt) fprintf(o, "%s\"%s\":%llu", k++ ? "," : "", esc(u.first).c_str(), (unsigned long long)u.second);
    fprintf(o, "},\n\"functions\":[");
    k = 0;
    std::set<std::string> fn;
    for (auto& p : fns)
      if (p.second->entered && p.second->name.find("shiguredo") != std::string::npos) fn.insert(demangle(p.second->name));
    for (auto& n : fn) fprintf(o, "%s\"%s\"", k++ ? "," : "", esc(n.substr(0, 160)).c_str());
    fprintf(o, "],\n\"violations\":[");
    for (size_t i = 0; i < viol.size(); i++)
      fprintf(o, "%s{\"kind\":\"%s\",\"label\":\"%s\",\"where\":\"%s\",\"inputs\":%s}", i ? ",\n" : "", esc(viol[i].kind).c_str(), esc(viol[i].label).c_str(), esc(viol[i].where).c_str(), insJson(viol[i].inputs).c_str());
    fprintf(o, "],\n\"witnesses\":[");
    for (size_t i = 0; i < wit.size(); i++)
      fprintf(o, "%s{\"label\":\"%s\",\"refused\":%d,\"inputs\":%s,\"obs\":\"%s\"}", i ? ",\n" : "", esc(wit[i].label).c_str(), wit[i].refused, insJson(wit[i].inputs).c_str(), hex(wit[i].obs).c_str());
    fprintf(o, "]}\n");
    if (o != stdout) fclose(o);
    if (O.verbose) {
      std::vector<std::pair<uint64_t, std::string>> v;
      for (auto& p : fns)
        if (p.second->count) v.push_back({p.second->count, p.second->name});
      std::sort(v.rbegin(), v.rend());
      for (size_t i = 0; i < v.size() && i < 12; i++) fprintf(stderr, "%10llu %s\n", (unsigned long long)v[i].first, demangle(v[i].second).substr(0, 100).c_str());
    }
  }
};

int main(int argc, char** argv) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") O.entry = nx();
    else if (a == "--param") O.params.push_back(strtoull(nx().c_str(), nullptr, 0));
    else if (a == "--out") O.out = nx();
    else if (a == "--max-time") O.maxTime = atof(nx().c_str());
    else if (a == "--max-path-instr") O.maxPathInstr = strtoull(nx().c_str(), nullptr, 0);
    else if (a == "--max-paths") O.maxPaths = strtoull(nx().c_str(), nullptr, 0);
    else if (a == "--sym-alloc") O.symAlloc = strtoull(nx().c_str(), nullptr, 0);
    else if (a == "--max-wit") O.maxWit = (unsigned)atoi(nx().c_str());
    else if (a == "--no-merge") O.merge = false;
    else if (a == "--fork-select") O.forkSelect = true;
    else if (a == "--fp-free") O.fpFree = true;
    else if (a == "-v") O.verbose = true;
    else O.file = a;
  }
  now();
  Exec* e = new Exec;
  e->run();
  e->report();
  fflush(nullptr);
  _exit(0);
}
