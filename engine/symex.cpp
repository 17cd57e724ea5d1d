// Symbolic executor for LLVM IR. See DESIGN.md.
#include <llvm/ADT/APInt.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>

#include <functional>

#include "mem.h"
#include "uni.h"

using namespace llvm;
static const DataLayout *DL;
static Module *M;

enum KOp : u8 {
  K_MOV, K_BIN, K_CMP, K_TRUNC, K_ZEXT, K_SEXT, K_SELECT, K_LOAD, K_STORE, K_GEP, K_BR, K_CBR,
  K_SWITCH, K_RET, K_CALL, K_UNREACH, K_RESUME, K_LPAD, K_ALLOCA, K_FBIN, K_FCMP, K_FCAST, K_FNEG,
  K_UNSUP, K_COV, K_INSERTV, K_ARMW, K_CMPXCHG, K_VAARG
};
struct KI {
  u8 op, sub;
  u16 w, n;
  int dst, a, b, c;
  u64 imm;
  void *p;
};
struct SlotDesc { u32 off; u16 w; };
struct Edge {
  int target;  // pc
  std::vector<std::pair<int, int>> copies;
};
struct KF;
struct CallDesc;
typedef bool (*Builtin)(CallDesc *cd, V *args, unsigned n, V *ret);
struct CallDesc {
  Function *direct = nullptr;
  KF *kf = nullptr;
  Builtin bi = nullptr;
  int callee = 0;
  std::vector<int> args;      // flattened operands
  std::vector<u16> argw;
  std::vector<std::pair<int, std::pair<u64, unsigned>>> byval;  // arg index -> size, align
  unsigned nfixed = 0;        // flattened slots of the callee's fixed parameters
  int edge = -1, unwind = -1;
  unsigned intr = 0;
  std::string name;
  unsigned retw = 0, nret = 0;
};
struct SwitchDesc { std::vector<std::pair<u64, int>> cases; int def; };
struct GepDesc { std::vector<std::pair<int, std::pair<i64, unsigned>>> idx; };
struct Clause { int kind; u64 ti; std::vector<u64> filter; };  // 0 catch, 1 filter
struct LPDesc { std::vector<Clause> clauses; bool cleanup; };
struct KF {
  Function *f = nullptr;
  bool compiled = false;
  std::vector<KI> code;
  std::vector<const Instruction *> dbg;
  std::vector<V> consts;
  std::vector<Edge> edges;
  int nregs = 0;
  unsigned nargs = 0;
  bool repo = false;
  std::string name;
};
struct Frame {
  KF *f;
  V *r;
  int pc;
  u64 stk;
  int retdst;
  unsigned retn;
  int edge, unwind;
  std::vector<V> *va;
};

static std::vector<Frame> g_fr;
static V *g_regs;
static size_t g_regtop = 0;
static const size_t NREGS = 4000000;
static std::unordered_map<const Function *, KF *> g_kf;
static std::unordered_map<const GlobalValue *, u64> g_gaddr;
static std::unordered_map<u64, Function *> g_faddr;
static std::unordered_map<u64, Builtin> g_baddr;  // address -> builtin (fake vtable slots)
static std::unordered_map<std::string, Builtin> g_builtins;
static Builtin lookupBuiltin(const Function *f);
static std::map<u64, std::string> g_tiname;
static std::unordered_map<u64, std::vector<u64>> g_tibase;
static std::unordered_map<std::string, u64> g_tibyname;
static std::map<std::string, u64> g_extern;
static u64 g_fakevt = 0;

// exceptions
struct Exc { u64 obj, ti; };
static Exc g_exc;
static std::vector<Exc> g_caught;
static std::unordered_map<u64, u64> g_exti;  // exception object -> typeinfo

static std::string demangle(const std::string &n);
#include <cxxabi.h>
static std::string demangle(const std::string &n) {
  int st;
  char *d = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &st);
  std::string r = st == 0 && d ? d : n;
  free(d);
  return r;
}

static std::string currentLocation() {
  std::string r;
  int shown = 0;
  for (int i = (int)g_fr.size() - 1; i >= 0 && shown < 8; i--) {
    Frame &f = g_fr[i];
    int pc = f.pc - 1;
    if (pc < 0 || pc >= (int)f.f->dbg.size() || !f.f->dbg[pc]) continue;
    const Instruction *I = f.f->dbg[pc];
    const DILocation *loc = I->getDebugLoc().get();
    while (loc && shown < 8) {
      std::string fn = loc->getFilename().str();
      if (fn.find("/include/c++/") == std::string::npos && fn.find("/model/") == std::string::npos) {
        size_t p = fn.rfind('/');
        std::string nm = loc->getScope()->getSubprogram() ? loc->getScope()->getSubprogram()->getName().str() : "?";
        r += (r.empty() ? "" : " < ") + nm + "@" + fn.substr(p + 1) + ":" + std::to_string(loc->getLine());
        shown++;
      }
      loc = loc->getInlinedAt();
    }
  }
  if (r.empty() && !g_fr.empty()) r = demangle(g_fr.back().f->name);
  return r;
}

// ---------------------------------------------------------------- constants and globals
static unsigned slotWidth(Type *t) {
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  return 0;
}
static bool badType(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth() > 64;
  if (t->isPointerTy() || t->isFloatTy() || t->isDoubleTy() || t->isVoidTy() || t->isLabelTy() || t->isMetadataTy() || t->isTokenTy()) return false;
  if (auto *s = dyn_cast<StructType>(t)) { for (auto *e : s->elements()) if (badType(e)) return true; return false; }
  if (auto *a = dyn_cast<ArrayType>(t)) return badType(a->getElementType());
  if (auto *v = dyn_cast<FixedVectorType>(t)) return badType(v->getElementType());
  return true;
}
static unsigned countSlots(Type *t) {
  if (t->isVoidTy()) return 0;
  if (auto *s = dyn_cast<StructType>(t)) { unsigned n = 0; for (auto *e : s->elements()) n += countSlots(e); return n; }
  if (auto *a = dyn_cast<ArrayType>(t)) return a->getNumElements() * countSlots(a->getElementType());
  if (auto *v = dyn_cast<FixedVectorType>(t)) return v->getNumElements() * countSlots(v->getElementType());
  return 1;
}
static void layoutSlots(Type *t, u64 off, std::vector<SlotDesc> &o) {
  if (auto *s = dyn_cast<StructType>(t)) {
    const StructLayout *sl = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); i++) layoutSlots(s->getElementType(i), off + sl->getElementOffset(i), o);
  } else if (auto *a = dyn_cast<ArrayType>(t)) {
    u64 sz = DL->getTypeAllocSize(a->getElementType());
    for (unsigned i = 0; i < a->getNumElements(); i++) layoutSlots(a->getElementType(), off + i * sz, o);
  } else if (auto *v = dyn_cast<FixedVectorType>(t)) {
    u64 sz = DL->getTypeStoreSize(v->getElementType());
    for (unsigned i = 0; i < v->getNumElements(); i++) layoutSlots(v->getElementType(), off + i * sz, o);
  } else o.push_back({(u32)off, (u16)slotWidth(t)});
}

static u64 externObject(const std::string &name, u64 size = 64) {
  auto it = g_extern.find(name);
  if (it != g_extern.end()) return it->second;
  u64 a = globAlloc(size, 16);
  g_extern[name] = a;
  return a;
}
static u64 gaddr(const GlobalValue *g) {
  auto it = g_gaddr.find(g);
  if (it != g_gaddr.end()) return it->second;
  u64 a;
  if (auto *f = dyn_cast<Function>(g)) {
    a = g_functop;
    g_functop += 16;
    g_faddr[a] = const_cast<Function *>(f);
  } else if (auto *al = dyn_cast<GlobalAlias>(g)) {
    a = gaddr(cast<GlobalValue>(al->getAliasee()->stripPointerCasts()));
  } else {
    auto *gv = cast<GlobalVariable>(g);
    u64 sz = gv->getValueType()->isSized() ? (u64)DL->getTypeAllocSize(gv->getValueType()) : 64;
    if (gv->isDeclaration()) {
      std::string nm = gv->getName().str();
      if (nm.compare(0, 4, "_ZTV") == 0 && g_fakevt) a = g_fakevt;
      else {
        a = externObject(nm, std::max<u64>(sz, 64));
        if (nm.compare(0, 4, "_ZTI") == 0) {
          g_tiname[a] = nm;
          g_tibyname[nm] = a;
          u64 s = globAlloc(nm.size(), 1);  // its name
          for (size_t i = 4; i <= nm.size(); i++) writeMem(s + i - 4, C(i < nm.size() ? (u8)nm[i] : 0), 8);
          writeMem(a + 8, C(s), 64);
        }
      }
    } else a = globAlloc(sz ? sz : 1, gv->getAlign() ? gv->getAlign()->value() : 16);
  }
  g_gaddr[g] = a;
  return a;
}
static void evalConst(const Constant *c, std::vector<V> &o);
static u64 evalConst1(const Constant *c) {
  std::vector<V> o;
  evalConst(c, o);
  return o.empty() ? 0 : o[0].c;
}
static bool g_constbad;
static void evalConst(const Constant *c, std::vector<V> &o) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() > 64) { g_constbad = true; o.push_back(C(0)); return; }
    o.push_back(C(ci->getZExtValue()));
  } else if (auto *cf = dyn_cast<ConstantFP>(c)) {
    o.push_back(C(cf->getValueAPF().bitcastToAPInt().getZExtValue()));
  } else if (isa<ConstantPointerNull>(c)) o.push_back(C(0));
  else if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantTokenNone>(c)) {
    unsigned n = countSlots(c->getType());
    for (unsigned i = 0; i < n; i++) o.push_back(C(0));
  } else if (auto *g = dyn_cast<GlobalValue>(c)) o.push_back(C(gaddr(g)));
  else if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
    for (unsigned i = 0; i < ca->getNumOperands(); i++) evalConst(cast<Constant>(ca->getOperand(i)), o);
  } else if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    for (unsigned i = 0; i < cd->getNumElements(); i++) evalConst(cd->getElementAsConstant(i), o);
  } else if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) { g_constbad = true; }
        o.push_back(C(evalConst1(ce->getOperand(0)) + off.getSExtValue()));
        break;
      }
      case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast:
        evalConst(ce->getOperand(0), o);
        break;
      case Instruction::Trunc: o.push_back(C(evalConst1(ce->getOperand(0)) & maskw(ce->getType()->getIntegerBitWidth()))); break;
      case Instruction::Add: o.push_back(C(evalConst1(ce->getOperand(0)) + evalConst1(ce->getOperand(1)))); break;
      case Instruction::Sub: o.push_back(C(evalConst1(ce->getOperand(0)) - evalConst1(ce->getOperand(1)))); break;
      case Instruction::ICmp: {
        u64 x = evalConst1(ce->getOperand(0)), y = evalConst1(ce->getOperand(1));
        o.push_back(C(ce->getPredicate() == CmpInst::ICMP_EQ ? x == y : x != y));
        break;
      }
      default: g_constbad = true; o.push_back(C(0));
    }
  } else { g_constbad = true; o.push_back(C(0)); }
}
static void writeConst(const Constant *c, u64 a) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    StringRef raw = cd->getRawDataValues();
    memcpy((void *)a, raw.data(), raw.size());
    return;
  }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
    if (auto *st = dyn_cast<StructType>(t)) {
      const StructLayout *sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < ca->getNumOperands(); i++) writeConst(cast<Constant>(ca->getOperand(i)), a + sl->getElementOffset(i));
    } else {
      Type *et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
      u64 sz = DL->getTypeAllocSize(et);
      for (unsigned i = 0; i < ca->getNumOperands(); i++) writeConst(cast<Constant>(ca->getOperand(i)), a + i * sz);
    }
    return;
  }
  u64 v = evalConst1(c);
  memcpy((void *)a, &v, DL->getTypeStoreSize(t));
}

// ---------------------------------------------------------------- compilation
struct Compiler {
  KF *k;
  std::unordered_map<const Value *, int> reg;
  std::unordered_map<const BasicBlock *, int> bbpc;
  std::unordered_map<const Constant *, int> cpool;
  std::vector<std::pair<int, std::pair<const BasicBlock *, const BasicBlock *>>> fix;  // edge id -> (from,to)
  int newConst(const std::vector<V> &vs) {
    int id = -1 - (int)k->consts.size();
    for (auto &v : vs) k->consts.push_back(v);
    return id;  // element i is id - i
  }
  // operand index of slot s of value v
  int opnd(const Value *v, unsigned s = 0) {
    if (auto *c = dyn_cast<Constant>(v)) {
      auto it = cpool.find(c);
      int id;
      if (it == cpool.end()) {
        std::vector<V> vs;
        g_constbad = false;
        evalConst(c, vs);
        id = newConst(vs);
        cpool[c] = id;
      } else id = it->second;
      return id - (int)s;
    }
    auto it = reg.find(v);
    if (it == reg.end()) { return newConst({C(0)}); }
    return it->second + s;
  }
  int edge(const BasicBlock *from, const BasicBlock *to) {
    int id = k->edges.size();
    k->edges.push_back({});
    fix.push_back({id, {from, to}});
    return id;
  }
  void emit(KI i, const Instruction *d) {
    k->code.push_back(i);
    k->dbg.push_back(d);
  }
  static KI mk(KOp op, int dst = 0, int a = 0, int b = 0, int c = 0) {
    KI i;
    memset(&i, 0, sizeof i);
    i.op = op; i.dst = dst; i.a = a; i.b = b; i.c = c; i.n = 1;
    return i;
  }
  void unsup(const Instruction &I, const char *why = nullptr) {
    KI u = mk(K_UNSUP);
    u.p = strdup((std::string("unsupported instruction ") + I.getOpcodeName() + (why ? std::string(" ") + why : "")).c_str());
    emit(u, &I);
  }
  void run(KF *kf);
  void inst(const Instruction &I);
  void call(const CallBase &cb);
};

static std::unordered_map<const BasicBlock *, u32> g_covid;
static KF *getKF(Function *f) {
  auto it = g_kf.find(f);
  if (it != g_kf.end()) return it->second;
  KF *k = new KF();
  k->f = f;
  k->name = f->getName().str();
  g_kf[f] = k;
  return k;
}
static void compileKF(KF *k) {
  if (k->compiled) return;
  k->compiled = true;
  Compiler c;
  c.run(k);
}
void Compiler::run(KF *kf) {
  k = kf;
  Function *f = k->f;
  if (auto *sp = f->getSubprogram()) {
    std::string fn = sp->getDirectory().str() + "/" + sp->getFilename().str();
    k->repo = sp->getFilename().starts_with("/repo/") || sp->getFilename().contains("tokenizers/") ;
  }
  int n = 0;
  for (auto &a : f->args()) { reg[&a] = n; n += countSlots(a.getType()); }
  k->nargs = n;
  for (auto &bb : *f)
    for (auto &I : bb)
      if (!I.getType()->isVoidTy()) { reg[&I] = n; n += std::max(1u, countSlots(I.getType())); }
  k->nregs = n + 4;
  for (auto &bb : *f) {
    bbpc[&bb] = k->code.size();
    auto it = g_covid.find(&bb);
    if (it != g_covid.end()) { KI c = mk(K_COV); c.imm = it->second; emit(c, nullptr); }
    for (auto &I : bb) {
      if (isa<PHINode>(I)) continue;
      if (isa<DbgInfoIntrinsic>(I)) continue;
      inst(I);
    }
  }
  for (size_t i = 0; i < fix.size(); i++) {
    Edge &e = k->edges[fix[i].first];
    auto *from = fix[i].second.first, *to = fix[i].second.second;
    e.target = bbpc[to];
    for (auto &I : *to) {
      auto *phi = dyn_cast<PHINode>(&I);
      if (!phi) break;
      Value *v = phi->getIncomingValueForBlock(from);
      unsigned ns = countSlots(phi->getType());
      for (unsigned s = 0; s < ns; s++) {
        int src = opnd(v, s);
        if (src != reg[phi] + (int)s) e.copies.push_back({reg[phi] + (int)s, src});
      }
    }
  }
}
static int binop(unsigned opc) {
  switch (opc) {
    case Instruction::Add: return E_ADD;
    case Instruction::Sub: return E_SUB;
    case Instruction::Mul: return E_MUL;
    case Instruction::UDiv: return E_UDIV;
    case Instruction::SDiv: return E_SDIV;
    case Instruction::URem: return E_UREM;
    case Instruction::SRem: return E_SREM;
    case Instruction::And: return E_AND;
    case Instruction::Or: return E_OR;
    case Instruction::Xor: return E_XOR;
    case Instruction::Shl: return E_SHL;
    case Instruction::LShr: return E_LSHR;
    case Instruction::AShr: return E_ASHR;
    default: return -1;
  }
}
void Compiler::inst(const Instruction &I) {
  Type *T = I.getType();
  if (badType(T)) return unsup(I, "type");
  for (auto &op : I.operands())
    if (!isa<BasicBlock>(op) && !isa<MetadataAsValue>(op) && !isa<Function>(op) && badType(op->getType())) return unsup(I, "operand type");
  int d = T->isVoidTy() ? -1 : reg[&I];
  unsigned ns = countSlots(T);
  if (auto *cb = dyn_cast<CallBase>(&I)) return call(*cb);
  int bo = I.isBinaryOp() ? binop(I.getOpcode()) : -1;
  if (bo >= 0) {
    Type *st = T->getScalarType();
    for (unsigned s = 0; s < ns; s++) {
      KI i = mk(K_BIN, d + s, opnd(I.getOperand(0), s), opnd(I.getOperand(1), s));
      i.sub = bo;
      i.w = slotWidth(st);
      emit(i, &I);
    }
    return;
  }
  switch (I.getOpcode()) {
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
      if (ns != 1) return unsup(I);
      KI i = mk(K_FBIN, d, opnd(I.getOperand(0)), opnd(I.getOperand(1)));
      i.imm = I.getOpcode();
      i.w = slotWidth(T);
      emit(i, &I);
      return;
    }
    case Instruction::FNeg: {
      KI i = mk(K_FNEG, d, opnd(I.getOperand(0)));
      i.w = slotWidth(T);
      emit(i, &I);
      return;
    }
    case Instruction::ICmp: {
      auto &c = cast<ICmpInst>(I);
      Type *st = c.getOperand(0)->getType()->getScalarType();
      for (unsigned s = 0; s < ns; s++) {
        KI i = mk(K_CMP, d + s, opnd(I.getOperand(0), s), opnd(I.getOperand(1), s));
        i.sub = c.getPredicate();
        i.w = slotWidth(st);
        emit(i, &I);
      }
      return;
    }
    case Instruction::FCmp: {
      if (ns != 1) return unsup(I);
      KI i = mk(K_FCMP, d, opnd(I.getOperand(0)), opnd(I.getOperand(1)));
      i.sub = cast<FCmpInst>(I).getPredicate();
      i.w = slotWidth(I.getOperand(0)->getType());
      emit(i, &I);
      return;
    }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: {
      unsigned sw = slotWidth(I.getOperand(0)->getType()->getScalarType()), dw = slotWidth(T->getScalarType());
      for (unsigned s = 0; s < ns; s++) {
        KI i = mk(I.getOpcode() == Instruction::Trunc ? K_TRUNC : I.getOpcode() == Instruction::ZExt ? K_ZEXT : K_SEXT, d + s, opnd(I.getOperand(0), s));
        i.w = dw;
        i.sub = sw;
        emit(i, &I);
      }
      return;
    }
    case Instruction::BitCast:
      if (countSlots(I.getOperand(0)->getType()) != ns || slotWidth(I.getOperand(0)->getType()->getScalarType()) != slotWidth(T->getScalarType())) return unsup(I);
      // fall through
    case Instruction::Freeze: {
      for (unsigned s = 0; s < ns; s++) emit(mk(K_MOV, d + s, opnd(I.getOperand(0), s)), &I);
      return;
    }
    case Instruction::PtrToInt: case Instruction::IntToPtr: {
      unsigned sw = slotWidth(I.getOperand(0)->getType()), dw = slotWidth(T);
      if (ns != 1) return unsup(I);
      KI i = mk(dw < sw ? K_TRUNC : K_ZEXT, d, opnd(I.getOperand(0)));
      i.w = dw;
      i.sub = sw;
      emit(i, &I);
      return;
    }
    case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::FPExt: case Instruction::FPTrunc: {
      if (ns != 1) return unsup(I);
      KI i = mk(K_FCAST, d, opnd(I.getOperand(0)));
      i.imm = I.getOpcode();
      i.w = slotWidth(T);
      i.sub = slotWidth(I.getOperand(0)->getType());
      emit(i, &I);
      return;
    }
    case Instruction::Select: {
      bool vec = I.getOperand(0)->getType()->isVectorTy();
      unsigned per = vec ? 1 : ns;
      std::vector<SlotDesc> sl;
      layoutSlots(T, 0, sl);
      (void)per;
      for (unsigned s = 0; s < ns; s++) {
        KI i = mk(K_SELECT, d + s, opnd(I.getOperand(0), vec ? s : 0), opnd(I.getOperand(1), s), opnd(I.getOperand(2), s));
        i.w = sl[s].w;
        emit(i, &I);
      }
      return;
    }
    case Instruction::Load: {
      std::vector<SlotDesc> sl;
      layoutSlots(T, 0, sl);
      if (T->isVectorTy() && slotWidth(T->getScalarType()) < 8) return unsup(I);
      for (unsigned s = 0; s < ns; s++) {
        // operand register could equal destination: SSA forbids it
        KI i = mk(K_LOAD, d + s, opnd(cast<LoadInst>(I).getPointerOperand()));
        i.w = sl[s].w;
        i.imm = sl[s].off;
        i.sub = cast<LoadInst>(I).isAtomic();
        emit(i, &I);
      }
      return;
    }
    case Instruction::Store: {
      auto &st = cast<StoreInst>(I);
      Type *vt = st.getValueOperand()->getType();
      std::vector<SlotDesc> sl;
      layoutSlots(vt, 0, sl);
      if (vt->isVectorTy() && slotWidth(vt->getScalarType()) < 8) return unsup(I);
      for (unsigned s = 0; s < sl.size(); s++) {
        KI i = mk(K_STORE, 0, opnd(st.getPointerOperand()), opnd(st.getValueOperand(), s));
        i.w = sl[s].w;
        i.sub = st.isAtomic();
        i.imm = sl[s].off;
        emit(i, &I);
      }
      return;
    }
    case Instruction::GetElementPtr: {
      if (ns != 1) return unsup(I);
      auto *gep = cast<GEPOperator>(&I);
      GepDesc *gd = new GepDesc();
      i64 off = 0;
      for (auto it = gep_type_begin(gep), e = gep_type_end(gep); it != e; ++it) {
        Value *ix = it.getOperand();
        if (StructType *st = it.getStructTypeOrNull()) {
          off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
        } else {
          u64 sz = DL->getTypeAllocSize(it.getIndexedType());
          if (auto *ci = dyn_cast<ConstantInt>(ix)) off += ci->getSExtValue() * (i64)sz;
          else gd->idx.push_back({opnd(ix), {(i64)sz, slotWidth(ix->getType())}});
        }
      }
      KI i = mk(K_GEP, d, opnd(gep->getPointerOperand()));
      i.imm = off;
      i.p = gd;
      emit(i, &I);
      return;
    }
    case Instruction::Alloca: {
      auto &al = cast<AllocaInst>(I);
      KI i = mk(K_ALLOCA, d, opnd(al.getArraySize()));
      i.imm = DL->getTypeAllocSize(al.getAllocatedType());
      i.w = slotWidth(al.getArraySize()->getType());
      i.n = std::max<u64>(al.getAlign().value(), 16);
      emit(i, &I);
      return;
    }
    case Instruction::Br: {
      auto &b = cast<BranchInst>(I);
      if (b.isUnconditional()) {
        KI i = mk(K_BR);
        i.b = edge(I.getParent(), b.getSuccessor(0));
        emit(i, &I);
      } else {
        KI i = mk(K_CBR, 0, opnd(b.getCondition()));
        i.b = edge(I.getParent(), b.getSuccessor(0));
        i.c = edge(I.getParent(), b.getSuccessor(1));
        emit(i, &I);
      }
      return;
    }
    case Instruction::Switch: {
      auto &s = cast<SwitchInst>(I);
      SwitchDesc *sd = new SwitchDesc();
      sd->def = edge(I.getParent(), s.getDefaultDest());
      for (auto &c : s.cases()) sd->cases.push_back({c.getCaseValue()->getZExtValue(), edge(I.getParent(), c.getCaseSuccessor())});
      KI i = mk(K_SWITCH, 0, opnd(s.getCondition()));
      i.w = slotWidth(s.getCondition()->getType());
      i.p = sd;
      emit(i, &I);
      return;
    }
    case Instruction::Ret: {
      KI i = mk(K_RET);
      auto *rv = cast<ReturnInst>(I).getReturnValue();
      i.n = rv ? countSlots(rv->getType()) : 0;
      // returned slots must be consecutive: constants are laid out descending, registers ascending
      i.a = rv && i.n ? opnd(rv) : 0;
      emit(i, &I);
      return;
    }
    case Instruction::Unreachable: emit(mk(K_UNREACH), &I); return;
    case Instruction::Resume: emit(mk(K_RESUME, 0, opnd(I.getOperand(0), 0)), &I); return;
    case Instruction::LandingPad: {
      auto &lp = cast<LandingPadInst>(I);
      LPDesc *ld = new LPDesc();
      ld->cleanup = lp.isCleanup();
      for (unsigned i = 0; i < lp.getNumClauses(); i++) {
        Clause cl;
        if (lp.isCatch(i)) {
          cl.kind = 0;
          cl.ti = evalConst1(lp.getClause(i));
        } else {
          cl.kind = 1;
          cl.ti = 0;
          std::vector<V> vs;
          evalConst(lp.getClause(i), vs);
          for (auto &v : vs) cl.filter.push_back(v.c);
        }
        ld->clauses.push_back(cl);
      }
      KI i = mk(K_LPAD, d);
      i.p = ld;
      emit(i, &I);
      return;
    }
    case Instruction::ExtractValue: {
      auto &ev = cast<ExtractValueInst>(I);
      Type *at = ev.getAggregateOperand()->getType();
      unsigned off = 0;
      Type *t = at;
      for (unsigned ix : ev.indices()) {
        if (auto *st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < ix; j++) off += countSlots(st->getElementType(j)); t = st->getElementType(ix); }
        else { off += ix * countSlots(t->getArrayElementType()); t = t->getArrayElementType(); }
      }
      for (unsigned s = 0; s < ns; s++) emit(mk(K_MOV, d + s, opnd(ev.getAggregateOperand(), off + s)), &I);
      return;
    }
    case Instruction::InsertValue: {
      auto &iv = cast<InsertValueInst>(I);
      unsigned off = 0;
      Type *t = T;
      for (unsigned ix : iv.indices()) {
        if (auto *st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < ix; j++) off += countSlots(st->getElementType(j)); t = st->getElementType(ix); }
        else { off += ix * countSlots(t->getArrayElementType()); t = t->getArrayElementType(); }
      }
      unsigned vn = countSlots(iv.getInsertedValueOperand()->getType());
      for (unsigned s = 0; s < ns; s++)
        emit(mk(K_MOV, d + s, s >= off && s < off + vn ? opnd(iv.getInsertedValueOperand(), s - off) : opnd(iv.getAggregateOperand(), s)), &I);
      return;
    }
    case Instruction::ExtractElement: {
      auto *ci = dyn_cast<ConstantInt>(I.getOperand(1));
      if (!ci) return unsup(I);
      emit(mk(K_MOV, d, opnd(I.getOperand(0), ci->getZExtValue())), &I);
      return;
    }
    case Instruction::InsertElement: {
      auto *ci = dyn_cast<ConstantInt>(I.getOperand(2));
      if (!ci) return unsup(I);
      for (unsigned s = 0; s < ns; s++) emit(mk(K_MOV, d + s, s == ci->getZExtValue() ? opnd(I.getOperand(1)) : opnd(I.getOperand(0), s)), &I);
      return;
    }
    case Instruction::ShuffleVector: {
      auto &sv = cast<ShuffleVectorInst>(I);
      unsigned n0 = countSlots(sv.getOperand(0)->getType());
      for (unsigned s = 0; s < ns; s++) {
        int m = sv.getMaskValue(s);
        emit(mk(K_MOV, d + s, m < 0 ? newConst({C(0)}) : (unsigned)m < n0 ? opnd(sv.getOperand(0), m) : opnd(sv.getOperand(1), m - n0)), &I);
      }
      return;
    }
    case Instruction::AtomicRMW: {
      auto &a = cast<AtomicRMWInst>(I);
      KI i = mk(K_ARMW, d, opnd(a.getPointerOperand()), opnd(a.getValOperand()));
      i.sub = a.getOperation();
      i.w = slotWidth(T);
      emit(i, &I);
      return;
    }
    case Instruction::AtomicCmpXchg: {
      auto &a = cast<AtomicCmpXchgInst>(I);
      KI i = mk(K_CMPXCHG, d, opnd(a.getPointerOperand()), opnd(a.getCompareOperand()), opnd(a.getNewValOperand()));
      i.w = slotWidth(a.getCompareOperand()->getType());
      emit(i, &I);
      return;
    }
    case Instruction::Fence: return;
    default: return unsup(I);
  }
}
void Compiler::call(const CallBase &cb) {
  CallDesc *cd = new CallDesc();
  if (cb.isInlineAsm()) {
    auto *ia = cast<InlineAsm>(cb.getCalledOperand());
    if (ia->getAsmString().empty() && cb.getType()->isVoidTy()) {
      if (auto *inv = dyn_cast<InvokeInst>(&cb)) { KI i = mk(K_BR); i.b = edge(cb.getParent(), inv->getNormalDest()); emit(i, &cb); }
      return;
    }
    return unsup(cb, "inline asm");
  }
  Function *f = dyn_cast<Function>(cb.getCalledOperand()->stripPointerCasts());
  if (!f) if (auto *al = dyn_cast<GlobalAlias>(cb.getCalledOperand()->stripPointerCasts())) f = dyn_cast<Function>(al->getAliasee()->stripPointerCasts());
  if (f && f->isIntrinsic()) {
    switch (f->getIntrinsicID()) {
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value:
      case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
      case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::donothing:
      case Intrinsic::dbg_assign: case Intrinsic::sideeffect:
        return;
      default: break;
    }
  }
  cd->direct = f;
  cd->name = f ? f->getName().str() : "";
  unsigned nfix = cb.getFunctionType()->getNumParams();
  for (unsigned i = 0; i < cb.arg_size(); i++) {
    Value *a = cb.getArgOperand(i);
    if (a->getType()->isMetadataTy()) continue;
    unsigned n = countSlots(a->getType());
    if (cb.isByValArgument(i)) {
      Type *bt = cb.getParamByValType(i);
      cd->byval.push_back({(int)cd->args.size(), {(u64)DL->getTypeAllocSize(bt), 16}});
    }
    std::vector<SlotDesc> sl;
    layoutSlots(a->getType(), 0, sl);
    for (unsigned s = 0; s < n; s++) { cd->args.push_back(opnd(a, s)); cd->argw.push_back(sl[s].w); }
    if (i < nfix) cd->nfixed = cd->args.size();
  }
  cd->nret = countSlots(cb.getType());
  cd->retw = slotWidth(cb.getType()->isVectorTy() ? cb.getType()->getScalarType() : cb.getType());
  if (auto *inv = dyn_cast<InvokeInst>(&cb)) {
    cd->edge = edge(cb.getParent(), inv->getNormalDest());
    cd->unwind = edge(cb.getParent(), inv->getUnwindDest());
  }
  if (f) {
    if (f->isIntrinsic()) cd->intr = f->getIntrinsicID();
    else {
      cd->bi = lookupBuiltin(f);
      if (cd->bi) {}
      else if (!f->isDeclaration()) cd->kf = getKF(f);
    }
  } else cd->callee = opnd(cb.getCalledOperand());
  KI i = mk(K_CALL, cb.getType()->isVoidTy() ? -1 : reg[&cb]);
  i.p = cd;
  emit(i, &cb);
}

// ---------------------------------------------------------------- execution
static inline V &R(Frame &f, int i) { return i >= 0 ? f.r[i] : f.f->consts[-1 - i]; }

static void pushFrame(KF *k, const V *args, unsigned n, int retdst, unsigned retn, int edge, int unwind) {
  compileKF(k);
  if (g_regtop + k->nregs + 16 > NREGS || g_fr.size() > 4000) pathViolation("stack exhausted (unbounded recursion?)");
  Frame f;
  f.f = k;
  f.r = g_regs + g_regtop;
  f.pc = 0;
  f.stk = g_stktop;
  f.retdst = retdst;
  f.retn = retn;
  f.edge = edge;
  f.unwind = unwind;
  f.va = nullptr;
  g_regtop += k->nregs;
  for (unsigned i = 0; i < k->nargs; i++) f.r[i] = i < n ? args[i] : C(0);
  if (n > k->nargs) {
    f.va = new std::vector<V>(args + k->nargs, args + n);
  }
  g_fr.push_back(f);
}
static void popFrame() {
  Frame &f = g_fr.back();
  if (g_stktop > f.stk) {
    memset(&SHB(f.stk), 0, g_stktop - f.stk);
    g_stktop = f.stk;
  }
  g_regtop -= f.f->nregs;
  delete f.va;
  g_fr.pop_back();
}
static u64 stackAlloc(u64 n, u64 align) {
  u64 a = (g_stktop + 32 + align - 1) & ~(align - 1);
  if (a + n + 64 >= STK1) pathViolation("stack exhausted");
  g_stktop = a + n + 32;
  memset(&SHB(a), SV, n);
  return a;
}
static void takeEdge(Frame &f, int e) {
  Edge &ed = f.f->edges[e];
  size_t n = ed.copies.size();
  if (n == 1) f.r[ed.copies[0].first] = R(f, ed.copies[0].second);
  else if (n) {
    V tmp[64];
    std::vector<V> big;
    V *t = tmp;
    if (n > 64) { big.resize(n); t = big.data(); }
    for (size_t i = 0; i < n; i++) t[i] = R(f, ed.copies[i].second);
    for (size_t i = 0; i < n; i++) f.r[ed.copies[i].first] = t[i];
  }
  f.pc = ed.target;
}

// ---- exceptions
static u64 tiOf(const std::string &mangled) {
  auto it = g_tibyname.find(mangled);
  if (it != g_tibyname.end()) return it->second;
  u64 a = externObject(mangled, 64);
  g_tibyname[mangled] = a;
  g_tiname[a] = mangled;
  return a;
}
static const std::map<std::string, std::string> STDBASE = {
    {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"},
    {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"},
    {"_ZTISt10bad_typeid", "_ZTISt9exception"}, {"_ZTISt13bad_exception", "_ZTISt9exception"},
    {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
    {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
    {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
    {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"},
    {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
    {"_ZTISt19bad_optional_access", "_ZTISt9exception"}, {"_ZTISt12bad_weak_ptr", "_ZTISt9exception"}};
static bool derivesFrom(u64 t, u64 base) {
  if (t == base) return true;
  auto n1 = g_tiname.find(t), n2 = g_tiname.find(base);
  if (n1 != g_tiname.end() && n2 != g_tiname.end() && n1->second == n2->second) return true;
  auto it = g_tibase.find(t);
  if (it != g_tibase.end()) {
    for (u64 b : it->second) if (derivesFrom(b, base)) return true;
    return false;
  }
  if (n1 != g_tiname.end()) {
    auto s = STDBASE.find(n1->second);
    if (s != STDBASE.end()) return derivesFrom(tiOf(s->second), base);
  }
  return false;
}
static std::map<u64, int> g_typeid;
static int typeidOf(u64 ti) {
  auto it = g_typeid.find(ti);
  if (it != g_typeid.end()) return it->second;
  int n = g_typeid.size() + 1;
  g_typeid[ti] = n;
  return n;
}
static const LPDesc *lpOf(Frame &f) {
  Edge &e = f.f->edges[f.unwind];
  for (int pc = e.target; pc < (int)f.f->code.size(); pc++) {
    if (f.f->code[pc].op == K_LPAD) return (LPDesc *)f.f->code[pc].p;
    if (f.f->code[pc].op == K_COV) continue;
    break;
  }
  return nullptr;
}
static int g_basedepth = 0;
static u64 g_sel = 0;
// the frame at the top of g_fr is the one executing the throwing call (with call edges stored in cur*)
static int selectClause(const LPDesc *lp, u64 ti, bool &handler) {
  handler = false;
  for (auto &c : lp->clauses) {
    if (c.kind == 0) {
      if (c.ti == 0 || derivesFrom(ti, c.ti)) { handler = true; return typeidOf(c.ti); }
    } else {
      bool ok = false;
      for (u64 t : c.filter) if (derivesFrom(ti, t)) ok = true;
      if (!ok) { handler = true; return -1; }
    }
  }
  return 0;
}
static std::string excName(u64 ti) {
  auto it = g_tiname.find(ti);
  std::string n = it == g_tiname.end() ? "?" : it->second;
  if (n.compare(0, 4, "_ZTI") == 0) n = demangle("_Z" + n.substr(4));
  auto d = it == g_tiname.end() ? n : demangle(it->second);
  if (d.compare(0, 13, "typeinfo for ") == 0) d = d.substr(13);
  return d;
}
static int g_curunwind = -1;  // unwind edge of the call being executed in the top frame
static void unwindTo(u64 obj, u64 ti, bool isresume) {
  g_exc = {obj, ti};
  // phase 1: is there a handler at all?
  {
    int un = g_curunwind;
    bool found = false;
    for (int i = (int)g_fr.size() - 1; i >= g_basedepth; i--) {
      Frame &f = g_fr[i];
      if (un >= 0) {
        int sv = f.unwind;
        f.unwind = un;
        const LPDesc *lp = lpOf(f);
        f.unwind = sv;
        bool h = false;
        if (lp) selectClause(lp, ti, h);
        if (h) { found = true; break; }
      }
      un = f.unwind;
      if (f.unwind == -2) break;
      // the caller's call site unwind edge is stored in this frame
    }
    if (!found) pathViolation("uncaught exception " + excName(ti));
  }
  int un = g_curunwind;
  for (;;) {
    Frame &f = g_fr.back();
    if (un >= 0) {
      int sv = f.unwind;
      f.unwind = un;
      const LPDesc *lp = lpOf(f);
      f.unwind = sv;
      bool h;
      int sel = lp ? selectClause(lp, ti, h) : 0;
      if (lp && (h || lp->cleanup)) {
        g_sel = (u64)(i64)sel;
        takeEdge(f, un);
        return;
      }
    }
    un = f.unwind;
    popFrame();
    if ((int)g_fr.size() <= g_basedepth) pathViolation("uncaught exception " + excName(ti));
  }
}
static u64 newExc(const std::string &tiname, const std::string &msg) {
  u64 o = heapAlloc(64);
  u64 m = heapAlloc(msg.size() + 1);
  memcpy((void *)m, msg.c_str(), msg.size() + 1);
  *(u64 *)o = g_fakevt + 16;
  *(u64 *)(o + 8) = m;
  u64 ti = tiOf(tiname);
  g_exti[o] = ti;
  return o;
}
static bool throwStd(const std::string &tiname, const std::string &msg) {
  u64 o = newExc(tiname, msg);
  unwindTo(o, tiOf(tiname), false);
  return true;
}

#include "builtins.h"

static double asF(u64 c, unsigned w) {
  if (w == 32) { float f; u32 x = c; memcpy(&f, &x, 4); return f; }
  double d;
  memcpy(&d, &c, 8);
  return d;
}
static u64 fromF(double d, unsigned w) {
  if (w == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return x; }
  u64 x;
  memcpy(&x, &d, 8);
  return x;
}
static u64 concV(const V &v) { return cv(v); }

static void doCall(Frame &fr, KI &ki) {
  CallDesc *cd = (CallDesc *)ki.p;
  V args[64];
  std::vector<V> big;
  unsigned n = cd->args.size();
  V *av = args;
  if (n > 64) { big.resize(n); av = big.data(); }
  for (unsigned i = 0; i < n; i++) av[i] = R(fr, cd->args[i]);
  g_curunwind = cd->unwind;
  KF *kf = cd->kf;
  Builtin bi = cd->bi;
  std::string nm;
  if (cd->intr) {
    V ret[8];
    for (auto &x : ret) x = C(0);
    size_t depth = g_fr.size();
    (void)depth;
    intrinsic(fr, cd, av, n, ret);
    for (unsigned i = 0; i < cd->nret && i < 8; i++) fr.r[ki.dst + i] = ret[i];
    if (cd->edge >= 0) takeEdge(fr, cd->edge);
    return;
  }
  if (!cd->direct) {
    V t = R(fr, cd->callee);
    u64 a = concV(t);
    auto it = g_faddr.find(a);
    if (it != g_faddr.end()) {
      bi = lookupBuiltin(it->second);
      if (bi) {}
      else if (!it->second->isDeclaration()) kf = getKF(it->second);
      else nm = it->second->getName().str();
    } else {
      auto b = g_baddr.find(a);
      if (b != g_baddr.end()) bi = b->second;
      else pathViolation(a < 4096 ? "memory error: call through null function pointer" : "memory error: call through invalid function pointer " + hexs(a));
    }
  } else nm = cd->name;
  if (bi) {
    V ret[8];
    for (auto &x : ret) x = C(0);
    size_t depth = g_fr.size();
    if (bi(cd, av, n, ret)) return;  // control transferred (exception)
    Frame &f2 = g_fr[depth - 1];
    for (unsigned i = 0; i < cd->nret && i < 8; i++) f2.r[ki.dst + i] = ret[i];
    if (cd->edge >= 0) takeEdge(f2, cd->edge);
    return;
  }
  if (!kf) pathIncomplete("call of unmodelled function " + demangle(nm));
  for (auto &bv : cd->byval) {
    u64 src = concV(av[bv.first]);
    u64 sz = bv.second.first;
    u64 dst = stackAlloc(sz, bv.second.second);
    if (!okRange(src, sz, false)) memError(src, sz, false);
    copyMem(dst, src, sz);
    av[bv.first] = C(dst);
  }
  u64 stk = g_stktop;
  (void)stk;
  pushFrame(kf, av, n, ki.dst, cd->nret, cd->edge, cd->unwind);
}

static void runLoop(size_t base) {
  while (g_fr.size() > base) {
    Frame *f = &g_fr.back();
    KI &k = f->f->code[f->pc++];
    if ((++g_steps & 0xffff) == 0) {
      if (now() > g_deadline || g_sh->stopall) { g_st->aborted++; g_st->paths++; flushSteps(); endProcess(); }
      if (g_steps + g_steps0 > g_steplimit) pathViolation("no termination within " + std::to_string(g_steplimit) + " steps");
    }
    switch (k.op) {
      case K_MOV: f->r[k.dst] = R(*f, k.a); break;
      case K_COV: g_sh->cov[k.imm] = 1; break;
      case K_BIN: {
        V &a = R(*f, k.a), &b = R(*f, k.b);
        if (k.sub >= E_UDIV && k.sub <= E_SREM) {
          if (!b.e) {
            if ((b.c & maskw(k.w)) == 0) pathViolation("division by zero");
          } else {
            const Expr *z = mkEq(b.e, mkC(k.w, 0));
            if (branchOn(z)) pathViolation("division by zero");
          }
        }
        if (!a.e && !b.e) f->r[k.dst] = C(foldbin((EOp)k.sub, k.w, a.c, b.c));
        else f->r[k.dst] = FE(mkBin((EOp)k.sub, X(a, k.w), X(b, k.w)));
        break;
      }
      case K_CMP: {
        V &a = R(*f, k.a), &b = R(*f, k.b);
        EOp op = E_EQ;
        bool neg = false, sw = false;
        switch (k.sub) {
          case CmpInst::ICMP_EQ: op = E_EQ; break;
          case CmpInst::ICMP_NE: op = E_EQ; neg = true; break;
          case CmpInst::ICMP_ULT: op = E_ULT; break;
          case CmpInst::ICMP_ULE: op = E_ULE; break;
          case CmpInst::ICMP_UGT: op = E_ULT; sw = true; break;
          case CmpInst::ICMP_UGE: op = E_ULE; sw = true; break;
          case CmpInst::ICMP_SLT: op = E_SLT; break;
          case CmpInst::ICMP_SLE: op = E_SLE; break;
          case CmpInst::ICMP_SGT: op = E_SLT; sw = true; break;
          case CmpInst::ICMP_SGE: op = E_SLE; sw = true; break;
        }
        if (!a.e && !b.e) {
          u64 v = sw ? foldbin(op, k.w, b.c, a.c) : foldbin(op, k.w, a.c, b.c);
          f->r[k.dst] = C(neg ? !v : v);
        } else {
          const Expr *x = X(a, k.w), *y = X(b, k.w);
          const Expr *e = sw ? mkBin(op, y, x) : mkBin(op, x, y);
          f->r[k.dst] = FE(neg ? mkNot(e) : e);
        }
        break;
      }
      case K_TRUNC: {
        V &a = R(*f, k.a);
        f->r[k.dst] = a.e ? FE(mkExtract(a.e, 0, k.w)) : C(a.c & maskw(k.w));
        break;
      }
      case K_ZEXT: {
        V &a = R(*f, k.a);
        f->r[k.dst] = a.e ? FE(mkZext(a.e, k.w)) : a;
        break;
      }
      case K_SEXT: {
        V &a = R(*f, k.a);
        f->r[k.dst] = a.e ? FE(mkSext(a.e, k.w)) : C((u64)sx(a.c, k.sub) & maskw(k.w));
        break;
      }
      case K_SELECT: {
        V &c = R(*f, k.a);
        if (!c.e) f->r[k.dst] = (c.c & 1) ? R(*f, k.b) : R(*f, k.c);
        else {
          V x = R(*f, k.b), y = R(*f, k.c);
          f->r[k.dst] = FE(mkIte(c.e, X(x, k.w), X(y, k.w)));
        }
        break;
      }
      case K_LOAD: {
        V a = R(*f, k.a);
        if (!a.e) {
          u64 ad = a.c + k.imm;
          unsigned n = (k.w + 7) / 8;
          if (!g_thr && inArena(ad, 8)) {
            // fast path: all valid, none symbolic
            const u8 *s = &SHB(ad);
            bool ok = true;
            for (unsigned i = 0; i < n; i++) if ((s[i] & (SV | SS)) != SV) { ok = false; break; }
            if (ok) { f->r[k.dst] = C(rawRead(ad, n) & maskw(k.w)); break; }
          }
          g_atomicacc = k.sub;
          V r = loadV(C(ad), k.w);
          g_fr.back().r[k.dst] = r;
        } else {
          V ad = k.imm ? FE(mkBin(E_ADD, a.e, mkC(64, k.imm))) : a;
          g_atomicacc = k.sub;
          V r = loadV(ad, k.w);
          g_fr.back().r[k.dst] = r;
        }
        g_atomicacc = false;
        break;
      }
      case K_STORE: {
        V a = R(*f, k.a), v = R(*f, k.b);
        if (k.imm) a = a.e ? FE(mkBin(E_ADD, a.e, mkC(64, k.imm))) : C(a.c + k.imm);
        g_atomicacc = k.sub;
        storeV(a, v, k.w);
        g_atomicacc = false;
        break;
      }
      case K_GEP: {
        V a = R(*f, k.a);
        GepDesc *gd = (GepDesc *)k.p;
        u64 off = k.imm;
        const Expr *se = nullptr;
        for (auto &ix : gd->idx) {
          V &v = R(*f, ix.first);
          unsigned w = ix.second.second;
          if (!v.e) off += (u64)sx(v.c, w) * (u64)ix.second.first;
          else {
            const Expr *x = mkBin(E_MUL, mkSext(v.e, 64), mkC(64, ix.second.first));
            se = se ? mkBin(E_ADD, se, x) : x;
          }
        }
        if (!a.e && !se) f->r[k.dst] = C(a.c + off);
        else {
          const Expr *r = a.e ? mkBin(E_ADD, a.e, mkC(64, off)) : mkC(64, a.c + off);
          if (se) r = mkBin(E_ADD, se, r);
          f->r[k.dst] = FE(r);
        }
        break;
      }
      case K_ALLOCA: {
        u64 n = concV(R(*f, k.a));
        f = &g_fr.back();
        f->r[k.dst] = C(stackAlloc(n * k.imm, k.n));
        break;
      }
      case K_BR: takeEdge(*f, k.b); break;
      case K_CBR: {
        V c = R(*f, k.a);
        bool t = c.e ? branchOn(c.e) : (c.c & 1);
        takeEdge(g_fr.back(), t ? k.b : k.c);
        break;
      }
      case K_SWITCH: {
        V c = R(*f, k.a);
        SwitchDesc *sd = (SwitchDesc *)k.p;
        int e = sd->def;
        if (!c.e) {
          for (auto &cs : sd->cases) if (cs.first == c.c) { e = cs.second; break; }
        } else {
          // group cases by destination edge target with identical copies is not needed: one fork per case value,
          // but cases that jump to the same block (same pc, same copies) are merged
          std::vector<std::pair<const Expr *, int>> gs;
          for (auto &cs : sd->cases) {
            const Expr *eq = mkEq(c.e, mkC(k.w, cs.first));
            if (isC(eq) && !eq->c) continue;
            bool m = false;
            for (auto &g : gs) {
              Edge &x = f->f->edges[g.second], &y = f->f->edges[cs.second];
              if (x.target == y.target && x.copies == y.copies) { g.first = mkBin(E_OR, g.first, eq); m = true; break; }
            }
            if (!m) gs.push_back({eq, cs.second});
          }
          for (auto &g : gs) if (branchOn(g.first)) { e = g.second; break; }
        }
        takeEdge(g_fr.back(), e);
        break;
      }
      case K_RET: {
        V rv[32];
        unsigned n = k.n;
        for (unsigned i = 0; i < n && i < 32; i++) rv[i] = k.a >= 0 ? f->r[k.a + i] : f->f->consts[-1 - k.a + i];
        int rd = f->retdst, ed = f->edge;
        popFrame();
        if (g_fr.size() > base) {
          Frame &c = g_fr.back();
          if (rd >= 0) for (unsigned i = 0; i < n && i < 32; i++) c.r[rd + i] = rv[i];
          if (ed >= 0) takeEdge(c, ed);
        }
        break;
      }
      case K_CALL: doCall(*f, k); break;
      case K_UNREACH: pathViolation("unreachable code reached (undefined behaviour, e.g. missing return)");
      case K_LPAD:
        f->r[k.dst] = C(g_exc.obj);
        f->r[k.dst + 1] = C(g_sel & 0xffffffff);
        break;
      case K_RESUME: {
        g_curunwind = -1;
        u64 obj = concV(R(*f, k.a));
        unwindTo(obj, g_exti[obj], true);
        break;
      }
      case K_FBIN: {
        u64 x = concV(R(*f, k.a)), y = concV(R(*f, k.b));
        f = &g_fr.back();
        double a = asF(x, k.w), b = asF(y, k.w), r = 0;
        switch (k.imm) {
          case Instruction::FAdd: r = k.w == 32 ? (float)a + (float)b : a + b; break;
          case Instruction::FSub: r = k.w == 32 ? (float)a - (float)b : a - b; break;
          case Instruction::FMul: r = k.w == 32 ? (float)a * (float)b : a * b; break;
          case Instruction::FDiv: r = k.w == 32 ? (float)a / (float)b : a / b; break;
          case Instruction::FRem: r = __builtin_fmod(a, b); break;
        }
        f->r[k.dst] = C(fromF(r, k.w));
        break;
      }
      case K_FNEG: f->r[k.dst] = C(fromF(-asF(concV(R(*f, k.a)), k.w), k.w)); break;
      case K_FCMP: {
        double a = asF(concV(R(*f, k.a)), k.w), b = asF(concV(R(*f, k.b)), k.w);
        bool un = a != a || b != b, r = false;
        switch (k.sub) {
          case CmpInst::FCMP_OEQ: r = !un && a == b; break;
          case CmpInst::FCMP_OGT: r = !un && a > b; break;
          case CmpInst::FCMP_OGE: r = !un && a >= b; break;
          case CmpInst::FCMP_OLT: r = !un && a < b; break;
          case CmpInst::FCMP_OLE: r = !un && a <= b; break;
          case CmpInst::FCMP_ONE: r = !un && a != b; break;
          case CmpInst::FCMP_ORD: r = !un; break;
          case CmpInst::FCMP_UNO: r = un; break;
          case CmpInst::FCMP_UEQ: r = un || a == b; break;
          case CmpInst::FCMP_UGT: r = un || a > b; break;
          case CmpInst::FCMP_UGE: r = un || a >= b; break;
          case CmpInst::FCMP_ULT: r = un || a < b; break;
          case CmpInst::FCMP_ULE: r = un || a <= b; break;
          case CmpInst::FCMP_UNE: r = un || a != b; break;
          case CmpInst::FCMP_TRUE: r = true; break;
        }
        g_fr.back().r[k.dst] = C(r);
        break;
      }
      case K_FCAST: {
        u64 x = concV(R(*f, k.a));
        u64 r = 0;
        switch (k.imm) {
          case Instruction::UIToFP: r = fromF((double)x, k.w); break;
          case Instruction::SIToFP: r = fromF((double)sx(x, k.sub), k.w); break;
          case Instruction::FPToUI: r = (u64)asF(x, k.sub) & maskw(k.w); break;
          case Instruction::FPToSI: r = (u64)(i64)asF(x, k.sub) & maskw(k.w); break;
          case Instruction::FPExt: case Instruction::FPTrunc: r = fromF(asF(x, k.sub), k.w); break;
        }
        g_fr.back().r[k.dst] = C(r);
        break;
      }
      case K_ARMW: {
        V a = R(*f, k.a), v = R(*f, k.b);
        g_atomicacc = true;
        V old = loadV(a, k.w);
        const Expr *o = X(old, k.w), *n = X(v, k.w), *r = nullptr;
        switch (k.sub) {
          case AtomicRMWInst::Xchg: r = n; break;
          case AtomicRMWInst::Add: r = mkBin(E_ADD, o, n); break;
          case AtomicRMWInst::Sub: r = mkBin(E_SUB, o, n); break;
          case AtomicRMWInst::And: r = mkBin(E_AND, o, n); break;
          case AtomicRMWInst::Or: r = mkBin(E_OR, o, n); break;
          case AtomicRMWInst::Xor: r = mkBin(E_XOR, o, n); break;
          default: pathIncomplete("atomic operation");
        }
        storeV(a, FE(r), k.w);
        g_atomicacc = false;
        g_fr.back().r[k.dst] = old;
        break;
      }
      case K_CMPXCHG: {
        V a = R(*f, k.a), cm = R(*f, k.b), nv = R(*f, k.c);
        g_atomicacc = true;
        V old = loadV(a, k.w);
        const Expr *eq = mkEq(X(old, k.w), X(cm, k.w));
        bool t = branchOn(eq);
        if (t) storeV(a, nv, k.w);
        g_atomicacc = false;
        Frame &g = g_fr.back();
        g.r[k.dst] = old;
        g.r[k.dst + 1] = C(t);
        break;
      }
      case K_UNSUP: pathIncomplete((const char *)k.p);
      default: pathIncomplete("bad opcode");
    }
  }
}

// ---------------------------------------------------------------- main
static void loadModule(const char *path, LLVMContext &ctx) {
  SMDiagnostic err;
  auto m = parseIRFile(path, err, ctx);
  if (!m) { err.print("symex", errs()); exit(3); }
  M = m.release();
  DL = &M->getDataLayout();
}
static void setupGlobals() {
  // fake vtable for standard exceptions: offset-to-top, typeinfo, dtor, dtor, what
  u64 vt = globAlloc(16 + 8 * 8, 16);
  auto fa = [](Builtin b) { u64 a = g_functop; g_functop += 16; g_baddr[a] = b; return a; };
  ((u64 *)vt)[2] = fa(b_nop);
  ((u64 *)vt)[3] = fa(b_nop);
  ((u64 *)vt)[4] = fa(b_what);
  g_fakevt = vt;
  for (auto &g : M->globals()) gaddr(&g);
  for (auto &g : M->globals())
    if (!g.isDeclaration() && g.hasInitializer()) {
      u64 a = g_gaddr[&g];
      writeConst(g.getInitializer(), a);
      if (g.isThreadLocal()) g_tls.push_back({a, DL->getTypeAllocSize(g.getValueType())});
      std::string nm = g.getName().str();
      if (nm.compare(0, 4, "_ZTI") == 0) {
        g_tiname[a] = nm;
        g_tibyname[nm] = a;
        std::vector<u64> bases;
        if (auto *cs = dyn_cast<ConstantStruct>(g.getInitializer())) {
          for (unsigned i = 2; i < cs->getNumOperands(); i++)
            if (cs->getOperand(i)->getType()->isPointerTy()) bases.push_back(evalConst1(cs->getOperand(i)));
        }
        if (nm.compare(0, 5, "_ZTIP") != 0) g_tibase[a] = bases;
      }
    }
  for (auto &g : M->globals())
    if (!g.isDeclaration() && g.isConstant()) {
      u64 a = g_gaddr[&g];
      u64 sz = DL->getTypeAllocSize(g.getValueType());
      for (u64 i = 0; i < sz; i++) SHB(a + i) |= SRO;
    }
}
static void tlsReset() {
  for (auto &g : M->globals())
    if (g.isThreadLocal() && !g.isDeclaration() && g.hasInitializer()) writeConst(g.getInitializer(), g_gaddr[&g]);
}
static std::vector<std::pair<std::string, unsigned>> g_covfn;  // function -> number of blocks (repo only)
static std::vector<std::pair<u32, u32>> g_covrange;
static void setupCoverage(const std::string &prefix) {
  u32 id = 1;
  for (auto &f : *M) {
    if (f.isDeclaration()) continue;
    auto *sp = f.getSubprogram();
    if (!sp) continue;
    std::string fn = sp->getFilename().str();
    if (fn.compare(0, prefix.size(), prefix) != 0) continue;
    u32 s = id;
    for (auto &bb : f) if (id < sizeof(g_sh->cov) - 1) g_covid[&bb] = id++;
    std::string n = demangle(f.getName().str());
    g_covfn.push_back({n, id - s});
    g_covrange.push_back({s, id});
  }
}
static void onSegv(int) {
  g_sh->crashed++;
  g_st->aborted++;
  const char m[] = "engine crash\n";
  ssize_t r = write(2, m, sizeof m - 1);
  (void)r;
  if (g_owntoken) sem_post(&g_sh->tok);
  _exit(99);
}

int main(int argc, char **argv) {
  // symex module.bc outdir seconds workers [-v] [-dumpq] entry...
  if (argc < 6) { fprintf(stderr, "usage\n"); return 3; }
  g_out = argv[2];
  double secs = atof(argv[3]);
  int workers = atoi(argv[4]);
  std::vector<std::string> entries;
  std::string prefix = "/repo/";
  double perentry = 1e9;
  for (int i = 5; i < argc; i++) {
    std::string a = argv[i];
    if (a == "-dumpq") g_dumpq = true;
    else if (a.compare(0, 8, "-prefix=") == 0) prefix = a.substr(8);
    else if (a.compare(0, 7, "-steps=") == 0) g_steplimit = strtoull(a.c_str() + 7, nullptr, 10);
    else if (a.compare(0, 9, "-rlimit1=") == 0) g_rlimit1 = strtoull(a.c_str() + 9, nullptr, 10);
    else if (a.compare(0, 10, "-branches=") == 0) g_branchlimit = strtoull(a.c_str() + 10, nullptr, 10);
    else if (a.compare(0, 9, "-maxviol=") == 0) g_maxviol = strtoull(a.c_str() + 9, nullptr, 10);
    else entries.push_back(a);
  }
  (void)perentry;
  setpgid(0, 0);
  g_sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sem_init(&g_sh->tok, 1, workers);
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  double t0 = now();
  g_deadline = t0 + secs;
  struct rlimit rl = {64ul << 20, 1024ul << 20};
  setrlimit(RLIMIT_STACK, &rl);
  LLVMContext ctx;
  memInit();
  g_regs = (V *)mmap(nullptr, NREGS * sizeof(V), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  registerBuiltins();
  loadModule(argv[1], ctx);
  setupGlobals();
  setupCoverage(prefix);
  initZ3();
  g_fr.reserve(8192);
  signal(SIGSEGV, onSegv);
  signal(SIGABRT, onSegv);
  // global constructors
  g_st = &g_sh->ent[MAXENT - 1];
  g_entryname = "<static init>";
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) {
    if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
      std::vector<std::pair<u64, Function *>> fs;
      for (auto &op : ca->operands()) {
        auto *cs = cast<ConstantStruct>(op);
        if (auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
          fs.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f});
      }
      std::stable_sort(fs.begin(), fs.end(), [](auto &a, auto &b) { return a.first < b.first; });
      for (auto &p : fs) {
        pushFrame(getKF(p.second), nullptr, 0, -1, 0, -1, -1);
        runLoop(0);
      }
    }
  }
  double t1 = now();
  for (size_t i = 0; i < entries.size() && i < MAXENT - 1; i++) {
    while (sem_wait(&g_sh->tok) != 0) {}
    while (waitpid(-1, nullptr, WNOHANG) > 0) {}
    if (now() > g_deadline) { g_sh->ent[i].aborted++; sem_post(&g_sh->tok); continue; }
    pid_t p = fork();
    if (p == 0) {
      g_owntoken = true;
      g_entry = i;
      g_st = &g_sh->ent[i];
      g_entryname = entries[i].c_str();
      Function *f = M->getFunction(entries[i]);
      if (!f || f->isDeclaration()) {
        fprintf(stderr, "no entry %s\n", entries[i].c_str());
        g_st->aborted++;
        endProcess();
      }
      g_steps = 0;
      pushFrame(getKF(f), nullptr, 0, -1, 0, -1, -1);
      runLoop(0);
      pathEnd();
    }
  }
  for (;;) {
    int st;
    pid_t p = waitpid(-1, &st, WNOHANG);
    if (p < 0) { if (errno == EINTR) continue; break; }
    if (p == 0) {
      if (now() > g_deadline) g_sh->stopall = 1;
      if (now() > g_deadline + 20) {  // a path is stuck outside our control: end the group
        g_sh->crashed++;
        signal(SIGTERM, SIG_IGN);
        kill(0, SIGTERM);
        usleep(200000);
      }
      usleep(2000);
    }
  }
  double t2 = now();
  FILE *o = fopen((g_out + "/stats.json").c_str(), "w");
  fprintf(o, "{\"load_s\":%.3f,\"run_s\":%.3f,\"crashed\":%llu,\"entries\":{", t1 - t0, t2 - t1, (unsigned long long)g_sh->crashed.load());
  for (size_t i = 0; i < entries.size() && i < MAXENT - 1; i++) {
    EntryStats &s = g_sh->ent[i];
#define P(x) (unsigned long long)s.x.load()
    fprintf(o, "%s\n\"%s\":{\"paths\":%llu,\"completed\":%llu,\"assumed_out\":%llu,\"forks\":%llu,\"branches\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cachehits\":%llu,\"steps\":%llu,\"asserts\":%llu,\"assert_queries\":%llu,\"violations\":%llu,\"incomplete\":%llu,\"aborted\":%llu,\"hard\":%llu,\"domains\":%llu,\"solver_s\":%.3f,\"reach\":{",
            i ? "," : "", entries[i].c_str(), P(paths), P(completed), P(assumed_out), P(forks), P(branches), P(queries), P(qsat), P(qunsat), P(qunknown), P(cachehits), P(steps), P(asserts), P(assert_queries), P(violations), P(incomplete), P(aborted), P(hard), P(domains), s.solver_us.load() / 1e6);
    u32 nr = std::min<u32>(s.nreach, MAXREACH);
    bool first = true;
    for (u32 j = 0; j < nr; j++)
      if (s.reachname[j][0]) { fprintf(o, "%s\"%s\":%u", first ? "" : ",", s.reachname[j], s.reach[j].load()); first = false; }
    fprintf(o, "}}");
  }
  fprintf(o, "},\"functions\":{");
  bool first = true;
  for (size_t i = 0; i < g_covfn.size(); i++) {
    u32 hit = 0;
    for (u32 b = g_covrange[i].first; b < g_covrange[i].second; b++) hit += g_sh->cov[b];
    if (!hit) continue;
    fprintf(o, "%s\n\"%s\":[%u,%u]", first ? "" : ",", jsonEsc(g_covfn[i].first).c_str(), hit, g_covfn[i].second);
    first = false;
  }
  fprintf(o, "}}\n");
  fclose(o);
  return 0;
}
