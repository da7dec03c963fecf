// K2Sym: compile-time instrumentation for dynamic symbolic execution.
//
// Every scalar SSA value of integer or floating point type gets a companion
// i32 "expression id" (0 = concrete).  The run-time library (rt.cpp) keeps a
// hash-consed expression DAG, a byte-granular shadow memory and the trace of
// path constraints.  Pointers carry no expression: an index that is symbolic is
// pinned (a path constraint  index == concrete value) where the address is
// formed, so that all other values of the index are explored as other paths.
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/CFG.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include <map>
#include <vector>
#include "ops.h"

using namespace llvm;

namespace {

typedef std::vector<Value *> Leaves;

struct Inst {
  Module &M;
  LLVMContext &C;
  const DataLayout &DL;
  Type *I32, *I64, *VoidT;
  PointerType *Ptr;
  FunctionCallee fLoad, fStore, fBin, fUn, fCmp, fCast, fIte, fBranch, fSwitch, fPin,
      fArg, fParam, fParamsDone, fCallEnd, fCallAbort, fRetClear, fRetGet, fRetSet,
      fMemcpy, fMemset, fClear, fTouch, fLibm, fConcat, fExtract, fOvf;
  DenseMap<Value *, Leaves> shadow;
  std::vector<PHINode *> phis;

  explicit Inst(Module &m) : M(m), C(m.getContext()), DL(m.getDataLayout()) {
    I32 = Type::getInt32Ty(C);
    I64 = Type::getInt64Ty(C);
    VoidT = Type::getVoidTy(C);
    Ptr = PointerType::getUnqual(C);
    AttributeList AL;
    AL = AL.addFnAttribute(C, Attribute::NoUnwind);
    auto F = [&](const char *n, Type *r, std::vector<Type *> a) {
      return M.getOrInsertFunction(n, FunctionType::get(r, a, false), AL);
    };
    fLoad = F("__sym_load", I32, {Ptr, I32, I32});
    fStore = F("__sym_store", VoidT, {Ptr, I32, I32, I32});
    fBin = F("__sym_bin", I32, {I32, I32, I32, I32, I64, I64});
    fUn = F("__sym_un", I32, {I32, I32, I32, I64});
    fCmp = F("__sym_cmp", I32, {I32, I32, I32, I32, I64, I64});
    fCast = F("__sym_cast", I32, {I32, I32, I32, I32, I64});
    fIte = F("__sym_ite", I32, {I32, I32, I32, I32, I32, I64, I64});
    fBranch = F("__sym_branch", VoidT, {I32, I32});
    fSwitch = F("__sym_switch", VoidT, {I32, I32, I64, Ptr, I32});
    fPin = F("__sym_pin", VoidT, {I32, I64});
    fArg = F("__sym_arg", VoidT, {I32, I32, I64});
    fParam = F("__sym_param", I32, {I32, I64});
    fParamsDone = F("__sym_params_done", VoidT, {});
    fCallEnd = F("__sym_call_end", VoidT, {});
    fCallAbort = F("__sym_call_abort", VoidT, {});
    fRetClear = F("__sym_ret_clear", VoidT, {});
    fRetGet = F("__sym_ret_get", I32, {I32, I64});
    fRetSet = F("__sym_ret_set", VoidT, {I32, I32});
    fMemcpy = F("__sym_memcpy", VoidT, {Ptr, Ptr, I64});
    fMemset = F("__sym_memset", VoidT, {Ptr, I32, I64});
    fClear = F("__sym_clear", VoidT, {Ptr, I64});
    fTouch = F("__sym_touch", VoidT, {Ptr, I64});
    fLibm = F("__sym_libm", I32, {I32, I32, I32, I64, I64});
    fConcat = F("__sym_concat", I32, {I32, I32, I32, I32, I64, I64});
    fExtract = F("__sym_extract", I32, {I32, I32, I32, I32});
    fOvf = F("__sym_ovf", I32, {I32, I32, I32, I32, I64, I64});
  }

  static bool scalarOk(Type *t) {
    if (auto *it = dyn_cast<IntegerType>(t)) return it->getBitWidth() <= 64;
    return t->isFloatTy() || t->isDoubleTy();
  }
  static bool isFP(Type *t) { return t->isFloatTy() || t->isDoubleTy(); }
  static unsigned width(Type *t) {
    if (auto *it = dyn_cast<IntegerType>(t)) return it->getBitWidth();
    return t->isFloatTy() ? 32 : 64;
  }
  unsigned nleaves(Type *t) {
    if (scalarOk(t)) return 1;
    if (auto *v = dyn_cast<FixedVectorType>(t))
      return scalarOk(v->getElementType()) ? v->getNumElements() : 0;
    if (auto *s = dyn_cast<StructType>(t)) {
      unsigned n = 0;
      for (Type *e : s->elements()) n += nleaves(e);
      return n;
    }
    if (auto *a = dyn_cast<ArrayType>(t)) return a->getNumElements() * nleaves(a->getElementType());
    return 0;
  }
  Value *zero() { return ConstantInt::get(I32, 0); }
  Value *ci(uint64_t x) { return ConstantInt::get(I32, x); }
  static bool isZero(Value *v) {
    auto *c = dyn_cast<ConstantInt>(v);
    return c && c->isZero();
  }
  static bool allZero(const Leaves &l) {
    for (Value *v : l)
      if (!isZero(v)) return false;
    return true;
  }
  Leaves get(Value *v) {
    unsigned n = nleaves(v->getType());
    if (isa<Constant>(v) || n == 0) return Leaves(n, zero());
    auto it = shadow.find(v);
    if (it != shadow.end()) return it->second;
    return Leaves(n, zero());
  }
  Value *get1(Value *v) { return get(v)[0]; }
  void set(Value *v, Leaves l) { shadow[v] = std::move(l); }

  // the concrete scalar as i64
  Value *bits(IRBuilder<> &B, Value *v) {
    Type *t = v->getType();
    if (t->isFloatTy()) v = B.CreateBitCast(v, I32);
    if (t->isDoubleTy()) v = B.CreateBitCast(v, I64);
    return B.CreateZExt(v, I64);
  }
  // all scalar leaves of a value, as (scalar Value*)
  void leafVals(IRBuilder<> &B, Value *v, std::vector<Value *> &out) {
    Type *t = v->getType();
    if (scalarOk(t)) {
      out.push_back(v);
    } else if (auto *vt = dyn_cast<FixedVectorType>(t)) {
      if (scalarOk(vt->getElementType()))
        for (unsigned i = 0; i < vt->getNumElements(); ++i) out.push_back(B.CreateExtractElement(v, i));
    } else if (auto *s = dyn_cast<StructType>(t)) {
      for (unsigned i = 0; i < s->getNumElements(); ++i)
        if (nleaves(s->getElementType(i))) leafVals(B, B.CreateExtractValue(v, i), out);
    } else if (auto *a = dyn_cast<ArrayType>(t)) {
      if (nleaves(a->getElementType()))
        for (unsigned i = 0; i < a->getNumElements(); ++i) leafVals(B, B.CreateExtractValue(v, i), out);
    }
  }
  unsigned aggOffset(Type *t, ArrayRef<unsigned> idx) {
    unsigned off = 0;
    for (unsigned i : idx) {
      if (auto *s = dyn_cast<StructType>(t)) {
        for (unsigned j = 0; j < i; ++j) off += nleaves(s->getElementType(j));
        t = s->getElementType(i);
      } else {
        auto *a = cast<ArrayType>(t);
        off += i * nleaves(a->getElementType());
        t = a->getElementType();
      }
    }
    return off;
  }
  void pinAll(IRBuilder<> &B, Value *v) {
    Leaves l = get(v);
    if (allZero(l)) return;
    std::vector<Value *> vals;
    leafVals(B, v, vals);
    for (size_t i = 0; i < l.size(); ++i)
      if (!isZero(l[i])) B.CreateCall(fPin, {l[i], bits(B, vals[i])});
  }
  void pinOperands(Instruction &I) {
    IRBuilder<> B(&I);
    for (Value *o : I.operands())
      if (!isa<BasicBlock>(o) && nleaves(o->getType())) pinAll(B, o);
  }

  static int binop(unsigned op) {
    switch (op) {
      case Instruction::Add: return OP_ADD;
      case Instruction::Sub: return OP_SUB;
      case Instruction::Mul: return OP_MUL;
      case Instruction::UDiv: return OP_UDIV;
      case Instruction::SDiv: return OP_SDIV;
      case Instruction::URem: return OP_UREM;
      case Instruction::SRem: return OP_SREM;
      case Instruction::Shl: return OP_SHL;
      case Instruction::LShr: return OP_LSHR;
      case Instruction::AShr: return OP_ASHR;
      case Instruction::And: return OP_AND;
      case Instruction::Or: return OP_OR;
      case Instruction::Xor: return OP_XOR;
      case Instruction::FAdd: return OP_FADD;
      case Instruction::FSub: return OP_FSUB;
      case Instruction::FMul: return OP_FMUL;
      case Instruction::FDiv: return OP_FDIV;
      case Instruction::FRem: return OP_FREM;
    }
    return 0;
  }
  static int libmOp(StringRef n, bool &dbl) {
    dbl = !n.ends_with("f");
    if (n == "exp" || n == "expf") { dbl = n == "exp"; return OP_FEXP; }
    if (n == "log" || n == "logf") { dbl = n == "log"; return OP_FLOG; }
    if (n == "log1p" || n == "log1pf") { dbl = n == "log1p"; return OP_FLOG1P; }
    if (n == "expm1" || n == "expm1f") { dbl = n == "expm1"; return OP_FEXPM1; }
    if (n == "sqrt" || n == "sqrtf") { dbl = n == "sqrt"; return OP_FSQRT; }
    return 0;
  }

  void doCall(CallBase &CB) {
    Function *callee = CB.getCalledFunction();
    IRBuilder<> B(&CB);
    if (isa<InlineAsm>(CB.getCalledOperand()->stripPointerCasts())) {
      pinOperands(CB);
      return;
    }
    StringRef name = callee ? callee->getName() : StringRef();
    if (name.starts_with("__sym_")) return;
    // post-call insertion point
    auto after = [&]() -> Instruction * {
      if (auto *II = dyn_cast<InvokeInst>(&CB)) {
        BasicBlock *nd = II->getNormalDest();
        return &*nd->getFirstInsertionPt();
      }
      return CB.getNextNode();
    };
    if (callee && callee->isDeclaration()) {
      bool dbl;
      if (int op = libmOp(name, dbl)) {
        Value *a = CB.getArgOperand(0);
        Value *l = get1(a);
        if (!isZero(l)) {
          IRBuilder<> A(after());
          set(&CB, {A.CreateCall(fLibm, {ci(op), ci(dbl ? 64 : 32), l, bits(A, a), bits(A, &CB)})});
        }
        return;
      }
      if (name == "memcpy" || name == "memmove") {
        pinAll(B, CB.getArgOperand(2));
        B.CreateCall(fMemcpy, {CB.getArgOperand(0), CB.getArgOperand(1), CB.getArgOperand(2)});
        return;
      }
      if (name == "memset") {
        pinAll(B, CB.getArgOperand(2));
        B.CreateCall(fMemset, {CB.getArgOperand(0), get1(CB.getArgOperand(1)), CB.getArgOperand(2)});
        return;
      }
      if (name == "memcmp" || name == "bcmp") {
        pinAll(B, CB.getArgOperand(2));
        B.CreateCall(fTouch, {CB.getArgOperand(0), CB.getArgOperand(2)});
        B.CreateCall(fTouch, {CB.getArgOperand(1), CB.getArgOperand(2)});
        return;
      }
    }
    bool musttail = isa<CallInst>(CB) && cast<CallInst>(CB).isMustTailCall();
    bool anySym = false;
    unsigned idx = 0;
    for (Value *a : CB.args()) {
      Leaves l = get(a);
      if (!allZero(l)) {
        std::vector<Value *> vals;
        leafVals(B, a, vals);
        for (size_t i = 0; i < l.size(); ++i)
          if (!isZero(l[i])) {
            B.CreateCall(fArg, {ci(idx + i), l[i], bits(B, vals[i])});
            anySym = true;
          }
      }
      idx += nleaves(a->getType());
    }
    if (musttail) return;
    unsigned nr = nleaves(CB.getType());
    bool noret = CB.doesNotReturn();
    if (nr) B.CreateCall(fRetClear, {});
    if (noret || (!anySym && !nr)) return;
    if (isa<CallInst>(CB) && isa<UnreachableInst>(CB.getNextNode())) return;
    if (isa<CallBrInst>(CB)) return;
    IRBuilder<> A(after());
    if (nr) {
      std::vector<Value *> vals;
      leafVals(A, &CB, vals);
      Leaves out;
      for (unsigned i = 0; i < nr; ++i) out.push_back(A.CreateCall(fRetGet, {ci(i), bits(A, vals[i])}));
      set(&CB, out);
    }
    if (anySym) A.CreateCall(fCallEnd, {});
  }

  bool doIntrinsic(IntrinsicInst &I) {
    IRBuilder<> B(&I);
    auto lanewise2 = [&](int op) {
      Leaves a = get(I.getArgOperand(0)), b = get(I.getArgOperand(1));
      if (allZero(a) && allZero(b)) { set(&I, Leaves(a.size(), zero())); return; }
      std::vector<Value *> va, vb;
      leafVals(B, I.getArgOperand(0), va);
      leafVals(B, I.getArgOperand(1), vb);
      Leaves o;
      for (size_t i = 0; i < a.size(); ++i)
        o.push_back(B.CreateCall(fBin, {ci(op), ci(width(va[i]->getType())), a[i], b[i], bits(B, va[i]), bits(B, vb[i])}));
      set(&I, o);
    };
    auto lanewise1 = [&](int op) {
      Leaves a = get(I.getArgOperand(0));
      if (allZero(a)) { set(&I, Leaves(a.size(), zero())); return; }
      std::vector<Value *> va;
      leafVals(B, I.getArgOperand(0), va);
      Leaves o;
      for (size_t i = 0; i < a.size(); ++i)
        o.push_back(B.CreateCall(fUn, {ci(op), ci(width(va[i]->getType())), a[i], bits(B, va[i])}));
      set(&I, o);
    };
    auto libm = [&](int op) {
      Value *a = I.getArgOperand(0);
      if (!scalarOk(a->getType())) { pinOperands(I); return; }
      Value *l = get1(a);
      if (isZero(l)) return;
      IRBuilder<> A(I.getNextNode());
      set(&I, {A.CreateCall(fLibm, {ci(op), ci(width(a->getType())), l, bits(A, a), bits(A, &I)})});
    };
    auto ovf = [&](int op, bool sgn) {
      Leaves a = get(I.getArgOperand(0)), b = get(I.getArgOperand(1));
      if (a.size() != 1 || (allZero(a) && allZero(b))) { pinOperands(I); return; }
      Value *va = I.getArgOperand(0), *vb = I.getArgOperand(1);
      unsigned w = width(va->getType());
      Value *r = B.CreateCall(fBin, {ci(op), ci(w), a[0], b[0], bits(B, va), bits(B, vb)});
      Value *o = B.CreateCall(fOvf, {ci(op + (sgn ? 0x100 : 0)), ci(w), a[0], b[0], bits(B, va), bits(B, vb)});
      set(&I, {r, o});
    };
    switch (I.getIntrinsicID()) {
      case Intrinsic::smax: lanewise2(OP_SMAX); return true;
      case Intrinsic::smin: lanewise2(OP_SMIN); return true;
      case Intrinsic::umax: lanewise2(OP_UMAX); return true;
      case Intrinsic::umin: lanewise2(OP_UMIN); return true;
      case Intrinsic::maxnum: lanewise2(OP_FMAX); return true;
      case Intrinsic::minnum: lanewise2(OP_FMIN); return true;
      case Intrinsic::abs: lanewise1(OP_ABS); return true;
      case Intrinsic::fabs: lanewise1(OP_FABS); return true;
      case Intrinsic::ctpop: lanewise1(OP_CTPOP); return true;
      case Intrinsic::ctlz: lanewise1(OP_CTLZ); return true;
      case Intrinsic::cttz: lanewise1(OP_CTTZ); return true;
      case Intrinsic::bswap: lanewise1(OP_BSWAP); return true;
      case Intrinsic::exp: libm(OP_FEXP); return true;
      case Intrinsic::log: libm(OP_FLOG); return true;
      case Intrinsic::sqrt: libm(OP_FSQRT); return true;
      case Intrinsic::floor: libm(OP_FFLOOR); return true;
      case Intrinsic::sadd_with_overflow: ovf(OP_ADD, true); return true;
      case Intrinsic::uadd_with_overflow: ovf(OP_ADD, false); return true;
      case Intrinsic::ssub_with_overflow: ovf(OP_SUB, true); return true;
      case Intrinsic::usub_with_overflow: ovf(OP_SUB, false); return true;
      case Intrinsic::smul_with_overflow: ovf(OP_MUL, true); return true;
      case Intrinsic::umul_with_overflow: ovf(OP_MUL, false); return true;
      case Intrinsic::expect:
        set(&I, get(I.getArgOperand(0)));
        return true;
      case Intrinsic::fshl:
      case Intrinsic::fshr: {
        bool l = I.getIntrinsicID() == Intrinsic::fshl;
        Value *a = I.getArgOperand(0), *b = I.getArgOperand(1), *s = I.getArgOperand(2);
        if (!scalarOk(a->getType()) || !isa<ConstantInt>(s)) { pinOperands(I); return true; }
        unsigned w = width(a->getType());
        unsigned k = cast<ConstantInt>(s)->getZExtValue() % w;
        Value *la = get1(a), *lb = get1(b);
        if (isZero(la) && isZero(lb)) return true;
        unsigned ls = l ? k : (w - k) % w;  // shift of a to the left
        if (!l && k == 0) { set(&I, {lb}); return true; }
        if (l && k == 0) { set(&I, {la}); return true; }
        auto sh = [&](Value *id, Value *v, int op, unsigned n) -> std::pair<Value *, Value *> {
          Value *r = B.CreateCall(fBin, {ci(op), ci(w), id, zero(), bits(B, v), ConstantInt::get(I64, n)});
          Value *vv = op == OP_SHL ? B.CreateShl(v, n) : B.CreateLShr(v, n);
          return {r, vv};
        };
        auto x = sh(la, a, OP_SHL, ls), y = sh(lb, b, OP_LSHR, w - ls);
        set(&I, {B.CreateCall(fBin, {ci(OP_OR), ci(w), x.first, y.first, bits(B, x.second), bits(B, y.second)})});
        return true;
      }
      case Intrinsic::memcpy:
      case Intrinsic::memmove:
      case Intrinsic::memcpy_inline:
        pinAll(B, I.getArgOperand(2));
        B.CreateCall(fMemcpy, {I.getArgOperand(0), I.getArgOperand(1), B.CreateZExt(I.getArgOperand(2), I64)});
        return true;
      case Intrinsic::memset:
        pinAll(B, I.getArgOperand(2));
        B.CreateCall(fMemset, {I.getArgOperand(0), get1(I.getArgOperand(1)), B.CreateZExt(I.getArgOperand(2), I64)});
        return true;
      case Intrinsic::lifetime_start:
      case Intrinsic::lifetime_end:
      case Intrinsic::assume:
      case Intrinsic::dbg_declare:
      case Intrinsic::dbg_value:
      case Intrinsic::dbg_label:
      case Intrinsic::experimental_noalias_scope_decl:
      case Intrinsic::invariant_start:
      case Intrinsic::invariant_end:
      case Intrinsic::is_constant:
      case Intrinsic::objectsize:
      case Intrinsic::stacksave:
      case Intrinsic::stackrestore:
      case Intrinsic::trap:
      case Intrinsic::vastart:
      case Intrinsic::vaend:
      case Intrinsic::vacopy:
      case Intrinsic::eh_typeid_for:
        return true;
      default:
        pinOperands(I);
        return true;
    }
  }

  void visit(Instruction &I) {
    Type *t = I.getType();
    if (auto *P = dyn_cast<PHINode>(&I)) {
      unsigned n = nleaves(t);
      if (!n) return;
      Leaves l;
      IRBuilder<> B(P);
      for (unsigned i = 0; i < n; ++i) l.push_back(B.CreatePHI(I32, P->getNumIncomingValues()));
      set(P, l);
      phis.push_back(P);
      return;
    }
    IRBuilder<> B(&I);
    if (auto *II = dyn_cast<IntrinsicInst>(&I)) { doIntrinsic(*II); return; }
    if (auto *CB = dyn_cast<CallBase>(&I)) { doCall(*CB); return; }
    if (auto *L = dyn_cast<LoadInst>(&I)) {
      unsigned n = nleaves(t);
      if (n == 0) {
        if (!t->isPointerTy()) {
          if (t->isSized() && !t->isAggregateType() && !t->isVectorTy())
            B.CreateCall(fTouch, {L->getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(t).getFixedValue())});
        }
        return;
      }
      IRBuilder<> A(L->getNextNode());
      Leaves out;
      loadLeaves(A, t, L->getPointerOperand(), 0, out);
      set(L, out);
      return;
    }
    if (auto *S = dyn_cast<StoreInst>(&I)) {
      Value *v = S->getValueOperand();
      Type *vt = v->getType();
      if (vt->isPointerTy()) return;
      IRBuilder<> A(S->getNextNode());
      if (nleaves(vt) == 0) {
        A.CreateCall(fClear, {S->getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(vt).getFixedValue())});
        return;
      }
      Leaves l = get(v);
      unsigned k = 0;
      storeLeaves(A, vt, S->getPointerOperand(), 0, l, k);
      return;
    }
    if (auto *BO = dyn_cast<BinaryOperator>(&I)) {
      unsigned n = nleaves(t);
      Leaves a = get(BO->getOperand(0)), b = get(BO->getOperand(1));
      if (!n) return;
      if (allZero(a) && allZero(b)) return;
      std::vector<Value *> va, vb;
      leafVals(B, BO->getOperand(0), va);
      leafVals(B, BO->getOperand(1), vb);
      Leaves o;
      for (unsigned i = 0; i < n; ++i) {
        if (isZero(a[i]) && isZero(b[i])) { o.push_back(zero()); continue; }
        o.push_back(B.CreateCall(fBin, {ci(binop(BO->getOpcode())), ci(width(va[i]->getType())), a[i], b[i], bits(B, va[i]), bits(B, vb[i])}));
      }
      set(&I, o);
      return;
    }
    if (auto *U = dyn_cast<UnaryOperator>(&I)) {
      unsigned n = nleaves(t);
      Leaves a = get(U->getOperand(0));
      if (!n || allZero(a)) return;
      std::vector<Value *> va;
      leafVals(B, U->getOperand(0), va);
      Leaves o;
      for (unsigned i = 0; i < n; ++i)
        o.push_back(B.CreateCall(fUn, {ci(OP_FNEG), ci(width(va[i]->getType())), a[i], bits(B, va[i])}));
      set(&I, o);
      return;
    }
    if (auto *CI = dyn_cast<CmpInst>(&I)) {
      Leaves a = get(CI->getOperand(0)), b = get(CI->getOperand(1));
      if (a.empty() || (allZero(a) && allZero(b))) return;
      std::vector<Value *> va, vb;
      leafVals(B, CI->getOperand(0), va);
      leafVals(B, CI->getOperand(1), vb);
      Leaves o;
      for (size_t i = 0; i < a.size(); ++i) {
        if (isZero(a[i]) && isZero(b[i])) { o.push_back(zero()); continue; }
        o.push_back(B.CreateCall(fCmp, {ci(CI->getPredicate()), ci(width(va[i]->getType())), a[i], b[i], bits(B, va[i]), bits(B, vb[i])}));
      }
      set(&I, o);
      return;
    }
    if (auto *CA = dyn_cast<CastInst>(&I)) {
      Value *src = CA->getOperand(0);
      Type *st = src->getType();
      Leaves a = get(src);
      unsigned n = nleaves(t);
      if (a.empty() || allZero(a)) return;
      if (n == 0) { pinAll(B, src); return; }
      std::vector<Value *> va;
      leafVals(B, src, va);
      int op = 0;
      switch (CA->getOpcode()) {
        case Instruction::ZExt: op = OP_ZEXT; break;
        case Instruction::SExt: op = OP_SEXT; break;
        case Instruction::Trunc: op = OP_TRUNC; break;
        case Instruction::FPTrunc: op = OP_FPTRUNC; break;
        case Instruction::FPExt: op = OP_FPEXT; break;
        case Instruction::FPToSI: op = OP_FPTOSI; break;
        case Instruction::FPToUI: op = OP_FPTOUI; break;
        case Instruction::SIToFP: op = OP_SITOFP; break;
        case Instruction::UIToFP: op = OP_UITOFP; break;
        case Instruction::BitCast: op = -1; break;
        default: pinAll(B, src); return;
      }
      if (op == -1) { doBitcast(B, *CA, a, va); return; }
      Leaves o;
      Type *dst = t->getScalarType();
      for (unsigned i = 0; i < n; ++i)
        o.push_back(B.CreateCall(fCast, {ci(op), ci(width(st->getScalarType())), ci(width(dst)), a[i], bits(B, va[i])}));
      set(&I, o);
      return;
    }
    if (auto *S = dyn_cast<SelectInst>(&I)) {
      Leaves c = get(S->getCondition());
      unsigned n = nleaves(t);
      Leaves x = get(S->getTrueValue()), y = get(S->getFalseValue());
      if (allZero(c)) {
        if (n == 0 || (allZero(x) && allZero(y))) return;
        Leaves o;
        for (unsigned i = 0; i < n; ++i) {
          Value *cc = S->getCondition();
          if (cc->getType()->isVectorTy()) cc = B.CreateExtractElement(cc, i);
          o.push_back(B.CreateSelect(cc, x[i], y[i]));
        }
        set(&I, o);
        return;
      }
      if (n == 0 || t->isAggregateType()) {  // pointer, or unsupported
        pinAll(B, S->getCondition());
        if (n) {
          Leaves o;
          for (unsigned i = 0; i < n; ++i) o.push_back(B.CreateSelect(S->getCondition(), x[i], y[i]));
          set(&I, o);
        }
        return;
      }
      std::vector<Value *> vx, vy, vc;
      leafVals(B, S->getTrueValue(), vx);
      leafVals(B, S->getFalseValue(), vy);
      leafVals(B, S->getCondition(), vc);
      Leaves o;
      for (unsigned i = 0; i < n; ++i) {
        unsigned k = c.size() == 1 ? 0 : i;
        Type *et = vx[i]->getType();
        o.push_back(B.CreateCall(fIte, {ci(width(et) + (isFP(et) ? 0x1000 : 0)), c[k], B.CreateZExt(vc[k], I32), x[i], y[i], bits(B, vx[i]), bits(B, vy[i])}));
      }
      set(&I, o);
      return;
    }
    if (auto *Br = dyn_cast<BranchInst>(&I)) {
      if (Br->isConditional()) {
        Value *l = get1(Br->getCondition());
        if (!isZero(l)) B.CreateCall(fBranch, {l, B.CreateZExt(Br->getCondition(), I32)});
      }
      return;
    }
    if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
      Value *v = Sw->getCondition();
      if (!scalarOk(v->getType())) return;
      Value *l = get1(v);
      if (isZero(l)) return;
      std::vector<Constant *> cs;
      for (auto &c : Sw->cases()) cs.push_back(ConstantInt::get(I64, c.getCaseValue()->getZExtValue()));
      auto *at = ArrayType::get(I64, cs.size());
      auto *gv = new GlobalVariable(M, at, true, GlobalValue::PrivateLinkage, ConstantArray::get(at, cs), "__symcases");
      B.CreateCall(fSwitch, {ci(width(v->getType())), l, bits(B, v), gv, ci(cs.size())});
      return;
    }
    if (auto *R = dyn_cast<ReturnInst>(&I)) {
      Value *v = R->getReturnValue();
      if (!v) return;
      if (auto *ci_ = dyn_cast_or_null<CallInst>(I.getPrevNode()))
        if (ci_->isMustTailCall()) return;
      Leaves l = get(v);
      for (size_t i = 0; i < l.size(); ++i) B.CreateCall(fRetSet, {ci(i), l[i]});
      return;
    }
    if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
      for (Value *ix : G->indices()) {
        if (isa<Constant>(ix) || !scalarOk(ix->getType())) continue;
        Value *l = get1(ix);
        if (!isZero(l)) B.CreateCall(fPin, {l, bits(B, ix)});
      }
      return;
    }
    if (auto *E = dyn_cast<ExtractValueInst>(&I)) {
      unsigned n = nleaves(t);
      if (!n) return;
      Leaves a = get(E->getAggregateOperand());
      unsigned off = aggOffset(E->getAggregateOperand()->getType(), E->getIndices());
      set(&I, Leaves(a.begin() + off, a.begin() + off + n));
      return;
    }
    if (auto *E = dyn_cast<InsertValueInst>(&I)) {
      Leaves a = get(E->getAggregateOperand()), v = get(E->getInsertedValueOperand());
      unsigned off = aggOffset(E->getAggregateOperand()->getType(), E->getIndices());
      for (size_t i = 0; i < v.size(); ++i) a[off + i] = v[i];
      set(&I, a);
      return;
    }
    if (auto *E = dyn_cast<ExtractElementInst>(&I)) {
      if (!nleaves(t)) return;
      Leaves a = get(E->getVectorOperand());
      pinAll(B, E->getIndexOperand());
      if (auto *k = dyn_cast<ConstantInt>(E->getIndexOperand())) {
        set(&I, {a[k->getZExtValue()]});
      } else {
        Value *r = a[0];
        for (size_t i = 1; i < a.size(); ++i)
          r = B.CreateSelect(B.CreateICmpEQ(E->getIndexOperand(), ConstantInt::get(E->getIndexOperand()->getType(), i)), a[i], r);
        set(&I, {r});
      }
      return;
    }
    if (auto *E = dyn_cast<InsertElementInst>(&I)) {
      if (!nleaves(t)) return;
      Leaves a = get(E->getOperand(0));
      pinAll(B, E->getOperand(2));
      Value *v = get1(E->getOperand(1));
      if (auto *k = dyn_cast<ConstantInt>(E->getOperand(2))) {
        a[k->getZExtValue()] = v;
      } else {
        for (size_t i = 0; i < a.size(); ++i)
          a[i] = B.CreateSelect(B.CreateICmpEQ(E->getOperand(2), ConstantInt::get(E->getOperand(2)->getType(), i)), v, a[i]);
      }
      set(&I, a);
      return;
    }
    if (auto *E = dyn_cast<ShuffleVectorInst>(&I)) {
      unsigned n = nleaves(t);
      if (!n) return;
      Leaves a = get(E->getOperand(0)), b = get(E->getOperand(1)), o;
      for (int m : E->getShuffleMask()) {
        if (m < 0) o.push_back(zero());
        else if ((size_t)m < a.size()) o.push_back(a[m]);
        else o.push_back(b[m - a.size()]);
      }
      set(&I, o);
      return;
    }
    if (isa<FreezeInst>(&I)) {
      if (nleaves(t)) set(&I, get(I.getOperand(0)));
      return;
    }
    if (isa<LandingPadInst>(&I)) {
      IRBuilder<> A(&*I.getParent()->getFirstInsertionPt());
      A.CreateCall(fCallAbort, {});
      return;
    }
    if (auto *X = dyn_cast<AtomicRMWInst>(&I)) {
      pinOperands(I);
      IRBuilder<> A(I.getNextNode());
      B.CreateCall(fTouch, {X->getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(X->getValOperand()->getType()).getFixedValue())});
      A.CreateCall(fClear, {X->getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(X->getValOperand()->getType()).getFixedValue())});
      return;
    }
    if (auto *X = dyn_cast<AtomicCmpXchgInst>(&I)) {
      pinOperands(I);
      IRBuilder<> A(I.getNextNode());
      uint64_t sz = DL.getTypeStoreSize(X->getCompareOperand()->getType()).getFixedValue();
      B.CreateCall(fTouch, {X->getPointerOperand(), ConstantInt::get(I64, sz)});
      A.CreateCall(fClear, {X->getPointerOperand(), ConstantInt::get(I64, sz)});
      return;
    }
    if (isa<AllocaInst>(&I)) { pinOperands(I); return; }
    pinOperands(I);
  }

  void loadLeaves(IRBuilder<> &A, Type *t, Value *p, uint64_t off, Leaves &out) {
    if (scalarOk(t)) {
      unsigned sz = DL.getTypeStoreSize(t).getFixedValue();
      Value *q = off ? A.CreateConstGEP1_64(Type::getInt8Ty(C), p, off) : p;
      out.push_back(A.CreateCall(fLoad, {q, ci(sz), ci(width(t) + (isFP(t) ? 0x1000 : 0))}));
    } else if (auto *vt = dyn_cast<FixedVectorType>(t)) {
      if (!scalarOk(vt->getElementType())) return;
      uint64_t es = DL.getTypeStoreSize(vt->getElementType()).getFixedValue();
      if (width(vt->getElementType()) != es * 8) {
        for (unsigned i = 0; i < vt->getNumElements(); ++i) out.push_back(zero());
        A.CreateCall(fTouch, {p, ConstantInt::get(I64, DL.getTypeStoreSize(t).getFixedValue())});
        return;
      }
      for (unsigned i = 0; i < vt->getNumElements(); ++i) loadLeaves(A, vt->getElementType(), p, off + i * es, out);
    } else if (auto *s = dyn_cast<StructType>(t)) {
      auto *sl = DL.getStructLayout(s);
      for (unsigned i = 0; i < s->getNumElements(); ++i)
        loadLeaves(A, s->getElementType(i), p, off + (uint64_t)sl->getElementOffset(i), out);
    } else if (auto *a = dyn_cast<ArrayType>(t)) {
      uint64_t es = DL.getTypeAllocSize(a->getElementType()).getFixedValue();
      for (unsigned i = 0; i < a->getNumElements(); ++i) loadLeaves(A, a->getElementType(), p, off + i * es, out);
    }
  }
  void storeLeaves(IRBuilder<> &A, Type *t, Value *p, uint64_t off, Leaves &l, unsigned &k) {
    if (scalarOk(t)) {
      unsigned sz = DL.getTypeStoreSize(t).getFixedValue();
      Value *q = off ? A.CreateConstGEP1_64(Type::getInt8Ty(C), p, off) : p;
      A.CreateCall(fStore, {q, ci(sz), ci(width(t) + (isFP(t) ? 0x1000 : 0)), l[k++]});
    } else if (auto *vt = dyn_cast<FixedVectorType>(t)) {
      if (!scalarOk(vt->getElementType())) return;
      uint64_t es = DL.getTypeStoreSize(vt->getElementType()).getFixedValue();
      for (unsigned i = 0; i < vt->getNumElements(); ++i) {
        if (width(vt->getElementType()) != es * 8) { ++k; continue; }
        storeLeaves(A, vt->getElementType(), p, off + i * es, l, k);
      }
    } else if (auto *s = dyn_cast<StructType>(t)) {
      auto *sl = DL.getStructLayout(s);
      for (unsigned i = 0; i < s->getNumElements(); ++i)
        storeLeaves(A, s->getElementType(i), p, off + (uint64_t)sl->getElementOffset(i), l, k);
    } else if (auto *a = dyn_cast<ArrayType>(t)) {
      uint64_t es = DL.getTypeAllocSize(a->getElementType()).getFixedValue();
      for (unsigned i = 0; i < a->getNumElements(); ++i) storeLeaves(A, a->getElementType(), p, off + i * es, l, k);
    }
  }
  // concat all leaves to one bit vector of the total width (<=64), split again.
  void doBitcast(IRBuilder<> &B, CastInst &CA, Leaves &a, std::vector<Value *> &va) {
    Type *st = CA.getSrcTy(), *dt = CA.getDestTy();
    unsigned tot = DL.getTypeSizeInBits(st).getFixedValue();
    unsigned ws = width(st->getScalarType()), wd = width(dt->getScalarType());
    bool sf = isFP(st->getScalarType()), df = isFP(dt->getScalarType());
    if (ws == wd) {  // lane by lane
      Leaves o;
      for (size_t i = 0; i < a.size(); ++i) {
        if (sf == df) o.push_back(a[i]);
        else o.push_back(B.CreateCall(fCast, {ci(sf ? OP_FBITS : OP_BITSF), ci(ws), ci(wd), a[i], bits(B, va[i])}));
      }
      set(&CA, o);
      return;
    }
    if (tot > 64) { pinAll(B, CA.getOperand(0)); return; }
    // to bits
    Value *acc = nullptr, *accv = nullptr;
    unsigned accw = 0;
    for (size_t i = 0; i < a.size(); ++i) {
      Value *l = a[i], *v = bits(B, va[i]);
      if (sf && !isZero(l)) l = B.CreateCall(fCast, {ci(OP_FBITS), ci(ws), ci(ws), l, v});
      if (!acc) { acc = l; accv = v; accw = ws; }
      else {
        acc = B.CreateCall(fConcat, {ci(ws), l, ci(accw), acc, v, accv});  // (hi, lo)
        accv = B.CreateOr(accv, B.CreateShl(v, accw));
        accw += ws;
      }
    }
    Leaves o;
    unsigned nd = tot / wd;
    for (unsigned i = 0; i < nd; ++i) {
      Value *e = nd == 1 ? acc : B.CreateCall(fExtract, {ci(tot), ci(i * wd), ci(wd), acc});
      if (df) {
        Value *v = B.CreateAnd(B.CreateLShr(accv, i * wd), ConstantInt::get(I64, wd == 64 ? ~0ull : ((1ull << wd) - 1)));
        e = B.CreateCall(fCast, {ci(OP_BITSF), ci(wd), ci(wd), e, v});
      }
      o.push_back(e);
    }
    set(&CA, o);
  }

  void run(Function &F) {
    if (F.isDeclaration() || F.hasAvailableExternallyLinkage()) return;
    if (F.getName().starts_with("__sym_")) return;
    shadow.clear();
    phis.clear();
    F.removeFnAttr(Attribute::Memory);
    F.removeFnAttr(Attribute::Speculatable);
    F.removeFnAttr(Attribute::WillReturn);
    F.removeFnAttr(Attribute::NoSync);
    for (Argument &A : F.args()) {
      A.removeAttr(Attribute::ReadOnly);
      A.removeAttr(Attribute::ReadNone);
      A.removeAttr(Attribute::WriteOnly);
    }
    // split invoke normal edges where the destination has other predecessors
    std::vector<InvokeInst *> inv;
    for (auto &BB : F)
      if (auto *II = dyn_cast<InvokeInst>(BB.getTerminator())) inv.push_back(II);
    for (auto *II : inv) {
      if (II->getNormalDest()->getSinglePredecessor() == nullptr) SplitEdge(II->getParent(), II->getNormalDest());
      else FoldSingleEntryPHINodes(II->getNormalDest());
    }
    // normal destination with PHIs and a single predecessor: fine.
    ReversePostOrderTraversal<Function *> RPOT(&F);
    std::vector<Instruction *> all;
    for (BasicBlock *BB : RPOT)
      for (Instruction &I : *BB) all.push_back(&I);
    for (Instruction *I : all)
      if (auto *CB = dyn_cast<CallBase>(I))
        CB->setAttributes(CB->getAttributes().removeFnAttribute(C, Attribute::Memory));
    // parameters and allocas
    {
      BasicBlock &E = F.getEntryBlock();
      Instruction *ip = &*E.getFirstInsertionPt();
      while (isa<AllocaInst>(ip)) ip = ip->getNextNode();
      IRBuilder<> B(ip);
      unsigned idx = 0;
      bool any = false;
      for (Argument &A : F.args()) {
        unsigned n = nleaves(A.getType());
        if (n && !A.hasByValAttr()) {
          std::vector<Value *> vals;
          leafVals(B, &A, vals);
          Leaves l;
          for (unsigned i = 0; i < n; ++i) l.push_back(B.CreateCall(fParam, {ci(idx + i), bits(B, vals[i])}));
          set(&A, l);
          any = true;
        }
        idx += n;
      }
      if (any) B.CreateCall(fParamsDone, {});
      for (Instruction *I : all)
        if (auto *AI = dyn_cast<AllocaInst>(I))
          if (AI->isStaticAlloca() && AI->getParent() == &E) {
            auto sz = AI->getAllocationSize(DL);
            if (sz && sz->getFixedValue()) {
              // after ip
              B.CreateCall(fClear, {AI, ConstantInt::get(I64, sz->getFixedValue())});
            }
          }
    }
    for (Instruction *I : all) visit(*I);
    for (PHINode *P : phis) {
      Leaves &l = shadow[P];
      for (unsigned k = 0; k < P->getNumIncomingValues(); ++k) {
        Leaves in = get(P->getIncomingValue(k));
        for (size_t i = 0; i < l.size(); ++i) cast<PHINode>(l[i])->addIncoming(in[i], P->getIncomingBlock(k));
      }
    }
  }
};

struct SymPass : PassInfoMixin<SymPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    Inst inst(M);
    std::vector<Function *> fs;
    for (Function &F : M) fs.push_back(&F);
    std::vector<Function *> cov;
    for (Function *F : fs) {
      bool body = !F->isDeclaration() && !F->hasAvailableExternallyLinkage();
      inst.run(*F);
      if (body && F->getName().contains("2k2")) cov.push_back(F);
    }
    coverage(M, cov);
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
  // one byte per function of namespace k2, set on entry; registered by a constructor
  static void coverage(Module &M, std::vector<Function *> &fs) {
    if (fs.empty()) return;
    LLVMContext &C = M.getContext();
    Type *I8 = Type::getInt8Ty(C), *I32 = Type::getInt32Ty(C), *Ptr = PointerType::getUnqual(C);
    ArrayType *AT = ArrayType::get(I8, fs.size());
    auto *flags = new GlobalVariable(M, AT, false, GlobalValue::PrivateLinkage, ConstantAggregateZero::get(AT), "__k2sym_cov");
    std::string names;
    for (size_t i = 0; i < fs.size(); ++i) {
      names += fs[i]->getName().str();
      names.push_back('\0');
      BasicBlock &E = fs[i]->getEntryBlock();
      Instruction *ip = &*E.getFirstInsertionPt();
      while (isa<AllocaInst>(ip)) ip = ip->getNextNode();
      IRBuilder<> B(ip);
      B.CreateStore(ConstantInt::get(I8, 1), B.CreateConstInBoundsGEP2_32(AT, flags, 0, i));
    }
    Constant *init = ConstantDataArray::getString(C, names, false);
    auto *nm = new GlobalVariable(M, init->getType(), true, GlobalValue::PrivateLinkage, init, "__k2sym_names");
    FunctionCallee reg = M.getOrInsertFunction("__sym_register", Type::getVoidTy(C), Ptr, Ptr, I32);
    Function *ctor = Function::Create(FunctionType::get(Type::getVoidTy(C), false), GlobalValue::InternalLinkage, "__k2sym_ctor", M);
    IRBuilder<> B(BasicBlock::Create(C, "", ctor));
    B.CreateCall(reg, {nm, flags, ConstantInt::get(I32, fs.size())});
    B.CreateRetVoid();
    appendToGlobalCtors(M, ctor, 0);
  }
};

}  // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "K2Sym", "1", [](PassBuilder &PB) {
            PB.registerOptimizerLastEPCallback(
                [](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(SymPass()); });
          }};
}
