// SymPass: compiler-IR instrumentation for concolic symbolic execution.
//
// Every scalar SSA value of the instrumented program gets a 32-bit "shadow": 0 when the value does
// not depend on a symbolic input, otherwise the id of an expression kept by the runtime (rt.cpp).
// Shadows of memory live in a directly mapped shadow region (4 bytes per byte of application memory).
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/MDBuilder.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Scalar/Scalarizer.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Utils/LowerInvoke.h"
#include "llvm/Transforms/Utils/UnifyFunctionExitNodes.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "ops.h"
#include <map>
#include <set>
using namespace llvm;

namespace {

static cl::opt<bool> dummyOpt("sym-dummy", cl::init(false));

struct Instr {
  Module &M;
  const DataLayout &DL;
  LLVMContext &C;
  Type *I1, *I8, *I32, *I64, *Void, *Ptr;
  FunctionCallee fBin, fCmp, fSel, fCast, fBr, fSw, fLoad, fStore, fAddr, fConc, fMemcpy, fMemset,
      fIntr1, fIntr2, fIntr3, fExt, fRange, fFn, fITE, fStoreClr, fAllocaClr, fMulOv, fAddrLoad, fAddrStore, fLoadConc;
  GlobalVariable *gArgs, *gArgTag, *gRet, *gRetTag, *gRetN;
  Constant *cZero;
  ArrayType *ArgArrTy, *BvArrTy; GlobalVariable *gByval;
  static constexpr uint64_t SHB = SYM_SHADOW_BASE, LIM = SYM_ADDR_LIMIT;

  Instr(Module &M) : M(M), DL(M.getDataLayout()), C(M.getContext()) {
    I1 = Type::getInt1Ty(C); I8 = Type::getInt8Ty(C); I32 = Type::getInt32Ty(C);
    I64 = Type::getInt64Ty(C); Void = Type::getVoidTy(C); Ptr = PointerType::getUnqual(C);
    cZero = ConstantInt::get(I32, 0);
    auto D = [&](const char *n, Type *R, std::vector<Type *> A) {
      return M.getOrInsertFunction(n, FunctionType::get(R, A, false));
    };
    fBin = D("__sym_bin", I32, {I32, I32, I32, I32, I64, I64});
    fCmp = D("__sym_cmp", I32, {I32, I32, I32, I32, I64, I64});
    fSel = D("__sym_sel", I32, {I32, I32, I32, I32, I32, I64, I64});
    fCast = D("__sym_cast", I32, {I32, I32, I32, I32});
    fBr = D("__sym_branch", Void, {I32, I32});
    fSw = D("__sym_switch", Void, {I32, I32, I64, I32, Ptr});
    fLoad = D("__sym_load", I32, {I64, I32, I64});
    fStore = D("__sym_store", Void, {I64, I32, I32});
    fStoreClr = D("__sym_store_clr", Void, {I64, I32});
    fAddr = D("__sym_addr", Void, {I32, I64, I32});
    fConc = D("__sym_conc", Void, {I32, I32});
    fMemcpy = D("__sym_memcpy", Void, {I64, I64, I64});
    fMemset = D("__sym_memset", Void, {I64, I32, I64});
    fIntr1 = D("__sym_un", I32, {I32, I32, I32, I64});
    fIntr2 = D("__sym_bin2", I32, {I32, I32, I32, I32, I64, I64});
    fIntr3 = D("__sym_fsh", I32, {I32, I32, I32, I32, I32, I64, I64, I64});
    fExt = D("__sym_ext_call", Void, {I32, Ptr, I32, Ptr});
    fAllocaClr = D("__sym_alloca_clr", Void, {I64, I64});
    fFn = D("__sym_fn", Void, {I32});
    fAddrLoad = D("__sym_addr_load", I32, {I32, I64, I32, I32});
    fAddrStore = D("__sym_addr_store", I32, {I32, I64, I32, I32, I64, I32});
    fLoadConc = D("__sym_load_conc", Void, {I64, I32});
    ArgArrTy = ArrayType::get(I32, 64);
    BvArrTy = ArrayType::get(I64, 64);
    auto G = [&](const char *n, Type *T) -> GlobalVariable * {
      if (auto *g = M.getNamedGlobal(n)) return g;
      return new GlobalVariable(M, T, false, GlobalValue::ExternalLinkage, nullptr, n);
    };
    gArgs = G("__sym_args", ArgArrTy);
    gRet = G("__sym_rets", ArgArrTy);
    gByval = G("__sym_byval", BvArrTy);
    gArgTag = G("__sym_arg_tag", I64);
    gRetTag = G("__sym_ret_tag", I64);
  }

  // ---- flattening of first-class types into scalar leaves
  static bool flattenTy(Type *T, SmallVectorImpl<Type *> &out) {
    if (T->isVoidTy() || T->isTokenTy() || T->isMetadataTy() || T->isLabelTy()) return true;
    if (auto *S = dyn_cast<StructType>(T)) { for (Type *E : S->elements()) flattenTy(E, out); return true; }
    if (auto *A = dyn_cast<ArrayType>(T)) {
      for (unsigned i = 0; i < A->getNumElements() && i < 64; i++) flattenTy(A->getElementType(), out);
      return true;
    }
    out.push_back(T);
    return true;
  }
  static unsigned leafCount(Type *T) { SmallVector<Type *, 4> o; flattenTy(T, o); return o.size(); }
  static unsigned leafIndex(Type *T, ArrayRef<unsigned> idx) {
    unsigned r = 0;
    for (unsigned i : idx) {
      if (auto *S = dyn_cast<StructType>(T)) {
        for (unsigned k = 0; k < i; k++) r += leafCount(S->getElementType(k));
        T = S->getElementType(i);
      } else { auto *A = cast<ArrayType>(T); r += i * leafCount(A->getElementType()); T = A->getElementType(); }
    }
    return r;
  }
  unsigned width(Type *T) {  // width of a scalar we track; 0 = not tracked
    if (T->isPointerTy()) return 64;
    if (T->isIntegerTy()) { unsigned w = T->getIntegerBitWidth(); return w <= 64 ? w : 0; }
    return 0;
  }

  // ---- per function state
  typedef SmallVector<Value *, 2> SV;
  DenseMap<Value *, SV> sh;
  Function *F = nullptr;

  SV shadow(Value *V) {
    auto it = sh.find(V);
    if (it != sh.end()) return it->second;
    SV z;
    unsigned n = leafCount(V->getType());
    for (unsigned i = 0; i < n; i++) z.push_back(cZero);
    return z;
  }
  Value *sh1(Value *V) { SV s = shadow(V); return s.empty() ? cZero : s[0]; }
  void set1(Value *V, Value *S) { SV s; s.push_back(S); sh[V] = s; }
  Value *to64(IRBuilder<> &B, Value *V) {
    Type *T = V->getType();
    if (T->isPointerTy()) return B.CreatePtrToInt(V, I64);
    if (T->isIntegerTy()) { if (T->getIntegerBitWidth() == 64) return V; if (T->getIntegerBitWidth() < 64) return B.CreateZExt(V, I64); }
    return ConstantInt::get(I64, 0);
  }
  bool isZ(Value *s) { return s == cZero; }
  Value *any(IRBuilder<> &B, ArrayRef<Value *> ss) {
    Value *r = nullptr;
    for (Value *s : ss) if (!isZ(s)) r = r ? B.CreateOr(r, s) : s;
    return r;
  }
  MDNode *unlikely() { return MDBuilder(C).createBranchWeights(1, 2000); }
  // emit `r = (any != 0) ? f() : 0` before I; f builds in the guarded block
  Value *guarded(Instruction *I, ArrayRef<Value *> ss, std::function<Value *(IRBuilder<> &)> f) {
    IRBuilder<> B(I);
    Value *a = any(B, ss);
    if (!a) return cZero;
    Value *c = B.CreateICmpNE(a, cZero);
    Instruction *head = &*B.GetInsertPoint();
    BasicBlock *pre = head->getParent();
    Instruction *T = SplitBlockAndInsertIfThen(c, head, false, unlikely());
    pre = T->getParent()->getSinglePredecessor();
    IRBuilder<> TB(T);
    Value *v = f(TB);
    if (v->getType()->isVoidTy()) return cZero;
    BasicBlock *thenB = T->getParent();
    IRBuilder<> PB(&head->getParent()->front());
    PHINode *P = PB.CreatePHI(I32, 2);
    P->addIncoming(cZero, pre);
    P->addIncoming(v, thenB);
    return P;
  }
  Value *u32(uint64_t x) { return ConstantInt::get(I32, x); }

  // concretise a shadow (fork on the value) before I
  void conc(Instruction *I, Value *V) {
    SV s = shadow(V);
    for (Value *x : s) if (!isZ(x))
      guarded(I, {x}, [&](IRBuilder<> &B) { return B.CreateCall(fConc, {x, u32(0)}); });
  }
  // shadow pointer of an address (as i64 computed), assumes in range
  Value *shPtr(IRBuilder<> &B, Value *addr) {
    return B.CreateIntToPtr(B.CreateAdd(B.CreateShl(addr, 2), ConstantInt::get(I64, SHB)), Ptr);
  }
  void addrCheck(Instruction *I, Value *P, unsigned size, bool isStore) {
    Value *s = sh1(P);
    if (isZ(s)) return;
    guarded(I, {s}, [&](IRBuilder<> &B) { return B.CreateCall(fAddr, {s, B.CreatePtrToInt(P, I64), u32(size * 2 + isStore)}); });
  }
  Value *loadShadow(Instruction *I, Value *P, unsigned size, Value *loaded, Instruction *after) {
    // after == insertion point located after the load
    IRBuilder<> B(after);
    Value *a = B.CreatePtrToInt(P, I64);
    // range clamp: out-of-range addresses use shadow of address 0 (always zero)
    Value *in = B.CreateICmpULT(a, ConstantInt::get(I64, LIM));
    Value *ca = B.CreateSelect(in, a, ConstantInt::get(I64, 0));
    Value *p = shPtr(B, ca);
    Value *acc = nullptr;
    if (size == 1 || size == 2 || size == 4 || size == 8) {
      Type *VT = IntegerType::get(C, size * 32);
      Value *v;
      if (size <= 2) { v = B.CreateAlignedLoad(VT, p, Align(4)); acc = B.CreateICmpNE(v, ConstantInt::get(VT, 0)); }
      else {
        Value *x = nullptr;
        for (unsigned k = 0; k < size / 2; k++) {
          Value *l = B.CreateAlignedLoad(I64, B.CreateConstGEP1_32(I64, p, k), Align(4));
          x = x ? B.CreateOr(x, l) : l;
        }
        acc = B.CreateICmpNE(x, ConstantInt::get(I64, 0));
      }
    } else {
      Value *x = nullptr;
      for (unsigned k = 0; k < size; k++) {
        Value *l = B.CreateAlignedLoad(I32, B.CreateConstGEP1_32(I32, p, k), Align(4));
        x = x ? B.CreateOr(x, l) : l;
      }
      acc = B.CreateICmpNE(x, cZero);
    }
    Instruction *head = after;
    Instruction *T = SplitBlockAndInsertIfThen(acc, head, false, unlikely());
    BasicBlock *pre = T->getParent()->getSinglePredecessor();
    IRBuilder<> TB(T);
    Value *lv = loaded ? to64(TB, loaded) : ConstantInt::get(I64, 0);
    Value *v = TB.CreateCall(fLoad, {a, u32(size), lv});
    IRBuilder<> PB(&head->getParent()->front());
    PHINode *Ph = PB.CreatePHI(I32, 2);
    Ph->addIncoming(cZero, pre);
    Ph->addIncoming(v, T->getParent());
    return Ph;
  }
  void storeShadow(Instruction *I, Value *P, unsigned size, Value *s) {
    IRBuilder<> B(I);
    Value *a = B.CreatePtrToInt(P, I64);
    Value *in = B.CreateICmpULT(a, ConstantInt::get(I64, LIM));
    Value *ca = B.CreateSelect(in, a, ConstantInt::get(I64, 0));
    Value *p = shPtr(B, ca);
    if (isZ(s)) {
      if (size > 16) { B.CreateCall(fStoreClr, {a, u32(size)}); return; }
      // check for poison / clear: read, if non-zero go slow
      Value *x = nullptr;
      unsigned k = 0;
      SmallVector<Value*, 8> l64;
      for (; k + 2 <= size; k += 2) {
        Value *l = B.CreateAlignedLoad(I64, B.CreateConstGEP1_32(I32, p, k), Align(4));
        x = x ? B.CreateOr(x, l) : l;
      }
      if (k < size) {
        Value *l = B.CreateZExt(B.CreateAlignedLoad(I32, B.CreateConstGEP1_32(I32, p, k), Align(4)), I64);
        x = x ? B.CreateOr(x, l) : l;
      }
      Value *c = B.CreateICmpNE(x, ConstantInt::get(I64, 0));
      Instruction *T = SplitBlockAndInsertIfThen(c, I, false, unlikely());
      IRBuilder<>(T).CreateCall(fStoreClr, {a, u32(size)});
      return;
    }
    B.CreateCall(fStore, {a, u32(size), s});
  }

  bool isIgnorableCallee(StringRef n) {
    return n.starts_with("__sym_") || n.starts_with("llvm.");
  }

  void instrCall(CallBase *CB, std::vector<Instruction *> &dead) {
    Function *Callee = CB->getCalledFunction();
    if (isa<InlineAsm>(CB->getCalledOperand())) {
      for (Value *A : CB->args()) conc(CB, A);
      return;
    }
    if (Callee && Callee->getName().starts_with("__sym_")) return;
    if (auto *II = dyn_cast<IntrinsicInst>(CB)) { instrIntrinsic(II); return; }
    if (CB->isMustTailCall()) { if (auto *CI = dyn_cast<CallInst>(CB)) CI->setTailCallKind(CallInst::TCK_None); }
    if (auto *CI = dyn_cast<CallInst>(CB)) if (CI->isTailCall()) CI->setTailCallKind(CallInst::TCK_NoTail);
    IRBuilder<> B(CB);
    // indirect call through a symbolic pointer
    if (!Callee) { Value *s = sh1(CB->getCalledOperand()); if (!isZ(s)) guarded(CB, {s}, [&](IRBuilder<> &TB) { return TB.CreateCall(fConc, {s, u32(0)}); }); B.SetInsertPoint(CB); }
    unsigned n = 0;
    SmallVector<std::pair<unsigned, Value *>, 8> symArgs;
    unsigned slot = 0;
    for (Value *A : CB->args()) {
      SV s = shadow(A);
      for (Value *x : s) { if (slot < 64) { B.CreateStore(x, B.CreateConstInBoundsGEP2_32(ArgArrTy, gArgs, 0, slot)); if (!isZ(x)) n++; } slot++; }
    }
    for (unsigned i = 0; i < CB->arg_size() && i < 64; i++) if (CB->isByValArgument(i))
      B.CreateStore(to64(B, CB->getArgOperand(i)), B.CreateConstInBoundsGEP2_32(BvArrTy, gByval, 0, i));
    Value *tag = B.CreatePtrToInt(CB->getCalledOperand(), I64);
    B.CreateStore(tag, gArgTag);
    B.CreateStore(ConstantInt::get(I64, 0), gRetTag);
    // after the call
    Instruction *after;
    if (auto *Inv = dyn_cast<InvokeInst>(CB)) {
      BasicBlock *ND = Inv->getNormalDest();
      if (!ND->getSinglePredecessor()) ND = SplitEdge(Inv->getParent(), ND);
      after = &*ND->getFirstInsertionPt();
    } else after = CB->getNextNode();
    if (CB->doesNotReturn()) return;
    IRBuilder<> AB(after);
    // not consumed => external: concretise the arguments' shadows
    bool definedHere = Callee && !Callee->isDeclaration() && !Callee->isInterposable() ;
    if (!definedHere) {
      Value *t2 = AB.CreateLoad(I64, gArgTag);
      Value *c = AB.CreateICmpEQ(t2, tag);
      Instruction *T = SplitBlockAndInsertIfThen(c, after, false, unlikely());
      IRBuilder<> TB(T);
      TB.CreateStore(ConstantInt::get(I64, 0), gArgTag);
      // pass arg values for pointer scanning: array of (value, shadow, isptr)
      SmallVector<Value *, 8> vals;
      unsigned cnt = 0;
      IRBuilder<> EB(&*F->getEntryBlock().getFirstInsertionPt());
      for (Value *A : CB->args()) { Type *ty = A->getType(); if (ty->isPointerTy() || (!isZ(sh1(A)))) cnt++; }
      if (cnt) {
        AllocaInst *arr = EB.CreateAlloca(ArrayType::get(I64, cnt * 2), nullptr, "symext");
        unsigned k = 0;
        for (Value *A : CB->args()) {
          SV s = shadow(A);
          if (A->getType()->isPointerTy() || (s.size() && !isZ(s[0]))) {
            TB.CreateStore(to64(TB, A), TB.CreateConstInBoundsGEP2_32(arr->getAllocatedType(), arr, 0, k * 2));
            Value *meta = TB.CreateZExt(s.size() ? s[0] : cZero, I64);
            if (A->getType()->isPointerTy()) meta = TB.CreateOr(meta, ConstantInt::get(I64, 1ull << 32));
            TB.CreateStore(meta, TB.CreateConstInBoundsGEP2_32(arr->getAllocatedType(), arr, 0, k * 2 + 1));
            k++;
          }
        }
        Value *nm = ConstantPointerNull::get(cast<PointerType>(Ptr));
        if (Callee) nm = TB.CreateGlobalStringPtr(Callee->getName());
        TB.CreateCall(fExt, {u32(cnt), arr, u32(0), nm});
      }
    }
    unsigned lc = leafCount(CB->getType());
    if (!lc) return;
    if (!leafHasTracked(CB->getType())) return;
    AB.SetInsertPoint(after);
    Value *rt = AB.CreateLoad(I64, gRetTag);
    Value *ok = AB.CreateICmpEQ(rt, tag);
    SV rs;
    SmallVector<Type *, 4> leaves; flattenTy(CB->getType(), leaves);
    for (unsigned i = 0; i < lc; i++) {
      if (i >= 64 || !width(leaves[i])) { rs.push_back(cZero); continue; }
      Value *l = AB.CreateLoad(I32, AB.CreateConstInBoundsGEP2_32(ArgArrTy, gRet, 0, i));
      rs.push_back(AB.CreateSelect(ok, l, cZero));
    }
    sh[CB] = rs;
  }
  bool leafHasTracked(Type *T) { SmallVector<Type *, 4> o; flattenTy(T, o); for (Type *t : o) if (width(t)) return true; return false; }

  void instrIntrinsic(IntrinsicInst *II) {
    Intrinsic::ID id = II->getIntrinsicID();
    auto shv = [&](unsigned i) { return sh1(II->getArgOperand(i)); };
    Instruction *next = II->getNextNode();
    switch (id) {
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        conc(II, II->getArgOperand(2)); conc(II, II->getArgOperand(0)); conc(II, II->getArgOperand(1));
        IRBuilder<> B(II);
        B.CreateCall(fMemcpy, {to64(B, II->getArgOperand(0)), to64(B, II->getArgOperand(1)), to64(B, II->getArgOperand(2))});
        return; }
      case Intrinsic::memset: case Intrinsic::memset_inline: {
        conc(II, II->getArgOperand(2)); conc(II, II->getArgOperand(0));
        IRBuilder<> B(II);
        B.CreateCall(fMemset, {to64(B, II->getArgOperand(0)), shv(1), to64(B, II->getArgOperand(2))});
        return; }
      case Intrinsic::lifetime_start: {
        auto *sz = dyn_cast<ConstantInt>(II->getArgOperand(0));
        IRBuilder<> B(II);
        if (sz && sz->getSExtValue() > 0)
          B.CreateCall(fAllocaClr, {to64(B, II->getArgOperand(1)), ConstantInt::get(I64, sz->getZExtValue())});
        return; }
      case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin:
      case Intrinsic::uadd_sat: case Intrinsic::usub_sat: case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: {
        unsigned w = width(II->getType());
        if (!w) break;
        unsigned op = id == Intrinsic::smax ? I_SMAX : id == Intrinsic::smin ? I_SMIN : id == Intrinsic::umax ? I_UMAX : id == Intrinsic::umin ? I_UMIN
          : id == Intrinsic::uadd_sat ? I_UADDSAT : id == Intrinsic::usub_sat ? I_USUBSAT : id == Intrinsic::sadd_sat ? I_SADDSAT : I_SSUBSAT;
        if (op >= I_UADDSAT && op != I_USUBSAT) break;
        Value *a = shv(0), *b = shv(1);
        set1(II, guarded(next, {a, b}, [&](IRBuilder<> &B) -> Value * {
          return B.CreateCall(fIntr2, {u32(op), u32(w), a, b, to64(B, II->getArgOperand(0)), to64(B, II->getArgOperand(1))}); }));
        return; }
      case Intrinsic::abs: case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bswap: case Intrinsic::bitreverse: {
        unsigned w = width(II->getType());
        if (!w) break;
        unsigned op = id == Intrinsic::abs ? I_ABS : id == Intrinsic::ctpop ? I_CTPOP : id == Intrinsic::ctlz ? I_CTLZ : id == Intrinsic::cttz ? I_CTTZ : id == Intrinsic::bswap ? I_BSWAP : I_BITREV;
        Value *a = shv(0);
        set1(II, guarded(next, {a}, [&](IRBuilder<> &B) -> Value * { return B.CreateCall(fIntr1, {u32(op), u32(w), a, to64(B, II->getArgOperand(0))}); }));
        return; }
      case Intrinsic::fshl: case Intrinsic::fshr: {
        unsigned w = width(II->getType());
        if (!w) break;
        Value *a = shv(0), *b = shv(1), *c = shv(2);
        set1(II, guarded(next, {a, b, c}, [&](IRBuilder<> &B) -> Value * {
          return B.CreateCall(fIntr3, {u32(id == Intrinsic::fshl), u32(w), a, b, c, to64(B, II->getArgOperand(0)), to64(B, II->getArgOperand(1)), to64(B, II->getArgOperand(2))}); }));
        return; }
      case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow:
      case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
        unsigned w = width(II->getArgOperand(0)->getType());
        if (!w) break;
        unsigned bop, oop;
        switch (id) {
          case Intrinsic::sadd_with_overflow: bop = O_ADD; oop = I_SADDO; break;
          case Intrinsic::uadd_with_overflow: bop = O_ADD; oop = I_UADDO; break;
          case Intrinsic::ssub_with_overflow: bop = O_SUB; oop = I_SSUBO; break;
          case Intrinsic::usub_with_overflow: bop = O_SUB; oop = I_USUBO; break;
          case Intrinsic::smul_with_overflow: bop = O_MUL; oop = I_SMULO; break;
          default: bop = O_MUL; oop = I_UMULO; break;
        }
        Value *a = shv(0), *b = shv(1);
        Value *A = II->getArgOperand(0), *Bv = II->getArgOperand(1);
        Value *r = guarded(next, {a, b}, [&](IRBuilder<> &B) -> Value * { return B.CreateCall(fBin, {u32(bop), u32(w), a, b, to64(B, A), to64(B, Bv)}); });
        Value *o = guarded(next, {a, b}, [&](IRBuilder<> &B) -> Value * { return B.CreateCall(fIntr2, {u32(oop), u32(w), a, b, to64(B, A), to64(B, Bv)}); });
        SV s; s.push_back(r); s.push_back(o); sh[II] = s;
        return; }
      case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
      case Intrinsic::ptrmask: case Intrinsic::threadlocal_address:
        set1(II, shv(0)); if (id == Intrinsic::ptrmask) conc(II, II->getArgOperand(0)); return;
      case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_end:
      case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
      case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::donothing: case Intrinsic::trap: case Intrinsic::eh_typeid_for:
      case Intrinsic::prefetch: case Intrinsic::is_constant: case Intrinsic::objectsize: case Intrinsic::var_annotation:
        return;
      default: break;
    }
    for (Value *A : II->args()) if (!A->getType()->isMetadataTy()) conc(II, A);
  }

  void run(Function &Fn) {
    F = &Fn;
    sh.clear();
    // collect instructions first
    std::vector<Instruction *> ins;
    std::vector<PHINode *> phis;
    for (BasicBlock &BB : Fn) for (Instruction &I : BB) { ins.push_back(&I); }
    // process in dominance-respecting order: RPO over blocks so operands come first (phis handled later)
    ReversePostOrderCollect(Fn, ins);
    // argument shadows
    Instruction *entry = &*Fn.getEntryBlock().getFirstNonPHIOrDbgOrAlloca();
    // skip to after allocas
    {
      IRBuilder<> B(entry);
      unsigned slot = 0; bool trk = false;
      for (Argument &A : Fn.args()) if (leafHasTracked(A.getType())) trk = true;
      Value *self = B.CreatePtrToInt(&Fn, I64);
      Value *t = B.CreateLoad(I64, gArgTag);
      Value *ok = B.CreateICmpEQ(t, self);
      if (trk) for (Argument &A : Fn.args()) {
        SmallVector<Type *, 4> lv; flattenTy(A.getType(), lv);
        SV s;
        for (Type *T : lv) {
          if (slot < 64 && width(T)) {
            Value *l = B.CreateLoad(I32, B.CreateConstInBoundsGEP2_32(ArgArrTy, gArgs, 0, slot));
            s.push_back(B.CreateSelect(ok, l, cZero));
          } else s.push_back(cZero);
          slot++;
        }
        sh[&A] = s;
      }
      for (Argument &A : Fn.args()) if (A.hasByValAttr() && A.getArgNo() < 64) {
        Value *src = B.CreateLoad(I64, B.CreateConstInBoundsGEP2_32(BvArrTy, gByval, 0, A.getArgNo()));
        Value *d = to64(B, &A);
        B.CreateCall(fMemcpy, {d, B.CreateSelect(ok, src, d), ConstantInt::get(I64, DL.getTypeAllocSize(A.getParamByValType()))});
      }
      B.CreateStore(B.CreateSelect(ok, ConstantInt::get(I64, 0), t), gArgTag);
      // allocas without lifetime markers: clear stale shadow
      for (Instruction &I : Fn.getEntryBlock()) if (auto *AI = dyn_cast<AllocaInst>(&I)) if (AI->isStaticAlloca() && AI->getName() != "symext") {
        auto sz = AI->getAllocationSize(DL);
        if (sz && !sz->isScalable() && sz->getFixedValue() <= 65536 && sz->getFixedValue() > 0)
          B.CreateCall(fAllocaClr, {B.CreatePtrToInt(AI, I64), ConstantInt::get(I64, sz->getFixedValue())});
      }
    }
    // create phi shadows up front
    for (Instruction *I : ins) if (auto *P = dyn_cast<PHINode>(I)) {
      SmallVector<Type *, 4> lv; flattenTy(P->getType(), lv);
      SV s; bool tr = false;
      for (Type *T : lv) if (width(T)) tr = true;
      if (!tr) continue;
      for (Type *T : lv) {
        if (!width(T)) { s.push_back(cZero); continue; }
        IRBuilder<> B(P->getParent()->getFirstNonPHI());
        B.SetInsertPoint(P);
        s.push_back(B.CreatePHI(I32, P->getNumIncomingValues()));
      }
      sh[P] = s; phis.push_back(P);
    }
    std::vector<Instruction *> dead;
    for (Instruction *I : ins) visit(I, dead);
    // fill phi shadows (blocks may have been split: use current incoming blocks)
    for (PHINode *P : phis) {
      SV s = sh[P];
      for (unsigned k = 0; k < s.size(); k++) if (auto *SP = dyn_cast<PHINode>(s[k])) {
        for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
          SV is = shadow(P->getIncomingValue(i));
          SP->addIncoming(is.size() > k ? is[k] : cZero, P->getIncomingBlock(i));
        }
      }
    }
    for (Instruction *I : dead) I->eraseFromParent();
  }
  void ReversePostOrderCollect(Function &Fn, std::vector<Instruction *> &ins) {
    ins.clear();
    std::vector<BasicBlock *> post; std::set<BasicBlock *> seen;
    std::vector<std::pair<BasicBlock *, unsigned>> st;
    st.push_back({&Fn.getEntryBlock(), 0}); seen.insert(&Fn.getEntryBlock());
    while (!st.empty()) {
      auto &[bb, i] = st.back();
      Instruction *T = bb->getTerminator();
      if (i < T->getNumSuccessors()) { BasicBlock *s = T->getSuccessor(i++); if (seen.insert(s).second) st.push_back({s, 0}); }
      else { post.push_back(bb); st.pop_back(); }
    }
    for (auto it = post.rbegin(); it != post.rend(); ++it) for (Instruction &I : **it) ins.push_back(&I);
  }

  void visit(Instruction *I, std::vector<Instruction *> &dead) {
    if (isa<PHINode>(I) || isa<AllocaInst>(I)) { if (auto *A = dyn_cast<AllocaInst>(I)) if (A->isArrayAllocation()) conc(I, A->getArraySize()); return; }
    Instruction *next = I->getNextNode();
    if (auto *BO = dyn_cast<BinaryOperator>(I)) {
      unsigned w = BO->getType()->isIntegerTy() ? width(BO->getType()) : 0;
      if (!w) { conc(I, I->getOperand(0)); conc(I, I->getOperand(1)); return; }
      unsigned op;
      switch (BO->getOpcode()) {
        case Instruction::Add: op = O_ADD; break; case Instruction::Sub: op = O_SUB; break; case Instruction::Mul: op = O_MUL; break;
        case Instruction::UDiv: op = O_UDIV; break; case Instruction::SDiv: op = O_SDIV; break; case Instruction::URem: op = O_UREM; break;
        case Instruction::SRem: op = O_SREM; break; case Instruction::And: op = O_AND; break; case Instruction::Or: op = O_OR; break;
        case Instruction::Xor: op = O_XOR; break; case Instruction::Shl: op = O_SHL; break; case Instruction::LShr: op = O_LSHR; break;
        case Instruction::AShr: op = O_ASHR; break; default: return;
      }
      Value *a = sh1(I->getOperand(0)), *b = sh1(I->getOperand(1));
      bool before = op == O_UDIV || op == O_SDIV || op == O_UREM || op == O_SREM;
      set1(I, guarded(before ? I : next, {a, b}, [&](IRBuilder<> &B) -> Value * {
        return B.CreateCall(fBin, {u32(op), u32(w), a, b, to64(B, I->getOperand(0)), to64(B, I->getOperand(1))}); }));
      return;
    }
    if (auto *CI = dyn_cast<ICmpInst>(I)) {
      unsigned w = width(CI->getOperand(0)->getType());
      if (!w) { conc(I, I->getOperand(0)); conc(I, I->getOperand(1)); return; }
      unsigned p;
      switch (CI->getPredicate()) {
        case CmpInst::ICMP_EQ: p = P_EQ; break; case CmpInst::ICMP_NE: p = P_NE; break; case CmpInst::ICMP_UGT: p = P_UGT; break;
        case CmpInst::ICMP_UGE: p = P_UGE; break; case CmpInst::ICMP_ULT: p = P_ULT; break; case CmpInst::ICMP_ULE: p = P_ULE; break;
        case CmpInst::ICMP_SGT: p = P_SGT; break; case CmpInst::ICMP_SGE: p = P_SGE; break; case CmpInst::ICMP_SLT: p = P_SLT; break;
        default: p = P_SLE; break;
      }
      Value *a = sh1(I->getOperand(0)), *b = sh1(I->getOperand(1));
      set1(I, guarded(next, {a, b}, [&](IRBuilder<> &B) -> Value * {
        return B.CreateCall(fCmp, {u32(p), u32(w), a, b, to64(B, I->getOperand(0)), to64(B, I->getOperand(1))}); }));
      return;
    }
    if (auto *S = dyn_cast<SelectInst>(I)) {
      SmallVector<Type *, 4> lv; flattenTy(S->getType(), lv);
      Value *c = sh1(S->getCondition());
      if (S->getCondition()->getType()->isVectorTy()) { conc(I, S->getTrueValue()); conc(I, S->getFalseValue()); return; }
      if (lv.size() != 1 || !width(lv[0])) {
        conc(I, S->getCondition());
        SV t = shadow(S->getTrueValue()), f = shadow(S->getFalseValue()), r;
        IRBuilder<> B(next);
        for (unsigned k = 0; k < t.size(); k++) r.push_back(isZ(t[k]) && isZ(f[k]) ? cZero : B.CreateSelect(S->getCondition(), t[k], f[k]));
        sh[I] = r; return;
      }
      unsigned w = width(lv[0]);
      Value *t = sh1(S->getTrueValue()), *f = sh1(S->getFalseValue());
      set1(I, guarded(next, {c, t, f}, [&](IRBuilder<> &B) -> Value * {
        return B.CreateCall(fSel, {u32(w), c, B.CreateZExt(S->getCondition(), I32), t, f, to64(B, S->getTrueValue()), to64(B, S->getFalseValue())}); }));
      return;
    }
    if (auto *CI = dyn_cast<CastInst>(I)) {
      Value *s = sh1(CI->getOperand(0));
      unsigned wf = width(CI->getOperand(0)->getType()), wt = width(CI->getType());
      if (!wf || !wt || CI->getOperand(0)->getType()->isVectorTy()) { conc(I, CI->getOperand(0)); return; }
      unsigned op;
      if (isa<ZExtInst>(CI)) op = O_ZEXT; else if (isa<SExtInst>(CI)) op = O_SEXT;
      else if (wf == wt) { set1(I, s); return; }
      else op = wf < wt ? O_ZEXT : O_EXTRACT;
      set1(I, guarded(next, {s}, [&](IRBuilder<> &B) -> Value * { return B.CreateCall(fCast, {u32(op), u32(wf), u32(wt), s}); }));
      return;
    }
    if (isa<FreezeInst>(I)) { sh[I] = shadow(I->getOperand(0)); return; }
    if (auto *G = dyn_cast<GetElementPtrInst>(I)) {
      if (G->getType()->isVectorTy()) return;
      SmallVector<Value *, 4> ss; ss.push_back(sh1(G->getPointerOperand()));
      for (Value *ix : G->indices()) ss.push_back(sh1(ix));
      set1(I, guarded(next, ss, [&](IRBuilder<> &B) -> Value * {
        Value *cur = ss[0];
        Value *cv = to64(B, G->getPointerOperand());
        unsigned k = 1;
        uint64_t constOff = 0;
        for (gep_type_iterator it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it, ++k) {
          Value *ix = it.getOperand();
          if (StructType *ST = it.getStructTypeOrNull()) { constOff += DL.getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
          uint64_t sc = it.getSequentialElementStride(DL);
          if (auto *ci = dyn_cast<ConstantInt>(ix)) { constOff += ci->getSExtValue() * sc; continue; }
          // off = sext(ix) * sc
          unsigned wi = width(ix->getType());
          Value *xs = ss[k];
          Value *xv = ix->getType()->getIntegerBitWidth() < 64 ? B.CreateSExt(ix, I64) : ix;
          if (!isZ(xs)) {
            if (wi < 64) xs = B.CreateCall(fCast, {u32(O_SEXT), u32(wi), u32(64), xs});
            if (sc != 1) xs = B.CreateCall(fBin, {u32(O_MUL), u32(64), xs, cZero, xv, ConstantInt::get(I64, sc)});
          }
          Value *ov = sc != 1 ? B.CreateMul(xv, ConstantInt::get(I64, sc)) : xv;
          if (isZ(cur) && isZ(xs)) { cv = B.CreateAdd(cv, ov); continue; }
          cur = B.CreateCall(fBin, {u32(O_ADD), u32(64), cur, xs, cv, ov});
          cv = B.CreateAdd(cv, ov);
        }
        if (constOff && !isZ(cur)) cur = B.CreateCall(fBin, {u32(O_ADD), u32(64), cur, cZero, cv, ConstantInt::get(I64, constOff)});
        return cur;
      }));
      return;
    }
    if (auto *L = dyn_cast<LoadInst>(I)) {
      unsigned size = DL.getTypeStoreSize(L->getType());
      SmallVector<Type *, 4> lv; flattenTy(L->getType(), lv);
      if (lv.size() == 1 && width(lv[0])) {
        unsigned w = width(lv[0]);
        Value *ps = sh1(L->getPointerOperand()), *alt = nullptr;
        if (!isZ(ps)) alt = guarded(I, {ps}, [&](IRBuilder<> &B) -> Value * { return B.CreateCall(fAddrLoad, {ps, B.CreatePtrToInt(L->getPointerOperand(), I64), u32(size), u32(w)}); });
        Value *s = loadShadow(I, L->getPointerOperand(), size, L, next);
        if (w < size * 8) {
          // e.g. i1 stored in a byte
          Instruction *ip = next;
          Value *s0 = s;
          s = guarded(ip, {s0}, [&](IRBuilder<> &B) -> Value * { return B.CreateCall(fCast, {u32(O_EXTRACT), u32(size * 8), u32(w), s0}); });
        }
        if (alt) {
          IRBuilder<> B(next);
          Value *use = B.CreateSelect(B.CreateICmpEQ(alt, u32(0xFFFFFFFFu)), cZero, alt);
          s = B.CreateSelect(B.CreateICmpEQ(alt, cZero), s, use);
        }
        set1(I, s);
      } else {
        // float / wide: concretise symbolic content
        addrCheck(I, L->getPointerOperand(), size, false);
        IRBuilder<> B(I);
        Value *a = B.CreatePtrToInt(L->getPointerOperand(), I64);
        B.CreateCall(fLoadConc, {a, u32(size)});
      }
      return;
    }
    if (auto *S = dyn_cast<StoreInst>(I)) {
      Value *V = S->getValueOperand();
      unsigned size = DL.getTypeStoreSize(V->getType());
      SmallVector<Type *, 4> lv; flattenTy(V->getType(), lv);
      Value *s = cZero;
      if (lv.size() == 1) {
        s = sh1(V);
        unsigned w = width(lv[0]);
        if (!w) { conc(I, V); s = cZero; }
        else if (w < size * 8 && !isZ(s)) {
          Value *s0 = s;
          s = guarded(I, {s0}, [&](IRBuilder<> &B) -> Value * { return B.CreateCall(fCast, {u32(O_ZEXT), u32(w), u32(size * 8), s0}); });
        }
      } else conc(I, V);
      Value *ps = sh1(S->getPointerOperand());
      if (!isZ(ps)) {
        unsigned w = lv.size() == 1 ? width(lv[0]) : 0;
        Value *sv = s;
        Value *alt = guarded(I, {ps}, [&](IRBuilder<> &B) -> Value * {
          Value *r = B.CreateCall(fAddrStore, {ps, B.CreatePtrToInt(S->getPointerOperand(), I64), u32(size), sv, w ? to64(B, V) : ConstantInt::get(I64, 0), u32(w)});
          return r; });
        IRBuilder<> B(I);
        // alt: 0 when the pointer was concrete; POISON: keep s; otherwise the merged shadow (+1 bit trick not needed)
        Value *keep = B.CreateOr(B.CreateICmpEQ(alt, cZero), B.CreateICmpEQ(alt, u32(0xFFFFFFFFu)));
        s = B.CreateSelect(keep, s, B.CreateSelect(B.CreateICmpEQ(alt, u32(0xFFFFFFFEu)), cZero, alt));
      }
      storeShadow(I, S->getPointerOperand(), size, s);
      return;
    }
    if (auto *E = dyn_cast<ExtractValueInst>(I)) {
      SV a = shadow(E->getAggregateOperand());
      unsigned st = leafIndex(E->getAggregateOperand()->getType(), E->getIndices()), n = leafCount(E->getType());
      SV r; for (unsigned k = 0; k < n; k++) r.push_back(st + k < a.size() ? a[st + k] : cZero);
      sh[I] = r; return;
    }
    if (auto *E = dyn_cast<InsertValueInst>(I)) {
      SV a = shadow(E->getAggregateOperand()), v = shadow(E->getInsertedValueOperand());
      unsigned st = leafIndex(E->getType(), E->getIndices());
      for (unsigned k = 0; k < v.size(); k++) if (st + k < a.size()) a[st + k] = v[k];
      sh[I] = a; return;
    }
    if (auto *B = dyn_cast<BranchInst>(I)) {
      if (!B->isConditional()) return;
      Value *c = sh1(B->getCondition());
      if (isZ(c)) return;
      guarded(I, {c}, [&](IRBuilder<> &TB) { return TB.CreateCall(fBr, {c, TB.CreateZExt(B->getCondition(), I32)}); });
      return;
    }
    if (auto *S = dyn_cast<SwitchInst>(I)) {
      Value *c = sh1(S->getCondition());
      if (isZ(c)) return;
      std::vector<Constant *> cs;
      for (auto &k : S->cases()) cs.push_back(ConstantInt::get(I64, k.getCaseValue()->getZExtValue()));
      ArrayType *AT = ArrayType::get(I64, cs.size());
      auto *g = new GlobalVariable(M, AT, true, GlobalValue::PrivateLinkage, ConstantArray::get(AT, cs), "symsw");
      guarded(I, {c}, [&](IRBuilder<> &TB) { return TB.CreateCall(fSw, {c, u32(width(S->getCondition()->getType())), to64(TB, S->getCondition()), u32(cs.size()), g}); });
      return;
    }
    if (auto *R = dyn_cast<ReturnInst>(I)) {
      Value *V = R->getReturnValue();
      IRBuilder<> B(I);
      if (!V || !leafHasTracked(V->getType())) return;
      B.CreateStore(ConstantInt::get(I64, 0), gRetTag);
      SV s = shadow(V);
      bool anyS = false;
      for (unsigned k = 0; k < s.size() && k < 64; k++) if (!isZ(s[k])) anyS = true;
      if (!anyS) return;
      for (unsigned k = 0; k < s.size() && k < 64; k++) B.CreateStore(s[k], B.CreateConstInBoundsGEP2_32(ArgArrTy, gRet, 0, k));
      B.CreateStore(B.CreatePtrToInt(F, I64), gRetTag);
      return;
    }
    if (auto *CB = dyn_cast<CallBase>(I)) { instrCall(CB, dead); return; }
    if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) {
      for (Value *o : I->operands()) if (!isa<BasicBlock>(o)) conc(I, o);
      Value *p = I->getOperand(0);
      unsigned size = DL.getTypeStoreSize(I->getOperand(1)->getType());
      loadShadow(I, p, size, nullptr, I);
      storeShadow(I, p, size, cZero);
      return;
    }
    if (isa<UnreachableInst>(I) || isa<LandingPadInst>(I) || isa<FenceInst>(I) || isa<ResumeInst>(I)) return;
    // everything else (vectors, floats, va_arg, ...): concretise operands
    for (Value *o : I->operands()) if (!isa<BasicBlock>(o) && !o->getType()->isMetadataTy() && !o->getType()->isTokenTy()) conc(I, o);
  }
};

static const std::map<std::string, std::string> renames = {
    {"memcmp", "__symw_memcmp"}, {"bcmp", "__symw_memcmp"}, {"strcmp", "__symw_strcmp"}, {"strlen", "__symw_strlen"},
    {"memchr", "__symw_memchr"}, {"strncmp", "__symw_strncmp"},
    {"exit", "__symw_exit"}, {"_exit", "__symw_exit"}, {"abort", "__symw_abort"}, {"__assert_fail", "__symw_assert_fail"},
    {"_ZNSirsERi", "__symw_istream_int"}, {"time", "__symw_time"}, {"_ZNSt6chrono3_V212system_clock3nowEv", "__symw_now"},
    {"_ZNSt6chrono3_V212steady_clock3nowEv", "__symw_now"}, {"clock_gettime", "__symw_clock_gettime"}, {"gettimeofday", "__symw_gettimeofday"},
    {"clock", "__symw_clock"}, {"times", "__symw_times"}, {"getrusage", "__symw_getrusage"},
    {"_ZNSo5flushEv", "__symw_flush"}, {"_ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_", "__symw_flush"},
};

struct SymPass : PassInfoMixin<SymPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    Instr X(M);
    std::vector<Function *> fns;
    for (Function &F : M) if (!F.isDeclaration() && !F.getName().starts_with("__sym")) fns.push_back(&F);
    for (auto &[a, b] : renames) if (Function *F = M.getFunction(a)) if (F->isDeclaration()) {
      FunctionCallee nf = M.getOrInsertFunction(b, F->getFunctionType());
      F->replaceAllUsesWith(nf.getCallee());
    }
    // aliases make tag comparisons ambiguous (C1/C2 constructors): resolve to the aliasee
    for (GlobalAlias &A : M.aliases()) if (auto *F = dyn_cast<Function>(A.getAliaseeObject())) {
      A.replaceUsesWithIf(F, [](Use &U) { return isa<CallBase>(U.getUser()); });
    }
    for (Function *F : fns) {
      if (F->hasFnAttribute("sym_noinstr") ) continue;
      F->removeFnAttr(Attribute::Memory); 
      F->removeFnAttr(Attribute::WillReturn); F->removeFnAttr(Attribute::Speculatable); F->removeFnAttr(Attribute::NoRecurse);
      X.run(*F);
    }
    for (Function &F : M) { F.removeFnAttr(Attribute::Memory); F.removeFnAttr(Attribute::NoCallback); if (F.getName().starts_with("llvm.")) continue;
      for (Argument &A : F.args()) { A.removeAttr(Attribute::ReadOnly); A.removeAttr(Attribute::ReadNone); A.removeAttr(Attribute::WriteOnly);} }
    for (Function &F : M) for (BasicBlock &BB : F) for (Instruction &I : BB) if (auto *CB = dyn_cast<CallBase>(&I)) if (!isa<IntrinsicInst>(CB)) {
      CB->removeFnAttr(Attribute::Memory);
    }
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
}  // namespace

extern "C" LLVM_ATTRIBUTE_WEAK ::llvm::PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "SymPass", "1", [](PassBuilder &PB) {
    PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) {
      MPM.addPass(createModuleToFunctionPassAdaptor(ScalarizerPass()));
      MPM.addPass(SymPass());
      MPM.addPass(createModuleToFunctionPassAdaptor(SimplifyCFGPass()));
    });
  }};
}
