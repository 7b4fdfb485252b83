// SymPass: LLVM 18 pass that instruments every function of a translation unit
// so that it executes symbolically next to its concrete execution.  For every
// scalar SSA value a "shadow" value (a handle of an expression in the runtime,
// null = concrete) is computed.  See engine/README in DESIGN.md.
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstVisitor.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include <map>
#include <set>

using namespace llvm;

namespace {

// Externals for which the runtime provides a symbolic model: __symw_<name>.
const std::set<std::string> kWrapped = {
    "malloc", "calloc", "realloc", "free", "_Znwm", "_Znam", "_ZdlPv",
    "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZnwmRKSt9nothrow_t",
    "_ZdlPvRKSt9nothrow_t", "memcmp", "bcmp", "strlen", "strcmp", "strncmp", "memchr",
    "strchr", "memcpy", "memmove", "memset",
    "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh",
    "exp", "log", "sqrt", "pow", "atan2", "fabs", "floor", "ceil", "trunc",
    "rint", "nearbyint", "round", "fmod", "modf", "fmin", "fmax", "nextafter", "ldexp",
    "lround", "llround", "lrint",
    "_ZSt11_Hash_bytesPKvmm", "__assert_fail", "abort", "_ZSt9terminatev",
    "exit", "_exit",
    // std::string out-of-line pieces never get here (instantiated in the TU).
};

bool isWrapped(StringRef N) { return kWrapped.count(N.str()) != 0; }

struct Shadow { SmallVector<Value *, 2> L; };

class FnInst {
 public:
  FnInst(Function &F) : F(F), M(*F.getParent()), C(F.getContext()), DL(M.getDataLayout()) {
    P = PointerType::get(C, 0);
    I8 = Type::getInt8Ty(C); I1 = Type::getInt1Ty(C);
    I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C);
    V = Type::getVoidTy(C); D = Type::getDoubleTy(C);
    Null = ConstantPointerNull::get(cast<PointerType>(P));
  }

  Function &F; Module &M; LLVMContext &C; const DataLayout &DL;
  Type *P, *I8, *I1, *I32, *I64, *V, *D;
  Constant *Null;
  DenseMap<Value *, Shadow> S;

  FunctionCallee fn(StringRef N, Type *R, ArrayRef<Type *> A) {
    return M.getOrInsertFunction(N, FunctionType::get(R, A, false));
  }
  GlobalVariable *gv(StringRef N, Type *T) {
    return cast<GlobalVariable>(M.getOrInsertGlobal(N, T));
  }
  Value *argSlot(IRBuilder<> &B, unsigned i) {
    auto *T = ArrayType::get(P, 64);
    return B.CreateConstInBoundsGEP2_64(T, gv("__sym_args", T), 0, i);
  }
  Value *retSlot(IRBuilder<> &B, unsigned i) {
    auto *T = ArrayType::get(P, 64);
    return B.CreateConstInBoundsGEP2_64(T, gv("__sym_ret", T), 0, i);
  }
  GlobalVariable *calleeVar() { return gv("__sym_callee", P); }
  GlobalVariable *retFnVar() { return gv("__sym_retfn", P); }

  // ---- leaves
  struct Leaf { Type *T; SmallVector<unsigned, 3> Idx; uint64_t Off; };
  void leaves(Type *T, SmallVector<unsigned, 3> &Idx, uint64_t Off, SmallVectorImpl<Leaf> &Out) {
    if (auto *ST = dyn_cast<StructType>(T)) {
      const StructLayout *SL = DL.getStructLayout(ST);
      for (unsigned i = 0; i < ST->getNumElements(); i++) {
        Idx.push_back(i);
        leaves(ST->getElementType(i), Idx, Off + (uint64_t)SL->getElementOffset(i), Out);
        Idx.pop_back();
      }
    } else if (auto *AT = dyn_cast<ArrayType>(T)) {
      uint64_t sz = DL.getTypeAllocSize(AT->getElementType());
      for (unsigned i = 0; i < AT->getNumElements(); i++) {
        Idx.push_back(i);
        leaves(AT->getElementType(), Idx, Off + i * sz, Out);
        Idx.pop_back();
      }
    } else if (auto *VT = dyn_cast<FixedVectorType>(T)) {
      uint64_t sz = DL.getTypeStoreSize(VT->getElementType());
      for (unsigned i = 0; i < VT->getNumElements(); i++) {
        Idx.push_back(i);
        Out.push_back({VT->getElementType(), Idx, Off + i * sz});
        Idx.pop_back();
      }
    } else {
      Out.push_back({T, Idx, Off});
    }
  }
  SmallVector<Leaf, 4> leaves(Type *T) {
    SmallVector<Leaf, 4> O; SmallVector<unsigned, 3> I;
    if (!T->isVoidTy()) leaves(T, I, 0, O);
    return O;
  }
  static bool leafOK(Type *T) {
    if (T->isPointerTy() || T->isDoubleTy()) return true;
    if (auto *IT = dyn_cast<IntegerType>(T)) return IT->getBitWidth() <= 64;
    return false;
  }
  unsigned width(Type *T) {
    if (T->isPointerTy()) return 64;
    if (T->isDoubleTy()) return 64;
    return T->getIntegerBitWidth();
  }

  Shadow nullShadow(Type *T) {
    Shadow R; R.L.assign(leaves(T).size(), Null); return R;
  }
  Shadow get(Value *X) {
    auto it = S.find(X);
    if (it != S.end()) return it->second;
    return nullShadow(X->getType());
  }
  Value *get1(Value *X) { return get(X).L[0]; }
  bool isNull(Value *Sh) { return Sh == Null; }
  bool allNull(const Shadow &X) { for (auto *v : X.L) if (!isNull(v)) return false; return true; }
  void set1(Value *X, Value *Sh) { Shadow R; R.L.push_back(Sh); S[X] = R; }

  // concrete value widened to i64 (doubles: bit pattern)
  Value *bits64(IRBuilder<> &B, Value *X) {
    Type *T = X->getType();
    if (T->isPointerTy()) return B.CreatePtrToInt(X, I64);
    if (T->isDoubleTy()) return B.CreateBitCast(X, I64);
    if (T->isIntegerTy() && T->getIntegerBitWidth() < 64) return B.CreateZExt(X, I64);
    return X;
  }
  Value *fromBits(IRBuilder<> &B, Value *X, Type *T) {
    if (T->isPointerTy()) return B.CreateIntToPtr(X, T);
    if (T->isDoubleTy()) return B.CreateBitCast(X, T);
    if (T->isIntegerTy() && T->getIntegerBitWidth() < 64) return B.CreateTrunc(X, T);
    return X;
  }
  // kind: 0 = bv, 1 = double, 2 = bool
  unsigned kindOf(Type *T) { return T->isDoubleTy() ? 1 : T->isIntegerTy(1) ? 2 : 0; }
  Value *c32(unsigned x) { return ConstantInt::get(I32, x); }
  Value *c64(uint64_t x) { return ConstantInt::get(I64, x); }

  // Concretise one scalar operand: the runtime forks over its values.
  Value *conc(IRBuilder<> &B, Value *Sh, Value *X, unsigned why) {
    if (isNull(Sh) || !leafOK(X->getType())) return X;
    Value *R = B.CreateCall(fn("__sym_conc", I64, {P, I64, I32, I32}),
                            {Sh, bits64(B, X), c32(width(X->getType())), c32(why)});
    return fromBits(B, R, X->getType());
  }
  // Generic fallback: concretise all (scalar leaf) operands in place.
  void concOperands(Instruction &I) {
    IRBuilder<> B(&I);
    for (unsigned i = 0; i < I.getNumOperands(); i++) {
      Value *O = I.getOperand(i);
      auto it = S.find(O);
      if (it == S.end() || allNull(it->second)) continue;
      if (it->second.L.size() == 1 && leafOK(O->getType())) {
        I.setOperand(i, conc(B, it->second.L[0], O, 1000 + I.getOpcode()));
      } else {
        for (auto *L : it->second.L)
          if (!isNull(L)) B.CreateCall(fn("__sym_drop", V, {P, I32}), {L, c32(1000 + I.getOpcode())});
      }
    }
  }
  void concPtr(Instruction &I, unsigned Op) {
    Value *O = I.getOperand(Op); Value *Sh = get1(O);
    if (isNull(Sh)) return;
    IRBuilder<> B(&I);
    I.setOperand(Op, conc(B, Sh, O, 1));
  }

  IRBuilder<> after(Instruction &I) {
    Instruction *N = I.getNextNode();
    return IRBuilder<>(N);
  }

  // ---- memory
  Shadow emitLoad(IRBuilder<> &B, Value *Ptr, Type *T) {
    Shadow R;
    for (auto &L : leaves(T)) {
      if (!leafOK(L.T)) {
        // unsupported leaf type: report if symbolic bytes are there
        Value *Q = L.Off ? B.CreateConstInBoundsGEP1_64(I8, Ptr, L.Off) : Ptr;
        B.CreateCall(fn("__sym_load_unsup", V, {P, I64}), {Q, c64(DL.getTypeStoreSize(L.T))});
        R.L.push_back(Null); continue;
      }
      Value *Q = L.Off ? B.CreateConstInBoundsGEP1_64(I8, Ptr, L.Off) : Ptr;
      R.L.push_back(B.CreateCall(fn("__sym_load", P, {P, I64, I32, I32}),
          {Q, c64(DL.getTypeStoreSize(L.T)), c32(width(L.T)), c32(kindOf(L.T))}));
    }
    return R;
  }
  void emitStore(IRBuilder<> &B, Value *Ptr, Type *T, const Shadow &Sh) {
    auto Ls = leaves(T);
    bool any = false;
    for (auto *v : Sh.L) if (!isNull(v)) any = true;
    if (!any) {
      B.CreateCall(fn("__sym_store_conc", V, {P, I64}), {Ptr, c64(DL.getTypeStoreSize(T))});
      return;
    }
    for (unsigned i = 0; i < Ls.size(); i++) {
      Value *Q = Ls[i].Off ? B.CreateConstInBoundsGEP1_64(I8, Ptr, Ls[i].Off) : Ptr;
      B.CreateCall(fn("__sym_store", V, {P, I64, P}), {Q, c64(DL.getTypeStoreSize(Ls[i].T)), Sh.L[i]});
    }
  }

  Value *binop(IRBuilder<> &B, unsigned op, Value *sa, Value *a, Value *sb, Value *b, Type *T) {
    if (isNull(sa) && isNull(sb)) return Null;
    return B.CreateCall(fn("__sym_binop", P, {I32, P, I64, P, I64, I32}),
        {c32(op), sa, bits64(B, a), sb, bits64(B, b), c32(width(T))});
  }

  void visit(Instruction &I) {
    switch (I.getOpcode()) {
      case Instruction::PHI: return;  // handled apart
      case Instruction::Alloca: {
        auto &A = cast<AllocaInst>(I);
        if (A.isArrayAllocation()) { if (!isNull(get1(A.getArraySize()))) concOperands(I); }
        if (A.isStaticAlloca()) {
          allocas.push_back(&A);
        } else {
          IRBuilder<> B = after(I);
          Value *n = B.CreateMul(B.CreateZExtOrTrunc(A.getArraySize(), I64), c64(DL.getTypeAllocSize(A.getAllocatedType())));
          B.CreateCall(fn("__sym_clear", V, {P, I64}), {&A, n});
        }
        return;
      }
      case Instruction::Load: {
        concPtr(I, 0);
        IRBuilder<> B(&I);
        S[&I] = emitLoad(B, cast<LoadInst>(I).getPointerOperand(), I.getType());
        return;
      }
      case Instruction::Store: {
        auto &SI = cast<StoreInst>(I);
        concPtr(I, 1);
        IRBuilder<> B(&I);
        Type *T = SI.getValueOperand()->getType();
        Shadow Sh = get(SI.getValueOperand());
        emitStore(B, SI.getPointerOperand(), T, Sh);
        return;
      }
      case Instruction::AtomicRMW: {
        auto &R = cast<AtomicRMWInst>(I);
        concPtr(I, 0);
        IRBuilder<> B(&I);
        Value *v = R.getValOperand();
        if (!leafOK(v->getType())) { concOperands(I); return; }
        Value *old = emitLoad(B, R.getPointerOperand(), v->getType()).L[0];
        // concretise the old memory value if symbolic is unsupported: report
        B.CreateCall(fn("__sym_drop", V, {P, I32}), {old, c32(2000)});
        Value *sv = get1(v);
        if (!isNull(sv)) R.setOperand(1, conc(B, sv, v, 2));
        B.CreateCall(fn("__sym_store_conc", V, {P, I64}), {R.getPointerOperand(), c64(DL.getTypeStoreSize(v->getType()))});
        return;
      }
      case Instruction::AtomicCmpXchg: {
        concOperands(I);
        auto &R = cast<AtomicCmpXchgInst>(I);
        IRBuilder<> B(&I);
        Value *old = emitLoad(B, R.getPointerOperand(), R.getCompareOperand()->getType()).L[0];
        B.CreateCall(fn("__sym_drop", V, {P, I32}), {old, c32(2001)});
        return;
      }
      case Instruction::GetElementPtr: {
        auto &G = cast<GetElementPtrInst>(I);
        if (I.getType()->isVectorTy()) { concOperands(I); return; }
        Value *sb = get1(G.getPointerOperand());
        bool sym = !isNull(sb);
        for (auto &O : G.indices()) if (!isNull(get1(O))) sym = true;
        if (!sym) return;
        IRBuilder<> B = after(I);
        // expr = base + sum(idx*scale)
        unsigned bw = 64;
        MapVector<Value *, APInt> VO; APInt CO(bw, 0);
        if (!G.collectOffset(DL, bw, VO, CO)) { concOperands(I); return; }
        Value *acc = sb; Value *accv = G.getPointerOperand();
        accv = B.CreatePtrToInt(accv, I64);
        for (auto &kv : VO) {
          Value *idx = kv.first; Value *si = get1(idx);
          Value *ext = B.CreateSExtOrTrunc(idx, I64);
          if (!isNull(si)) {
            unsigned w = idx->getType()->getIntegerBitWidth();
            if (w < 64) si = B.CreateCall(fn("__sym_cast", P, {I32, P, I32, I32}), {c32(Instruction::SExt), si, c32(w), c32(64)});
          }
          Value *sc = ConstantInt::get(I64, kv.second);
          Value *ms = binop(B, Instruction::Mul, si, ext, Null, sc, I64);
          Value *mv = B.CreateMul(ext, sc);
          Value *ns = binop(B, Instruction::Add, acc, accv, ms, mv, I64);
          accv = B.CreateAdd(accv, mv); acc = ns;
        }
        if (CO != 0) {
          Value *cc = ConstantInt::get(I64, CO);
          Value *ns = binop(B, Instruction::Add, acc, accv, Null, cc, I64);
          acc = ns;
        }
        set1(&I, acc);
        return;
      }
      case Instruction::FNeg: {
        if (!I.getType()->isDoubleTy()) { vecOrConc(I); return; }
        Value *a = get1(I.getOperand(0)); if (isNull(a)) return;
        IRBuilder<> B = after(I);
        set1(&I, B.CreateCall(fn("__sym_fun1", P, {I32, P}), {c32(0), a}));
        return;
      }
      case Instruction::ICmp: case Instruction::FCmp: {
        auto &CI = cast<CmpInst>(I);
        Value *a = I.getOperand(0), *b = I.getOperand(1);
        if (!leafOK(a->getType())) { vecOrConc(I); return; }
        Value *sa = get1(a), *sb = get1(b);
        if (isNull(sa) && isNull(sb)) return;
        IRBuilder<> B = after(I);
        set1(&I, B.CreateCall(fn("__sym_cmp", P, {I32, P, I64, P, I64, I32}),
            {c32(CI.getPredicate()), sa, bits64(B, a), sb, bits64(B, b), c32(kindOf(a->getType()) == 2 ? 1 : width(a->getType()))}));
        return;
      }
      case Instruction::Select: {
        auto &SI = cast<SelectInst>(I);
        Value *c = SI.getCondition();
        if (!c->getType()->isIntegerTy(1)) { concOperands(I); return; }
        Value *sc = get1(c);
        Shadow t = get(SI.getTrueValue()), f = get(SI.getFalseValue());
        bool scal = leaves(I.getType()).size() == 1 && leafOK(I.getType());
        if (isNull(sc)) {
          if (allNull(t) && allNull(f)) return;
          IRBuilder<> B = after(I);
          Shadow R;
          for (unsigned i = 0; i < t.L.size(); i++) R.L.push_back(B.CreateSelect(c, t.L[i], f.L[i]));
          S[&I] = R; return;
        }
        if (!scal || I.getType()->isPointerTy()) {
          IRBuilder<> B(&I);
          Value *nc = branch(B, sc, c);
          SI.setCondition(nc);
          if (allNull(t) && allNull(f)) return;
          Shadow R;
          IRBuilder<> B2 = after(I);
          for (unsigned i = 0; i < t.L.size(); i++) R.L.push_back(B2.CreateSelect(nc, t.L[i], f.L[i]));
          S[&I] = R; return;
        }
        IRBuilder<> B = after(I);
        set1(&I, B.CreateCall(fn("__sym_select", P, {P, I1, P, I64, P, I64, I32, I32}),
            {sc, c, t.L[0], bits64(B, SI.getTrueValue()), f.L[0], bits64(B, SI.getFalseValue()),
             c32(width(I.getType())), c32(kindOf(I.getType()))}));
        return;
      }
      case Instruction::Br: {
        auto &BI = cast<BranchInst>(I);
        if (!BI.isConditional()) return;
        Value *sc = get1(BI.getCondition()); if (isNull(sc)) return;
        IRBuilder<> B(&I);
        BI.setCondition(branch(B, sc, BI.getCondition()));
        return;
      }
      case Instruction::Switch: {
        auto &SI = cast<SwitchInst>(I);
        Value *sc = get1(SI.getCondition()); if (isNull(sc)) return;
        IRBuilder<> B(&I);
        // fork per case: chain of equality branches
        Value *cv = SI.getCondition();
        unsigned n = SI.getNumCases();
        auto *AT = ArrayType::get(I64, n ? n : 1);
        std::vector<Constant *> cs;
        for (auto &cc : SI.cases()) cs.push_back(ConstantInt::get(I64, cc.getCaseValue()->getZExtValue()));
        if (!n) return;
        auto *G = new GlobalVariable(M, AT, true, GlobalValue::PrivateLinkage, ConstantArray::get(AT, cs), "symcases");
        uint64_t dflt = 0; std::set<uint64_t> used;
        for (auto &cc : SI.cases()) used.insert(cc.getCaseValue()->getZExtValue());
        while (used.count(dflt)) dflt++;
        Value *r = B.CreateCall(fn("__sym_switch", I64, {P, I64, I32, P, I32, I64}),
            {sc, bits64(B, cv), c32(width(cv->getType())), G, c32(n), c64(dflt)});
        SI.setCondition(fromBits(B, r, cv->getType()));
        return;
      }
      case Instruction::Ret: {
        auto &R = cast<ReturnInst>(I);
        if (!R.getReturnValue()) return;
        Shadow Sh = get(R.getReturnValue());
        if (allNull(Sh)) return;
        IRBuilder<> B(&I);
        for (unsigned i = 0; i < Sh.L.size() && i < 64; i++) B.CreateStore(Sh.L[i], retSlot(B, i));
        B.CreateStore(&F, retFnVar());
        return;
      }
      case Instruction::Call: case Instruction::Invoke:
        call(cast<CallBase>(I)); return;
      case Instruction::ExtractValue: {
        auto &E = cast<ExtractValueInst>(I);
        Shadow A = get(E.getAggregateOperand());
        if (allNull(A)) return;
        auto Ls = leaves(E.getAggregateOperand()->getType());
        Shadow R;
        for (unsigned i = 0; i < Ls.size(); i++)
          if (prefix(E.getIndices(), Ls[i].Idx)) R.L.push_back(A.L[i]);
        S[&I] = R; return;
      }
      case Instruction::InsertValue: {
        auto &E = cast<InsertValueInst>(I);
        Shadow A = get(E.getAggregateOperand()), Vv = get(E.getInsertedValueOperand());
        if (allNull(A) && allNull(Vv)) return;
        auto Ls = leaves(I.getType());
        unsigned k = 0;
        for (unsigned i = 0; i < Ls.size(); i++)
          if (prefix(E.getIndices(), Ls[i].Idx)) A.L[i] = Vv.L[k++];
        S[&I] = A; return;
      }
      case Instruction::ExtractElement: {
        Shadow A = get(I.getOperand(0));
        auto *CI = dyn_cast<ConstantInt>(I.getOperand(1));
        if (!CI || !isa<FixedVectorType>(I.getOperand(0)->getType())) { concOperands(I); return; }
        if (allNull(A)) return;
        set1(&I, A.L[CI->getZExtValue()]); return;
      }
      case Instruction::InsertElement: {
        auto *CI = dyn_cast<ConstantInt>(I.getOperand(2));
        if (!CI || !isa<FixedVectorType>(I.getType())) { concOperands(I); return; }
        Shadow A = get(I.getOperand(0)); Value *e = get1(I.getOperand(1));
        if (allNull(A) && isNull(e)) return;
        A.L[CI->getZExtValue()] = e; S[&I] = A; return;
      }
      case Instruction::ShuffleVector: {
        auto &SV = cast<ShuffleVectorInst>(I);
        Shadow A = get(I.getOperand(0)), Bq = get(I.getOperand(1));
        if (allNull(A) && allNull(Bq)) return;
        Shadow R; unsigned n = A.L.size();
        for (int m : SV.getShuffleMask()) R.L.push_back(m < 0 ? Null : (unsigned)m < n ? A.L[m] : Bq.L[m - n]);
        S[&I] = R; return;
      }
      case Instruction::Freeze: S[&I] = get(I.getOperand(0)); return;
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt:
      case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP:
      case Instruction::SIToFP: case Instruction::PtrToInt: case Instruction::IntToPtr:
      case Instruction::BitCast: {
        Value *a = I.getOperand(0);
        if (!leafOK(a->getType()) || !leafOK(I.getType())) {
          vecOrConc(I); return;
        }
        Value *sa = get1(a); if (isNull(sa)) return;
        IRBuilder<> B = after(I);
        set1(&I, B.CreateCall(fn("__sym_cast", P, {I32, P, I32, I32}),
            {c32(castOp(I)), sa, c32(width(a->getType())), c32(width(I.getType()))}));
        return;
      }
      case Instruction::Unreachable: case Instruction::Resume: case Instruction::LandingPad:
      case Instruction::Fence: return;
      default: break;
    }
    if (auto *BO = dyn_cast<BinaryOperator>(&I)) {
      Value *a = I.getOperand(0), *b = I.getOperand(1);
      if (!leafOK(I.getType())) { vecOrConc(I); return; }
      Value *sa = get1(a), *sb = get1(b);
      if (isNull(sa) && isNull(sb)) return;
      unsigned op = BO->getOpcode();
      if (op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem) {
        // guard the concrete operation against garbage operands
        IRBuilder<> B0(&I);
        Value *sh = binop(B0, op, sa, a, sb, b, I.getType());
        if (!isNull(sb)) {
          Value *nb = B0.CreateCall(fn("__sym_safediv", I64, {P, I64, I32}), {sb, bits64(B0, b), c32(width(I.getType()))});
          I.setOperand(1, fromBits(B0, nb, I.getType()));
        }
        set1(&I, sh);
        return;
      }
      IRBuilder<> B = after(I);
      set1(&I, binop(B, op, sa, a, sb, b, I.getType()));
      return;
    }
    concOperands(I);
  }

  unsigned castOp(Instruction &I) {
    unsigned op = I.getOpcode();
    if (op == Instruction::BitCast) {
      bool fs = I.getOperand(0)->getType()->isDoubleTy(), fd = I.getType()->isDoubleTy();
      if (fs && !fd) return 900;
      if (!fs && fd) return 901;
      return 902;
    }
    if (op == Instruction::PtrToInt) return I.getType()->getIntegerBitWidth() < 64 ? (unsigned)Instruction::Trunc : 902u;
    if (op == Instruction::IntToPtr) return I.getOperand(0)->getType()->getIntegerBitWidth() < 64 ? (unsigned)Instruction::ZExt : 902u;
    return op;
  }

  // Elementwise vector support for binops/cmps/casts/fneg; else concretise.
  void vecOrConc(Instruction &I) {
    Shadow A = get(I.getOperand(0));
    Shadow B2; if (I.getNumOperands() > 1) B2 = get(I.getOperand(1));
    if (allNull(A) && (I.getNumOperands() < 2 || allNull(B2))) return;
    auto *VT = dyn_cast<FixedVectorType>(I.getType());
    auto *OT = dyn_cast<FixedVectorType>(I.getOperand(0)->getType());
    if (VT && OT && VT->getNumElements() == OT->getNumElements() && leafOK(VT->getElementType()) && leafOK(OT->getElementType())) {
      IRBuilder<> B = after(I);
      Shadow R;
      for (unsigned i = 0; i < VT->getNumElements(); i++) {
        Value *a = B.CreateExtractElement(I.getOperand(0), i);
        Value *b = I.getNumOperands() > 1 ? B.CreateExtractElement(I.getOperand(1), i) : nullptr;
        Value *sh = Null;
        Value *sa = A.L[i], *sb = b ? B2.L[i] : Null;
        if (!(isNull(sa) && isNull(sb))) {
          if (I.isBinaryOp()) sh = binop(B, I.getOpcode(), sa, a, sb, b, VT->getElementType());
          else if (auto *CI = dyn_cast<CmpInst>(&I))
            sh = B.CreateCall(fn("__sym_cmp", P, {I32, P, I64, P, I64, I32}),
                {c32(CI->getPredicate()), sa, bits64(B, a), sb, bits64(B, b), c32(width(a->getType()))});
          else if (I.isCast() && I.getOpcode() != Instruction::BitCast)
            sh = B.CreateCall(fn("__sym_cast", P, {I32, P, I32, I32}), {c32(castOp2(I, a->getType(), VT->getElementType())), sa, c32(width(a->getType())), c32(width(VT->getElementType()))});
          else if (I.getOpcode() == Instruction::FNeg)
            sh = B.CreateCall(fn("__sym_fun1", P, {I32, P}), {c32(0), sa});
          else { B.CreateCall(fn("__sym_drop", V, {P, I32}), {sa, c32(1000 + I.getOpcode())}); }
        }
        R.L.push_back(sh);
      }
      S[&I] = R;
      return;
    }
    concOperands(I);
  }
  unsigned castOp2(Instruction &I, Type *, Type *) { return I.getOpcode(); }

  static bool prefix(ArrayRef<unsigned> Pf, ArrayRef<unsigned> X) {
    if (Pf.size() > X.size()) return false;
    for (unsigned i = 0; i < Pf.size(); i++) if (Pf[i] != X[i]) return false;
    return true;
  }

  Value *branch(IRBuilder<> &B, Value *sc, Value *c) {
    static unsigned site = 0; site++;
    return B.CreateCall(fn("__sym_branch", I1, {P, I1, I32}), {sc, c, c32(site)});
  }

  void intrinsic(IntrinsicInst &I) {
    auto fun1 = [&](unsigned k) {
      if (!I.getType()->isDoubleTy()) { concOperands(I); return; }
      Value *a = get1(I.getArgOperand(0)); if (isNull(a)) return;
      IRBuilder<> B = after(I);
      set1(&I, B.CreateCall(fn("__sym_fun1", P, {I32, P}), {c32(k), a}));
    };
    auto viaSel = [&](unsigned pred) {  // min/max as select(cmp(a,b),a,b)
      if (!leafOK(I.getType())) { concOperands(I); return; }
      Value *a = I.getArgOperand(0), *b = I.getArgOperand(1);
      Value *sa = get1(a), *sb = get1(b);
      if (isNull(sa) && isNull(sb)) return;
      IRBuilder<> B = after(I);
      Value *c = B.CreateCall(fn("__sym_cmp", P, {I32, P, I64, P, I64, I32}),
          {c32(pred), sa, bits64(B, a), sb, bits64(B, b), c32(width(a->getType()))});
      Value *cc = B.CreateICmp((CmpInst::Predicate)pred, a, b);
      set1(&I, B.CreateCall(fn("__sym_select", P, {P, I1, P, I64, P, I64, I32, I32}),
          {c, cc, sa, bits64(B, a), sb, bits64(B, b), c32(width(I.getType())), c32(0)}));
    };
    switch (I.getIntrinsicID()) {
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        for (unsigned i = 0; i < 3; i++) { Value *sh = get1(I.getArgOperand(i)); if (!isNull(sh)) { IRBuilder<> B(&I); I.setArgOperand(i, conc(B, sh, I.getArgOperand(i), 3)); } }
        IRBuilder<> B(&I);
        B.CreateCall(fn("__sym_memcpy", V, {P, P, I64}), {I.getArgOperand(0), I.getArgOperand(1), B.CreateZExtOrTrunc(I.getArgOperand(2), I64)});
        return;
      }
      case Intrinsic::memset: case Intrinsic::memset_inline: {
        for (unsigned i : {0u, 2u}) { Value *sh = get1(I.getArgOperand(i)); if (!isNull(sh)) { IRBuilder<> B(&I); I.setArgOperand(i, conc(B, sh, I.getArgOperand(i), 3)); } }
        IRBuilder<> B(&I);
        B.CreateCall(fn("__sym_memset", V, {P, P, I64}), {I.getArgOperand(0), get1(I.getArgOperand(1)), B.CreateZExtOrTrunc(I.getArgOperand(2), I64)});
        return;
      }
      case Intrinsic::fabs: fun1(1); return;
      case Intrinsic::floor: fun1(2); return;
      case Intrinsic::ceil: fun1(3); return;
      case Intrinsic::trunc: fun1(4); return;
      case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: fun1(5); return;
      case Intrinsic::round: fun1(6); return;
      case Intrinsic::sqrt: fun1(7); return;
      case Intrinsic::is_fpclass: {
        if (!I.getArgOperand(0)->getType()->isDoubleTy()) { concOperands(I); return; }
        Value *a = get1(I.getArgOperand(0)); if (isNull(a)) return;
        IRBuilder<> B = after(I);
        set1(&I, B.CreateCall(fn("__sym_fpclass", P, {P, I32}), {a, I.getArgOperand(1)}));
        return;
      }
      case Intrinsic::fmuladd: case Intrinsic::fma: {
        if (!I.getType()->isDoubleTy()) { concOperands(I); return; }
        Value *a = I.getArgOperand(0), *b = I.getArgOperand(1), *c = I.getArgOperand(2);
        Value *sa = get1(a), *sb = get1(b), *sc = get1(c);
        if (isNull(sa) && isNull(sb) && isNull(sc)) return;
        IRBuilder<> B = after(I);
        Value *m = binop(B, Instruction::FMul, sa, a, sb, b, D);
        Value *mv = B.CreateFMul(a, b);
        set1(&I, binop(B, Instruction::FAdd, m, mv, sc, c, D));
        return;
      }
      case Intrinsic::smax: viaSel(CmpInst::ICMP_SGT); return;
      case Intrinsic::smin: viaSel(CmpInst::ICMP_SLT); return;
      case Intrinsic::umax: viaSel(CmpInst::ICMP_UGT); return;
      case Intrinsic::umin: viaSel(CmpInst::ICMP_ULT); return;
      case Intrinsic::abs: {
        if (!leafOK(I.getType())) { concOperands(I); return; }
        Value *a = I.getArgOperand(0); Value *sa = get1(a); if (isNull(sa)) return;
        IRBuilder<> B = after(I); Value *Z = ConstantInt::get(I.getType(), 0);
        Value *c = B.CreateCall(fn("__sym_cmp", P, {I32, P, I64, P, I64, I32}), {c32(CmpInst::ICMP_SLT), sa, bits64(B, a), Null, c64(0), c32(width(I.getType()))});
        Value *n = binop(B, Instruction::Sub, Null, Z, sa, a, I.getType());
        set1(&I, B.CreateCall(fn("__sym_select", P, {P, I1, P, I64, P, I64, I32, I32}),
            {c, B.CreateICmpSLT(a, Z), n, bits64(B, B.CreateNeg(a)), sa, bits64(B, a), c32(width(I.getType())), c32(0)}));
        return;
      }
      case Intrinsic::fshl: case Intrinsic::fshr: case Intrinsic::bswap: case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz:
      {
        Value *a = I.getArgOperand(0);
        auto *Cn = I.getIntrinsicID() == Intrinsic::fshl || I.getIntrinsicID() == Intrinsic::fshr ? dyn_cast<ConstantInt>(I.getArgOperand(2)) : nullptr;
        if (Cn && leafOK(I.getType())) {
          Value *b = I.getArgOperand(1); Value *sa = get1(a), *sb = get1(b);
          if (isNull(sa) && isNull(sb)) return;
          unsigned w = width(I.getType()); unsigned k = Cn->getZExtValue() % w;
          if (I.getIntrinsicID() == Intrinsic::fshr) k = (w - k) % w;
          IRBuilder<> B = after(I);
          if (k == 0) { concOperands(I); return; }
          Value *ka = ConstantInt::get(I.getType(), k), *kb = ConstantInt::get(I.getType(), w - k);
          Value *l = binop(B, Instruction::Shl, sa, a, Null, ka, I.getType());
          Value *r = binop(B, Instruction::LShr, sb, b, Null, kb, I.getType());
          set1(&I, binop(B, Instruction::Or, l, B.CreateShl(a, ka), r, B.CreateLShr(b, kb), I.getType()));
          return;
        }
        concOperands(I); return;
      }
      case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
      case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        Value *a = I.getArgOperand(0), *b = I.getArgOperand(1);
        if (!leafOK(a->getType())) { concOperands(I); return; }
        Value *sa = get1(a), *sb = get1(b);
        if (isNull(sa) && isNull(sb)) return;
        IRBuilder<> B = after(I);
        unsigned id = I.getIntrinsicID();
        unsigned op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? Instruction::Add
                    : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? Instruction::Sub : Instruction::Mul;
        bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
        Shadow R;
        R.L.push_back(binop(B, op, sa, a, sb, b, a->getType()));
        R.L.push_back(B.CreateCall(fn("__sym_overflow", P, {I32, I32, P, I64, P, I64, I32}),
            {c32(op), c32(sg), sa, bits64(B, a), sb, bits64(B, b), c32(width(a->getType()))}));
        S[&I] = R;
        return;
      }
      case Intrinsic::expect: S[&I] = get(I.getArgOperand(0)); return;
      case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: S[&I] = get(I.getArgOperand(0)); return;
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
      case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
      case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::eh_typeid_for: case Intrinsic::trap: case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::is_constant:
        return;
      default: concOperands(I); return;
    }
  }

  void call(CallBase &I) {
    if (auto *II = dyn_cast<IntrinsicInst>(&I)) { intrinsic(*II); return; }
    if (I.isInlineAsm()) { concOperands(I); return; }
    Function *Callee = I.getCalledFunction();
    if (Callee && Callee->getName().starts_with("__sym_")) return;
    Value *T = I.getCalledOperand();
    // symbolic function pointer
    if (!Callee) { Value *sh = get1(T); if (!isNull(sh)) { IRBuilder<> B(&I); T = conc(B, sh, T, 4); I.setCalledOperand(T); } }
    if (Callee && Callee->isDeclaration() && isWrapped(Callee->getName())) {
      auto NF = M.getOrInsertFunction("__symw_" + Callee->getName().str(), Callee->getFunctionType());
      I.setCalledFunction(cast<Function>(NF.getCallee())->getFunctionType(), NF.getCallee());
      if (I.doesNotAccessMemory() || I.onlyReadsMemory()) I.removeFnAttr(Attribute::Memory);
      I.setAttributes(AttributeList());
      T = NF.getCallee();
      Callee = cast<Function>(NF.getCallee());
      wrapped = true;
    } else wrapped = Callee && Callee->getName().starts_with("sym_") && Callee->getName().ends_with("_");
    if (auto *CI = dyn_cast<CallInst>(&I)) if (CI->isMustTailCall()) CI->setTailCallKind(CallInst::TCK_None);
    IRBuilder<> B(&I);
    unsigned k = 0;
    bool anySym = false;
    SmallVector<Shadow, 8> argSh;
    for (auto &A : I.args()) { argSh.push_back(get(A.get())); if (!allNull(argSh.back())) anySym = true; }
    bool maybeExternal = !wrapped && (!Callee || Callee->isDeclaration());
    if (maybeExternal && anySym) {
      // if the target turns out to be uninstrumented: concretise scalars
      for (unsigned i = 0; i < I.arg_size(); i++) {
        Value *A = I.getArgOperand(i); Shadow Sh = get(A);
        if (allNull(Sh)) continue;
        if (Sh.L.size() == 1 && leafOK(A->getType())) {
          Value *R = B.CreateCall(fn("__sym_extarg", I64, {P, P, I64, I32, P}),
              {T, Sh.L[0], bits64(B, A), c32(width(A->getType())), nameOf(Callee)});
          I.setArgOperand(i, fromBits(B, R, A->getType()));
        } else {
          for (auto *L : Sh.L) if (!isNull(L)) B.CreateCall(fn("__sym_extdrop", V, {P, P, P}), {T, L, nameOf(Callee)});
        }
      }
    }
    if (maybeExternal) {
      // pointers handed to an uninstrumented callee: symbolic memory check
      SmallVector<Value *, 4> ps;
      for (auto &A : I.args()) if (A->getType()->isPointerTy() && !isa<Constant>(A.get()) && ps.size() < 3) ps.push_back(A.get());
      if (!ps.empty()) {
        while (ps.size() < 3) ps.push_back(Null);
        B.CreateCall(fn("__sym_extmem", V, {P, P, P, P, P}), {T, nameOf(Callee), ps[0], ps[1], ps[2]});
      }
    }
    if (anySym) {
      for (auto &Sh : argSh)
        for (auto *L : Sh.L) { if (k < 64) B.CreateStore(L, argSlot(B, k)); k++; }
    }
    if (anySym || wrapped) {
      if (wrapped && !anySym) {
        unsigned n = 0; for (auto &A : I.args()) n += leaves(A->getType()).size();
        for (unsigned j = 0; j < n && j < 64; j++) B.CreateStore(Null, argSlot(B, j));
      }
      B.CreateStore(T, calleeVar());
    } else {
      B.CreateStore(Null, calleeVar());
    }
    // byval arguments: remember the source so the callee can copy shadows
    for (unsigned i = 0; i < I.arg_size(); i++)
      if (I.isByValArgument(i))
        B.CreateCall(fn("__sym_byval", V, {I32, P, I64}), {c32(i), I.getArgOperand(i), c64(DL.getTypeAllocSize(I.getParamByValType(i)))});
    if (I.getType()->isVoidTy()) return;
    auto Ls = leaves(I.getType());
    B.CreateStore(Null, retFnVar());
    Instruction *IP;
    if (auto *Inv = dyn_cast<InvokeInst>(&I)) {
      IP = &*Inv->getNormalDest()->getFirstInsertionPt();
    } else IP = I.getNextNode();
    IRBuilder<> A(IP);
    Value *ok = A.CreateICmpEQ(A.CreateLoad(P, retFnVar()), T);
    Shadow R;
    for (unsigned i = 0; i < Ls.size(); i++) {
      if (i >= 64 || !leafOK(Ls[i].T)) { R.L.push_back(Null); continue; }
      R.L.push_back(A.CreateSelect(ok, A.CreateLoad(P, retSlot(A, i)), Null));
    }
    S[&I] = R;
  }
  bool wrapped = false;
  Value *nameOf(Function *Fn) {
    std::string N = Fn ? Fn->getName().str() : "<indirect>";
    std::string G = "symname." + N;
    if (auto *E = M.getGlobalVariable(G, true)) return E;
    auto *Init = ConstantDataArray::getString(C, N);
    auto *R = new GlobalVariable(M, Init->getType(), true, GlobalValue::PrivateLinkage, Init, G);
    return R;
  }
  std::vector<AllocaInst *> allocas;

  void run() {
    // every invoke's normal destination gets a block of its own
    SmallVector<InvokeInst *, 8> Inv;
    for (auto &BB : F) if (auto *I = dyn_cast<InvokeInst>(BB.getTerminator())) Inv.push_back(I);
    for (auto *I : Inv) {
      BasicBlock *N = I->getNormalDest();
      if (!N->getSinglePredecessor() || isa<PHINode>(N->front())) {
        if (N->getSinglePredecessor()) FoldSingleEntryPHINodes(N);
        N = I->getNormalDest();
        if (!N->getSinglePredecessor()) {
          BasicBlock *X = BasicBlock::Create(C, "inv.cont", &F, N);
          BranchInst::Create(N, X);
          I->setNormalDest(X);
          for (auto &PN : N->phis()) PN.replaceIncomingBlockWith(I->getParent(), X);
        }
      }
    }
    // entry: argument shadows
    Instruction *IP = &*F.getEntryBlock().getFirstNonPHIOrDbgOrAlloca();
    Instruction *Mark = nullptr;
    // (allocas at the head stay where they are)
    {
      IRBuilder<> B(IP);
      if (F.arg_size()) {
        Value *ok = B.CreateICmpEQ(B.CreateLoad(P, calleeVar()), &F);
        unsigned k = 0;
        for (auto &A : F.args()) {
          Shadow R;
          for (auto &L : leaves(A.getType())) {
            if (k < 64 && leafOK(L.T)) R.L.push_back(B.CreateSelect(ok, B.CreateLoad(P, argSlot(B, k)), Null));
            else R.L.push_back(Null);
            k++;
          }
          S[&A] = R;
          if (A.hasByValAttr())
            B.CreateCall(fn("__sym_byval_copy", V, {I32, P, I64}), {c32(A.getArgNo()), &A, c64(DL.getTypeAllocSize(A.getParamByValType()))});
        }
      }
      Mark = B.CreateStore(Null, calleeVar());
    }
    std::vector<Instruction *> Work; std::vector<PHINode *> Phis;
    ReversePostOrderTraversal<Function *> RPOT(&F);
    bool started = false;
    for (BasicBlock *BB : RPOT) {
      for (auto &I : *BB) {
        if (BB == &F.getEntryBlock() && !started) {
          if (&I == IP) started = true;
          else { if (auto *A = dyn_cast<AllocaInst>(&I)) if (A->isStaticAlloca()) allocas.push_back(A);
                 continue; }
        }
        if (auto *PN = dyn_cast<PHINode>(&I)) Phis.push_back(PN);
        else Work.push_back(&I);
      }
    }
    // NOTE: instructions inserted at entry before IP were not collected.
    for (auto *PN : Phis) {
      Shadow R;
      IRBuilder<> B(PN);
      for (auto &L : leaves(PN->getType())) {
        if (!leafOK(L.T)) { R.L.push_back(Null); continue; }
        R.L.push_back(B.CreatePHI(P, PN->getNumIncomingValues()));
      }
      S[PN] = R;
    }
    for (auto *I : Work) visit(*I);
    for (auto *PN : Phis) {
      Shadow &R = S[PN];
      SmallVector<Value *, 4> Lc(R.L.begin(), R.L.end());
      for (unsigned i = 0; i < PN->getNumIncomingValues(); i++) {
        Shadow In = get(PN->getIncomingValue(i));
        for (unsigned j = 0; j < Lc.size(); j++)
          if (auto *SP = dyn_cast<PHINode>(Lc[j])) SP->addIncoming(In.L[j], PN->getIncomingBlock(i));
      }
    }
    // clear the shadow of stack slots on entry
    for (auto *A : allocas) {
      if (!A->isStaticAlloca()) continue;
      uint64_t sz = DL.getTypeAllocSize(A->getAllocatedType());
      if (auto *CI = dyn_cast<ConstantInt>(A->getArraySize())) sz *= CI->getZExtValue();
      IRBuilder<> B(Mark);  // before any instrumentation of the body
      if (A->comesBefore(&*B.GetInsertPoint()))
        B.CreateCall(fn("__sym_clear", V, {P, I64}), {A, c64(sz)});
    }
    F.setSection("symtext");
    F.removeFnAttr(Attribute::Memory);
    F.removeFnAttr(Attribute::NoFree);
    F.removeFnAttr(Attribute::NoSync);
    F.removeFnAttr(Attribute::WillReturn);
  }
};

struct SymPass : PassInfoMixin<SymPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    std::vector<Function *> Fs;
    for (auto &F : M) {
      if (F.isDeclaration() || F.hasAvailableExternallyLinkage()) continue;
      if (F.getName().starts_with("__sym")) continue;
      if (F.getName().starts_with("__clang_call_terminate")) continue;
      Fs.push_back(&F);
    }
    // available_externally bodies would hide that a callee is external
    for (auto &F : M) if (F.hasAvailableExternallyLinkage()) F.deleteBody();
    for (auto *F : Fs) {
      bool lib = false; (void)lib;
      FnInst(*F).run();
      if (verifyFunction(*F, &errs())) { errs() << "SymPass: broken " << F->getName() << "\n"; abort(); }
    }
    // calls to instrumented functions must not be optimised on stale attributes
    for (auto &F : M) for (auto &BB : F) for (auto &I : BB)
      if (auto *CB = dyn_cast<CallBase>(&I)) {
        if (isa<IntrinsicInst>(CB)) continue;
        CB->removeFnAttr(Attribute::Memory);
        CB->removeFnAttr(Attribute::NoFree); CB->removeFnAttr(Attribute::NoSync);
      }
    for (auto &F : M) if (F.isDeclaration() && !F.isIntrinsic() && !F.getName().starts_with("__sym")) F.removeFnAttr(Attribute::Memory);
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};

}  // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "SymPass", "1", [](PassBuilder &PB) {
            PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(SymPass()); });
          }};
}
