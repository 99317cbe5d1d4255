// symx: LLVM pass that turns the code of the program under test into code that
// computes, next to every scalar value, a symbolic expression over the inputs.
//
// Every SSA value gets a 32-bit "shadow" (0 = concrete, else expression id of
// the runtime in runtime.cpp). The pass runs after the optimiser, so what is
// encoded is exactly the IR the compiler produced from /repo's sources.
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/ADT/MapVector.h"
#include "llvm/ADT/STLExtras.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include <map>
#include <string>

using namespace llvm;

namespace {

using Shadow = SmallVector<Value *, 2>;

// Library functions replaced by instrumented equivalents (engine/shims.cpp).
const std::map<std::string, std::string> Renames = {
    {"memchr", "symx_shim_memchr"},   {"strlen", "symx_shim_strlen"},
    {"memcmp", "symx_shim_memcmp"},   {"bcmp", "symx_shim_memcmp"},
    {"strcmp", "symx_shim_strcmp"},   {"strncmp", "symx_shim_strncmp"},
    {"isalpha", "symx_shim_isalpha"}, {"isdigit", "symx_shim_isdigit"},
    {"isalnum", "symx_shim_isalnum"}, {"isspace", "symx_shim_isspace"},
    {"isxdigit", "symx_shim_isxdigit"}, {"isupper", "symx_shim_isupper"},
    {"islower", "symx_shim_islower"}, {"isprint", "symx_shim_isprint"},
    {"ispunct", "symx_shim_ispunct"}, {"iscntrl", "symx_shim_iscntrl"},
    {"tolower", "symx_shim_tolower"}, {"toupper", "symx_shim_toupper"},
    {"malloc", "symx_malloc"},        {"calloc", "symx_calloc"},
    {"realloc", "symx_realloc"},      {"free", "symx_free"},
    {"_ZSt11_Hash_bytesPKvmm", "symx_shim_hash_bytes"},
    {"strtof", "symx_shim_strtof"},   {"strtod", "symx_shim_strtod"},
    {"strtol", "symx_shim_strtol"},   {"strtoll", "symx_shim_strtol"},
    {"strtoul", "symx_shim_strtoul"}, {"strtoull", "symx_shim_strtoul"},
    {"__isoc23_strtol", "symx_shim_strtol"},
    {"__isoc23_strtoll", "symx_shim_strtol"},
    {"__isoc23_strtoul", "symx_shim_strtoul"},
    {"__isoc23_strtoull", "symx_shim_strtoul"},
    {"_ZN9__gnu_cxx12__to_xstringINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEcEET_PFiPT0_mPKS8_P13__va_list_tagEmSB_z",
     "symx_shim_to_xstring"},
    {"_ZSt10from_charsPKcS0_RdSt12chars_format", "symx_shim_from_chars_d"},
    {"_ZSt10from_charsPKcS0_RfSt12chars_format", "symx_shim_from_chars_f"},
    {"_Znwm", "symx_new"},            {"_Znam", "symx_new"},
    {"_ZnwmSt11align_val_t", "symx_new_al"},
    {"_ZnamSt11align_val_t", "symx_new_al"},
    {"_ZnwmRKSt9nothrow_t", "symx_new_nt"},
    {"_ZnamRKSt9nothrow_t", "symx_new_nt"},
};

struct Symx {
  Module &M;
  LLVMContext &C;
  const DataLayout &DL;
  IntegerType *I1, *I8, *I32, *I64;
  PointerType *Ptr;
  Type *VoidTy;
  Constant *Z;
  GlobalVariable *Args, *Callee, *Ret, *RetFn, *ByVal;
  std::vector<Function *> Done;
  static constexpr unsigned MaxArgs = 64;

  Symx(Module &M)
      : M(M), C(M.getContext()), DL(M.getDataLayout()), I1(Type::getInt1Ty(C)),
        I8(Type::getInt8Ty(C)), I32(Type::getInt32Ty(C)),
        I64(Type::getInt64Ty(C)), Ptr(PointerType::getUnqual(C)),
        VoidTy(Type::getVoidTy(C)), Z(ConstantInt::get(I32, 0)) {}

  FunctionCallee fn(StringRef Name, Type *R, ArrayRef<Type *> A) {
    auto FC = M.getOrInsertFunction(Name, FunctionType::get(R, A, false));
    if (auto *F = dyn_cast<Function>(FC.getCallee()))
      F->addFnAttr(Attribute::NoUnwind);
    return FC;
  }
  GlobalVariable *gv(StringRef Name, Type *T) {
    if (auto *G = M.getGlobalVariable(Name))
      return G;
    return new GlobalVariable(M, T, false, GlobalValue::ExternalLinkage,
                              nullptr, Name);
  }

  // ---- types -------------------------------------------------------------
  unsigned leaves(Type *T) {
    if (auto *S = dyn_cast<StructType>(T)) {
      unsigned N = 0;
      for (auto *E : S->elements())
        N += leaves(E);
      return N;
    }
    if (auto *A = dyn_cast<ArrayType>(T))
      return A->getNumElements() * leaves(A->getElementType());
    if (T->isVoidTy() || T->isTokenTy() || T->isMetadataTy() || T->isLabelTy())
      return 0;
    return 1;
  }
  unsigned leafOffset(Type *T, ArrayRef<unsigned> Idx) {
    unsigned Off = 0;
    for (unsigned I : Idx) {
      if (auto *S = dyn_cast<StructType>(T)) {
        for (unsigned K = 0; K < I; K++)
          Off += leaves(S->getElementType(K));
        T = S->getElementType(I);
      } else {
        auto *A = cast<ArrayType>(T);
        T = A->getElementType();
        Off += I * leaves(T);
      }
    }
    return Off;
  }
  void leafTypes(Type *T, uint64_t Base,
                 SmallVectorImpl<std::pair<Type *, uint64_t>> &Out) {
    if (auto *S = dyn_cast<StructType>(T)) {
      auto *L = DL.getStructLayout(S);
      for (unsigned I = 0; I < S->getNumElements(); I++)
        leafTypes(S->getElementType(I), Base + L->getElementOffset(I), Out);
    } else if (auto *A = dyn_cast<ArrayType>(T)) {
      uint64_t Sz = DL.getTypeAllocSize(A->getElementType());
      for (unsigned I = 0; I < A->getNumElements(); I++)
        leafTypes(A->getElementType(), Base + I * Sz, Out);
    } else
      Out.push_back({T, Base});
  }
  // Scalars the runtime can express symbolically.
  bool ok(Type *T) {
    if (T->isPointerTy())
      return true;
    if (auto *I = dyn_cast<IntegerType>(T))
      return I->getBitWidth() <= 64;
    return false;
  }
  unsigned width(Type *T) {
    if (T->isPointerTy())
      return 64;
    return cast<IntegerType>(T)->getBitWidth();
  }
  Value *c32(uint64_t V) { return ConstantInt::get(I32, V); }
  Value *c64(uint64_t V) { return ConstantInt::get(I64, V); }
  // concrete value as i64
  Value *raw(IRBuilder<> &B, Value *V) {
    Type *T = V->getType();
    if (T->isPointerTy())
      return B.CreatePtrToInt(V, I64);
    return B.CreateZExt(V, I64);
  }

  // ---- per function ------------------------------------------------------
  DenseMap<Value *, Shadow> Map;
  Shadow zeros(Type *T) { return Shadow(leaves(T), Z); }
  Shadow get(Value *V) {
    if (isa<Constant>(V) || isa<MetadataAsValue>(V) || isa<InlineAsm>(V) ||
        isa<BasicBlock>(V))
      return zeros(V->getType());
    auto It = Map.find(V);
    if (It == Map.end())
      return zeros(V->getType());
    return It->second;
  }
  Value *get1(Value *V) {
    auto S = get(V);
    return S.empty() ? Z : S[0];
  }
  bool isZ(Value *S) { return S == Z; }
  void set1(Value *V, Value *S) { Map[V] = Shadow{S}; }

  Value *bin(IRBuilder<> &B, unsigned Op, unsigned W, Value *A, Value *SA,
             Value *Bv, Value *SB) {
    if (isZ(SA) && isZ(SB))
      return Z;
    return B.CreateCall(fn("symx_bin", I32, {I32, I32, I64, I32, I64, I32}),
                        {c32(Op), c32(W), A, SA, Bv, SB});
  }
  Value *cmp(IRBuilder<> &B, unsigned P, unsigned W, Value *A, Value *SA,
             Value *Bv, Value *SB) {
    if (isZ(SA) && isZ(SB))
      return Z;
    return B.CreateCall(fn("symx_cmp", I32, {I32, I32, I64, I32, I64, I32}),
                        {c32(P), c32(W), A, SA, Bv, SB});
  }
  Value *cast_(IRBuilder<> &B, unsigned Kind, unsigned To, Value *S) {
    if (isZ(S))
      return Z;
    // kind: 0 zext 1 sext 2 trunc
    return B.CreateCall(fn("symx_cast", I32, {I32, I32, I32}),
                        {c32(Kind), c32(To), S});
  }
  Value *ite(IRBuilder<> &B, unsigned W, Value *SC, Value *Cv, Value *A,
             Value *SA, Value *Bv, Value *SB) {
    if (isZ(SC) && isZ(SA) && isZ(SB))
      return Z;
    return B.CreateCall(
        fn("symx_ite", I32, {I32, I32, I32, I64, I32, I64, I32}),
        {c32(W), SC, Cv, A, SA, Bv, SB});
  }
  void conc(IRBuilder<> &B, Value *S) {
    if (isZ(S))
      return;
    B.CreateCall(fn("symx_concretize", VoidTy, {I32}), {S});
  }
  void concAll(IRBuilder<> &B, Value *V) {
    for (auto *S : get(V))
      conc(B, S);
  }

  static unsigned opcode(unsigned O) {
    switch (O) {
    case Instruction::Add: return 0;
    case Instruction::Sub: return 1;
    case Instruction::Mul: return 2;
    case Instruction::UDiv: return 3;
    case Instruction::SDiv: return 4;
    case Instruction::URem: return 5;
    case Instruction::SRem: return 6;
    case Instruction::And: return 7;
    case Instruction::Or: return 8;
    case Instruction::Xor: return 9;
    case Instruction::Shl: return 10;
    case Instruction::LShr: return 11;
    case Instruction::AShr: return 12;
    }
    return 99;
  }
  static unsigned predcode(CmpInst::Predicate P) {
    switch (P) {
    case CmpInst::ICMP_EQ: return 0;
    case CmpInst::ICMP_NE: return 1;
    case CmpInst::ICMP_ULT: return 2;
    case CmpInst::ICMP_ULE: return 3;
    case CmpInst::ICMP_UGT: return 4;
    case CmpInst::ICMP_UGE: return 5;
    case CmpInst::ICMP_SLT: return 6;
    case CmpInst::ICMP_SLE: return 7;
    case CmpInst::ICMP_SGT: return 8;
    case CmpInst::ICMP_SGE: return 9;
    default: return 99;
    }
  }

  Value *fieldPtr(IRBuilder<> &B, Value *P, uint64_t Off) {
    Value *A = B.CreatePtrToInt(P, I64);
    if (Off)
      A = B.CreateAdd(A, c64(Off));
    return A;
  }

  void doLoad(LoadInst *L, IRBuilder<> &Bpre, IRBuilder<> &Bpost) {
    Value *SA = get1(L->getPointerOperand());
    SmallVector<std::pair<Type *, uint64_t>, 4> Ls;
    leafTypes(L->getType(), 0, Ls);
    if (!isZ(SA) && Ls.size() == 1 && ok(Ls[0].first) &&
        width(Ls[0].first) == DL.getTypeStoreSize(Ls[0].first) * 8) {
      auto *G = dyn_cast<GlobalVariable>(
          getUnderlyingObject(L->getPointerOperand(), 12));
      if (G && G->isConstant() && G->hasDefinitiveInitializer()) {
        Value *A = fieldPtr(Bpre, L->getPointerOperand(), 0);
        Map[L] = {Bpre.CreateCall(
            fn("symx_load_tab", I32, {I64, I32, I32, I64, I64}),
            {A, c32(DL.getTypeStoreSize(Ls[0].first)), SA,
             Bpre.CreatePtrToInt(G, I64),
             c64(DL.getTypeAllocSize(G->getValueType()))})};
        return;
      }
    }
    conc(Bpre, SA);
    // The check and the shadow read happen before the load itself.
    Shadow Out;
    for (auto &[T, Off] : Ls) {
      uint64_t Sz = DL.getTypeStoreSize(T);
      Value *A = fieldPtr(Bpre, L->getPointerOperand(), Off);
      if (ok(T)) {
        Value *S = Bpre.CreateCall(fn("symx_load", I32, {I64, I32}),
                                   {A, c32(Sz)});
        if (width(T) < Sz * 8)
          S = Bpre.CreateCall(fn("symx_cast", I32, {I32, I32, I32}),
                              {c32(2), c32(width(T)), S});
        Out.push_back(S);
      } else {
        Bpre.CreateCall(fn("symx_load_conc", VoidTy, {I64, I32}), {A, c32(Sz)});
        Out.push_back(Z);
      }
    }
    Map[L] = Out;
  }

  void doStore(StoreInst *S, IRBuilder<> &B) {
    conc(B, get1(S->getPointerOperand()));
    Value *V = S->getValueOperand();
    SmallVector<std::pair<Type *, uint64_t>, 4> Ls;
    leafTypes(V->getType(), 0, Ls);
    Shadow Sh = get(V);
    for (unsigned I = 0; I < Ls.size(); I++) {
      auto [T, Off] = Ls[I];
      uint64_t Sz = DL.getTypeStoreSize(T);
      Value *A = fieldPtr(B, S->getPointerOperand(), Off);
      Value *Sv = Sh[I];
      if (!isZ(Sv) && ok(T) && width(T) < Sz * 8)
        Sv = cast_(B, 0, Sz * 8, Sv);
      if (!isZ(Sv) && !ok(T)) {
        conc(B, Sv);
        Sv = Z;
      }
      B.CreateCall(fn("symx_store", VoidTy, {I64, I32, I32}), {A, c32(Sz), Sv});
    }
  }

  void doGEP(GetElementPtrInst *G, IRBuilder<> &B) {
    Value *SB = get1(G->getPointerOperand());
    bool Any = !isZ(SB);
    for (auto &I : G->indices())
      if (!isZ(get1(I)))
        Any = true;
    if (!Any) {
      set1(G, Z);
      return;
    }
    unsigned W = 64;
    MapVector<Value *, APInt> Var;
    APInt Cst(W, 0);
    cast<GEPOperator>(G)->collectOffset(DL, W, Var, Cst);
    Value *Acc = raw(B, G->getPointerOperand());
    Value *SAcc = SB;
    for (auto &[V, Scale] : Var) {
      Value *S = get1(V);
      Value *CV = V->getType()->getIntegerBitWidth() < 64
                      ? B.CreateSExt(V, I64)
                      : B.CreateTrunc(V, I64);
      if (V->getType()->getIntegerBitWidth() < 64)
        S = cast_(B, 1, 64, S);
      Value *ScaleC = c64(Scale.getSExtValue());
      Value *MulC = B.CreateMul(CV, ScaleC);
      Value *MulS = bin(B, 2, 64, CV, S, ScaleC, Z);
      SAcc = bin(B, 0, 64, Acc, SAcc, MulC, MulS);
      Acc = B.CreateAdd(Acc, MulC);
    }
    if (Cst != 0)
      SAcc = bin(B, 0, 64, Acc, SAcc, c64(Cst.getSExtValue()), Z);
    set1(G, SAcc);
  }

  bool doIntrinsic(IntrinsicInst *I, IRBuilder<> &B, IRBuilder<> &Post) {
    auto Op = [&](unsigned K) { return I->getArgOperand(K); };
    auto anyArg = [&] {
      for (auto &A : I->args())
        for (auto *S : get(A))
          if (!isZ(S))
            return true;
      return false;
    };
    switch (I->getIntrinsicID()) {
    case Intrinsic::memcpy:
    case Intrinsic::memcpy_inline:
    case Intrinsic::memmove: {
      for (unsigned K = 0; K < 3; K++)
        conc(B, get1(Op(K)));
      B.CreateCall(fn("symx_memcpy", VoidTy, {I64, I64, I64}),
                   {raw(B, Op(0)), raw(B, Op(1)), raw(B, Op(2))});
      return true;
    }
    case Intrinsic::memset:
    case Intrinsic::memset_inline: {
      conc(B, get1(Op(0)));
      conc(B, get1(Op(2)));
      B.CreateCall(fn("symx_memset", VoidTy, {I64, I32, I64}),
                   {raw(B, Op(0)), get1(Op(1)), raw(B, Op(2))});
      return true;
    }
    case Intrinsic::lifetime_start: {
      auto *Sz = dyn_cast<ConstantInt>(Op(0));
      if (Sz && Sz->getSExtValue() > 0)
        B.CreateCall(fn("symx_alloca", VoidTy, {I64, I64}),
                     {raw(B, Op(1)), raw(B, Op(0))});
      return true;
    }
    case Intrinsic::expect:
    case Intrinsic::expect_with_probability:
    case Intrinsic::launder_invariant_group:
    case Intrinsic::strip_invariant_group:
    case Intrinsic::annotation:
    case Intrinsic::ptr_annotation:
    case Intrinsic::ssa_copy:
      set1(I, get1(Op(0)));
      return true;
    case Intrinsic::umin:
    case Intrinsic::umax:
    case Intrinsic::smin:
    case Intrinsic::smax: {
      if (!ok(I->getType()) || !anyArg()) {
        Map[I] = zeros(I->getType());
        if (!ok(I->getType())) { concAll(B, Op(0)); concAll(B, Op(1)); }
        return true;
      }
      unsigned W = width(I->getType());
      CmpInst::Predicate P =
          I->getIntrinsicID() == Intrinsic::umin   ? CmpInst::ICMP_ULT
          : I->getIntrinsicID() == Intrinsic::umax ? CmpInst::ICMP_UGT
          : I->getIntrinsicID() == Intrinsic::smin ? CmpInst::ICMP_SLT
                                                   : CmpInst::ICMP_SGT;
      Value *A = raw(B, Op(0)), *Bv = raw(B, Op(1));
      Value *SA = get1(Op(0)), *SB = get1(Op(1));
      Value *CC = B.CreateICmp(P, Op(0), Op(1));
      Value *SC = cmp(B, predcode(P), W, A, SA, Bv, SB);
      set1(I, ite(B, W, SC, B.CreateZExt(CC, I32), A, SA, Bv, SB));
      return true;
    }
    case Intrinsic::uadd_with_overflow:
    case Intrinsic::usub_with_overflow:
    case Intrinsic::umul_with_overflow:
    case Intrinsic::sadd_with_overflow:
    case Intrinsic::ssub_with_overflow:
    case Intrinsic::smul_with_overflow: {
      Type *T = Op(0)->getType();
      if (!anyArg() || !ok(T)) {
        concAll(B, Op(0));
        concAll(B, Op(1));
        Map[I] = zeros(I->getType());
        return true;
      }
      unsigned W = width(T);
      unsigned Bop, Kind;
      switch (I->getIntrinsicID()) {
      case Intrinsic::uadd_with_overflow: Bop = 0; Kind = 0; break;
      case Intrinsic::usub_with_overflow: Bop = 1; Kind = 1; break;
      case Intrinsic::umul_with_overflow: Bop = 2; Kind = 2; break;
      case Intrinsic::sadd_with_overflow: Bop = 0; Kind = 3; break;
      case Intrinsic::ssub_with_overflow: Bop = 1; Kind = 4; break;
      default: Bop = 2; Kind = 5; break;
      }
      Value *A = raw(B, Op(0)), *Bv = raw(B, Op(1));
      Value *SA = get1(Op(0)), *SB = get1(Op(1));
      Value *R = bin(B, Bop, W, A, SA, Bv, SB);
      Value *O = B.CreateCall(
          fn("symx_ovf", I32, {I32, I32, I64, I32, I64, I32}),
          {c32(Kind), c32(W), A, SA, Bv, SB});
      Map[I] = Shadow{R, O};
      return true;
    }
    case Intrinsic::bswap:
    case Intrinsic::abs:
    case Intrinsic::ctpop:
    case Intrinsic::ctlz:
    case Intrinsic::cttz:
    case Intrinsic::fshl:
    case Intrinsic::fshr:
    case Intrinsic::usub_sat:
    case Intrinsic::uadd_sat: {
      if (!anyArg()) {
        Map[I] = zeros(I->getType());
        return true;
      }
      unsigned W = ok(I->getType()) ? width(I->getType()) : 0;
      if (W && I->getIntrinsicID() == Intrinsic::abs) {
        Value *A = raw(B, Op(0)), *SA = get1(Op(0));
        Value *Neg = bin(B, 1, W, c64(0), Z, A, SA);
        Value *NegC = raw(B, B.CreateNeg(Op(0)));
        Value *CC = B.CreateICmpSLT(Op(0), ConstantInt::get(Op(0)->getType(), 0));
        Value *SC = cmp(B, 6, W, A, SA, c64(0), Z);
        set1(I, ite(B, W, SC, B.CreateZExt(CC, I32), NegC, Neg, A, SA));
        return true;
      }
      if (W && I->getIntrinsicID() == Intrinsic::usub_sat) {
        Value *A = raw(B, Op(0)), *SA = get1(Op(0));
        Value *Bv = raw(B, Op(1)), *SB = get1(Op(1));
        Value *D = bin(B, 1, W, A, SA, Bv, SB);
        Value *DC = raw(B, B.CreateSub(Op(0), Op(1)));
        Value *CC = B.CreateICmpUGT(Op(0), Op(1));
        Value *SC = cmp(B, 4, W, A, SA, Bv, SB);
        set1(I, ite(B, W, SC, B.CreateZExt(CC, I32), DC, D, c64(0), Z));
        return true;
      }
      if (W && (I->getIntrinsicID() == Intrinsic::fshl ||
                I->getIntrinsicID() == Intrinsic::fshr)) {
        auto *Sh = dyn_cast<ConstantInt>(Op(2));
        if (Sh) {
          unsigned K = Sh->getZExtValue() % W;
          if (I->getIntrinsicID() == Intrinsic::fshr)
            K = (W - K) % W;
          if (K == 0) {
            set1(I, get1(Op(I->getIntrinsicID() == Intrinsic::fshl ? 0 : 1)));
            return true;
          }
          Value *A = raw(B, Op(0)), *SA = get1(Op(0));
          Value *Bv = raw(B, Op(1)), *SB = get1(Op(1));
          Value *HiC = raw(B, B.CreateShl(Op(0), K));
          Value *LoC = raw(B, B.CreateLShr(Op(1), W - K));
          Value *Hi = bin(B, 10, W, A, SA, c64(K), Z);
          Value *Lo = bin(B, 11, W, Bv, SB, c64(W - K), Z);
          set1(I, bin(B, 8, W, HiC, Hi, LoC, Lo));
          return true;
        }
      }
      for (auto &A : I->args())
        concAll(B, A);
      Map[I] = zeros(I->getType());
      return true;
    }
    default:
      break;
    }
    // Anything else: operands become concrete, result is concrete.
    for (auto &A : I->args())
      if (!A->getType()->isMetadataTy())
        concAll(B, A);
    if (I->getIntrinsicID() == Intrinsic::vastart)
      return true;
    Map[I] = zeros(I->getType());
    return true;
  }

  Value *nameStr(StringRef S) {
    auto *G = M.getGlobalVariable(("symx.n." + S).str(), true);
    if (!G) {
      auto *K = ConstantDataArray::getString(C, S);
      G = new GlobalVariable(M, K->getType(), true, GlobalValue::PrivateLinkage,
                             K, "symx.n." + S);
    }
    return G;
  }

  void doCall(CallBase *CB, IRBuilder<> &B, IRBuilder<> *Post) {
    if (CB->isInlineAsm()) {
      for (auto &A : CB->args())
        concAll(B, A);
      Map[CB] = zeros(CB->getType());
      return;
    }
    Function *F = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
    if (F && F->getName().starts_with("symx_") &&
        !F->getName().starts_with("symx_shim_")) {
      // runtime API called by harness code: pass shadows, no checks
      if (!F->getName().starts_with("symx_api_")) {
        for (auto &A : CB->args())
          concAll(B, A);
        Map[CB] = zeros(CB->getType());
        return;
      }
    }
    Value *CV = CB->getCalledOperand();
    if (!F)
      conc(B, get1(CV));
    unsigned NFixed = CB->getFunctionType()->getNumParams();
    // Push argument shadows.
    unsigned Slot = 0;
    bool Any = false;
    SmallVector<std::pair<unsigned, Value *>, 8> Push;
    for (unsigned I = 0; I < CB->arg_size(); I++) {
      Value *A = CB->getArgOperand(I);
      Shadow S = get(A);
      if (I >= NFixed) {
        for (auto *X : S)
          conc(B, X);
        continue;
      }
      for (auto *X : S) {
        if (!isZ(X)) {
          Any = true;
          if (Slot >= MaxArgs)
            conc(B, X);
        }
        if (Slot < MaxArgs)
          Push.push_back({Slot, X});
        Slot++;
      }
      if (CB->isByValArgument(I)) {
        Any = true;
        if (I < MaxArgs)
          B.CreateStore(raw(B, A), B.CreateConstGEP2_32(ByVal->getValueType(),
                                                         ByVal, 0, I));
      }
    }
    if (Any) {
      for (auto &[K, S] : Push)
        B.CreateStore(S, B.CreateConstGEP2_32(Args->getValueType(), Args, 0, K));
    }
    bool Known = F && !F->isDeclaration() && !F->isInterposable();
    if (F && F->getName().starts_with("symx_"))
      Known = true;
    if (!Known) {
      Value *N = F ? nameStr(F->getName()) : ConstantPointerNull::get(Ptr);
      B.CreateCall(fn("symx_precall", VoidTy, {Ptr, Ptr, I32}),
                   {CV, N, c32(Any ? Push.size() : 0)});
    }
    if (Any)
      B.CreateStore(CV, Callee);
    else
      B.CreateStore(ConstantPointerNull::get(Ptr), Callee);

    unsigned NR = leaves(CB->getType());
    Map[CB] = zeros(CB->getType());
    if (NR && NR <= 16 && Post) {
      // Read the returned shadows if the callee was an instrumented function.
      Value *RF = Post->CreateLoad(Ptr, RetFn);
      Value *Same = Post->CreateICmpEQ(RF, CV);
      Shadow R;
      for (unsigned K = 0; K < NR; K++) {
        Value *S = Post->CreateLoad(
            I32, Post->CreateConstGEP2_32(Ret->getValueType(), Ret, 0, K));
        R.push_back(Post->CreateSelect(Same, S, Z));
      }
      Map[CB] = R;
      B.CreateStore(ConstantPointerNull::get(Ptr), RetFn);
    }
  }

  void runOn(Function &F) {
    Map.clear();
    EliminateUnreachableBlocks(F);
    // Redirect library calls with instrumented replacements.
    for (auto &I : instructions(F))
      if (auto *CB = dyn_cast<CallBase>(&I))
        if (auto *CF = CB->getCalledFunction()) {
          auto It = Renames.find(CF->getName().str());
          if (It != Renames.end() && CF->isDeclaration()) {
            FunctionType *FT = CF->getFunctionType();
            if (FT->isVarArg()) {
              SmallVector<Type *, 8> Ts;
              for (auto &A : CB->args())
                Ts.push_back(A->getType());
              FT = FunctionType::get(FT->getReturnType(), Ts, false);
              CB->mutateFunctionType(FT);
            }
            auto NF = M.getOrInsertFunction(It->second, FT);
            CB->setCalledFunction(NF);
          }
        }
    // Invokes whose value is used need a block of their own for the reads.
    SmallVector<InvokeInst *, 8> Invokes;
    for (auto &BB : F)
      if (auto *II = dyn_cast<InvokeInst>(BB.getTerminator()))
        Invokes.push_back(II);
    for (auto *II : Invokes)
      if (leaves(II->getType()) && !II->getNormalDest()->getSinglePredecessor())
        SplitEdge(II->getParent(), II->getNormalDest());

    DominatorTree DT(F);
    SmallPtrSet<BasicBlock *, 16> Headers;
    for (auto &BB : F)
      for (auto *S : successors(&BB))
        if (DT.dominates(S, &BB))
          Headers.insert(S);

    // Snapshot.
    std::vector<BasicBlock *> Order;
    ReversePostOrderTraversal<Function *> RPOT(&F);
    for (auto *BB : RPOT)
      Order.push_back(BB);
    std::vector<std::vector<Instruction *>> Insts;
    for (auto *BB : Order) {
      Insts.emplace_back();
      for (auto &I : *BB)
        Insts.back().push_back(&I);
    }
    // Shadow phis.
    std::vector<PHINode *> Phis;
    for (auto &BB : F)
      for (auto &P : BB.phis()) {
        Phis.push_back(&P);
      }
    for (auto *P : Phis) {
      unsigned N = leaves(P->getType());
      Shadow S;
      for (unsigned K = 0; K < N; K++)
        S.push_back(PHINode::Create(I32, P->getNumIncomingValues(), "", P));
      Map[P] = S;
    }

    // Entry.
    BasicBlock &Entry = F.getEntryBlock();
    {
      SmallVector<AllocaInst *, 16> As;
      for (auto &I : Entry)
        if (auto *AI = dyn_cast<AllocaInst>(&I))
          if (AI->isStaticAlloca())
            As.push_back(AI);
      Instruction *First = &*Entry.getFirstInsertionPt();
      for (auto *AI : As)
        if (AI != First)
          AI->moveBefore(First);
    }
    Instruction *IP = &*Entry.getFirstInsertionPt();
    // keep allocas first
    {
      auto It = Entry.getFirstInsertionPt();
      while (isa<AllocaInst>(&*It))
        ++It;
      IP = &*It;
    }
    {
      IRBuilder<> B(IP);
      unsigned NA = 0;
      for (auto &A : F.args())
        NA += leaves(A.getType());
      if (NA) {
        Value *CF = B.CreateLoad(Ptr, Callee);
        Value *Same = B.CreateICmpEQ(CF, &F);
        unsigned Slot = 0;
        unsigned Idx = 0;
        for (auto &A : F.args()) {
          Shadow S;
          unsigned N = leaves(A.getType());
          for (unsigned K = 0; K < N; K++, Slot++) {
            if (Slot >= MaxArgs) {
              S.push_back(Z);
              continue;
            }
            Value *L = B.CreateLoad(
                I32, B.CreateConstGEP2_32(Args->getValueType(), Args, 0, Slot));
            S.push_back(B.CreateSelect(Same, L, Z));
          }
          Map[&A] = S;
          if (A.hasByValAttr()) {
            uint64_t Sz = DL.getTypeAllocSize(A.getParamByValType());
            Value *Src = B.CreateLoad(
                I64, B.CreateConstGEP2_32(ByVal->getValueType(), ByVal, 0, Idx));
            Src = B.CreateSelect(Same, Src, c64(0));
            B.CreateCall(fn("symx_byval", VoidTy, {I64, I64, I64}),
                         {raw(B, &A), Src, c64(Sz)});
          }
          Idx++;
        }
      }
      B.CreateStore(ConstantPointerNull::get(Ptr), Callee);
      for (auto &I : Entry)
        if (auto *AI = dyn_cast<AllocaInst>(&I))
          if (AI->isStaticAlloca()) {
            uint64_t Sz = DL.getTypeAllocSize(AI->getAllocatedType());
            if (auto *N = dyn_cast<ConstantInt>(AI->getArraySize()))
              Sz *= N->getZExtValue();
            B.CreateCall(fn("symx_alloca", VoidTy, {I64, I64}),
                         {raw(B, AI), c64(Sz)});
          }
      unsigned Id = Done.size();
      Done.push_back(&F);
      auto *Ent = gvEntered();
      B.CreateStore(ConstantInt::get(I8, 1),
                    B.CreateGEP(I8, Ent, {c64(Id)}));
      B.CreateCall(fn("symx_tick", VoidTy, {}), {});
    }

    for (unsigned BI = 0; BI < Order.size(); BI++) {
      if (Headers.count(Order[BI])) {
        IRBuilder<> B(&*Order[BI]->getFirstInsertionPt());
        B.CreateCall(fn("symx_tick", VoidTy, {}), {});
      }
      for (Instruction *I : Insts[BI])
        visit(I, F);
    }
    for (auto *P : Phis) {
      Shadow &S = Map[P];
      for (unsigned K = 0; K < S.size(); K++) {
        auto *SP = cast<PHINode>(S[K]);
        for (unsigned J = 0; J < P->getNumIncomingValues(); J++)
          SP->addIncoming(get(P->getIncomingValue(J))[K],
                          P->getIncomingBlock(J));
      }
    }
  }

  void visit(Instruction *I, Function &F) {
    if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I))
      return;
    if (isa<LandingPadInst>(I) || isa<AllocaInst>(I)) {
      if (auto *AI = dyn_cast<AllocaInst>(I))
        if (!AI->isStaticAlloca()) {
          IRBuilder<> B(I);
          conc(B, get1(AI->getArraySize()));
        }
      Map[I] = zeros(I->getType());
      return;
    }
    IRBuilder<> B(I);
    Type *T = I->getType();
    if (auto *BO = dyn_cast<BinaryOperator>(I)) {
      Value *SA = get1(BO->getOperand(0)), *SB = get1(BO->getOperand(1));
      unsigned Op = opcode(BO->getOpcode());
      if (!ok(T) || Op == 99) {
        conc(B, SA);
        conc(B, SB);
        set1(I, Z);
        return;
      }
      if (isZ(SA) && isZ(SB)) {
        set1(I, Z);
        return;
      }
      set1(I, bin(B, Op, width(T), raw(B, BO->getOperand(0)), SA,
                  raw(B, BO->getOperand(1)), SB));
      return;
    }
    if (auto *CI = dyn_cast<ICmpInst>(I)) {
      Type *OT = CI->getOperand(0)->getType();
      Value *SA = get1(CI->getOperand(0)), *SB = get1(CI->getOperand(1));
      if (!ok(OT)) {
        conc(B, SA);
        conc(B, SB);
        set1(I, Z);
        return;
      }
      if (isZ(SA) && isZ(SB)) {
        set1(I, Z);
        return;
      }
      set1(I, cmp(B, predcode(CI->getPredicate()), width(OT),
                  raw(B, CI->getOperand(0)), SA, raw(B, CI->getOperand(1)),
                  SB));
      return;
    }
    if (auto *CI = dyn_cast<CastInst>(I)) {
      Value *S = get1(CI->getOperand(0));
      if (isZ(S)) {
        Map[I] = zeros(T);
        return;
      }
      Type *ST = CI->getOperand(0)->getType();
      if (!ok(T) || !ok(ST)) {
        conc(B, S);
        Map[I] = zeros(T);
        return;
      }
      switch (CI->getOpcode()) {
      case Instruction::ZExt:
      case Instruction::PtrToInt:
      case Instruction::IntToPtr:
        set1(I, width(T) > width(ST)   ? cast_(B, 0, width(T), S)
                : width(T) < width(ST) ? cast_(B, 2, width(T), S)
                                       : S);
        return;
      case Instruction::SExt:
        set1(I, cast_(B, 1, width(T), S));
        return;
      case Instruction::Trunc:
        set1(I, cast_(B, 2, width(T), S));
        return;
      case Instruction::BitCast:
      case Instruction::AddrSpaceCast:
        set1(I, S);
        return;
      default:
        conc(B, S);
        set1(I, Z);
        return;
      }
    }
    if (auto *L = dyn_cast<LoadInst>(I)) {
      IRBuilder<> Post(I->getNextNode());
      doLoad(L, B, Post);
      return;
    }
    if (auto *S = dyn_cast<StoreInst>(I)) {
      doStore(S, B);
      return;
    }
    if (auto *G = dyn_cast<GetElementPtrInst>(I)) {
      if (!T->isPointerTy()) {
        for (auto &O : G->operands())
          concAll(B, O);
        Map[I] = zeros(T);
        return;
      }
      doGEP(G, B);
      return;
    }
    if (auto *S = dyn_cast<SelectInst>(I)) {
      Value *SC = get1(S->getCondition());
      Shadow A = get(S->getTrueValue()), Bs = get(S->getFalseValue());
      if (S->getCondition()->getType() != I1) {
        conc(B, SC);
        Map[I] = zeros(T);
        return;
      }
      bool Scalar = ok(T) && !T->isPointerTy();
      if (Scalar) {
        if (isZ(SC) && isZ(A[0]) && isZ(Bs[0])) {
          set1(I, Z);
          return;
        }
        set1(I, ite(B, width(T), SC, B.CreateZExt(S->getCondition(), I32),
                    raw(B, S->getTrueValue()), A[0],
                    raw(B, S->getFalseValue()), Bs[0]));
        return;
      }
      if (!isZ(SC))
        B.CreateCall(fn("symx_br", VoidTy, {I32, I32}),
                     {SC, B.CreateZExt(S->getCondition(), I32)});
      Shadow Out;
      for (unsigned K = 0; K < A.size(); K++)
        Out.push_back(isZ(A[K]) && isZ(Bs[K])
                          ? Z
                          : B.CreateSelect(S->getCondition(), A[K], Bs[K]));
      Map[I] = Out;
      return;
    }
    if (auto *EV = dyn_cast<ExtractValueInst>(I)) {
      Shadow A = get(EV->getAggregateOperand());
      unsigned Off =
          leafOffset(EV->getAggregateOperand()->getType(), EV->getIndices());
      unsigned N = leaves(T);
      Map[I] = Shadow(A.begin() + Off, A.begin() + Off + N);
      return;
    }
    if (auto *IV = dyn_cast<InsertValueInst>(I)) {
      Shadow A = get(IV->getAggregateOperand());
      Shadow V = get(IV->getInsertedValueOperand());
      unsigned Off = leafOffset(T, IV->getIndices());
      for (unsigned K = 0; K < V.size(); K++)
        A[Off + K] = V[K];
      Map[I] = A;
      return;
    }
    if (isa<FreezeInst>(I)) {
      Map[I] = get(I->getOperand(0));
      return;
    }
    if (auto *Br = dyn_cast<BranchInst>(I)) {
      if (Br->isConditional() && !isZ(get1(Br->getCondition())))
        B.CreateCall(fn("symx_br", VoidTy, {I32, I32}),
                     {get1(Br->getCondition()),
                      B.CreateZExt(Br->getCondition(), I32)});
      return;
    }
    if (auto *Sw = dyn_cast<SwitchInst>(I)) {
      Value *S = get1(Sw->getCondition());
      if (isZ(S))
        return;
      if (!ok(Sw->getCondition()->getType())) {
        conc(B, S);
        return;
      }
      std::map<BasicBlock *, unsigned> Dest;
      Dest[Sw->getDefaultDest()] = 0;
      std::vector<Constant *> Tab;
      for (auto &Cs : Sw->cases()) {
        auto It = Dest.insert({Cs.getCaseSuccessor(), Dest.size()}).first;
        Tab.push_back(
            ConstantInt::get(I64, Cs.getCaseValue()->getZExtValue()));
        Tab.push_back(ConstantInt::get(I64, It->second));
      }
      auto *AT = ArrayType::get(I64, Tab.size());
      auto *G = new GlobalVariable(M, AT, true, GlobalValue::PrivateLinkage,
                                   ConstantArray::get(AT, Tab), "symx.sw");
      B.CreateCall(fn("symx_switch", VoidTy, {I32, I32, Ptr}),
                   {S, c32(Tab.size() / 2), G});
      return;
    }
    if (auto *R = dyn_cast<ReturnInst>(I)) {
      if (Value *V = R->getReturnValue()) {
        Shadow S = get(V);
        if (S.size() && S.size() <= 16) {
          bool Any = false;
          for (auto *X : S)
            Any |= !isZ(X);
          if (Any) {
            for (unsigned K = 0; K < S.size(); K++)
              B.CreateStore(S[K], B.CreateConstGEP2_32(Ret->getValueType(), Ret,
                                                       0, K));
            B.CreateStore(&F, RetFn);
          } else
            B.CreateStore(ConstantPointerNull::get(Ptr), RetFn);
        } else
          for (auto *X : S)
            conc(B, X);
      }
      return;
    }
    if (auto *II = dyn_cast<IntrinsicInst>(I)) {
      if (isa<CallInst>(I)) {
        IRBuilder<> Post(I->getNextNode());
        doIntrinsic(II, B, Post);
      }
      return;
    }
    if (auto *CB = dyn_cast<CallBase>(I)) {
      if (auto *Inv = dyn_cast<InvokeInst>(CB)) {
        if (leaves(CB->getType())) {
          IRBuilder<> Post(&*Inv->getNormalDest()->getFirstInsertionPt());
          doCall(CB, B, &Post);
        } else
          doCall(CB, B, nullptr);
      } else {
        auto *CI = cast<CallInst>(CB);
        if (CI->isMustTailCall()) {
          doCall(CB, B, nullptr);
        } else {
          IRBuilder<> Post(I->getNextNode());
          doCall(CB, B, &Post);
        }
      }
      return;
    }
    if (auto *X = dyn_cast<AtomicCmpXchgInst>(I)) {
      for (auto &O : X->operands())
        concAll(B, O);
      B.CreateCall(fn("symx_atomic", VoidTy, {I64, I32}),
                   {raw(B, X->getPointerOperand()),
                    c32(DL.getTypeStoreSize(X->getNewValOperand()->getType()))});
      Map[I] = zeros(T);
      return;
    }
    if (auto *X = dyn_cast<AtomicRMWInst>(I)) {
      for (auto &O : X->operands())
        concAll(B, O);
      B.CreateCall(fn("symx_atomic", VoidTy, {I64, I32}),
                   {raw(B, X->getPointerOperand()),
                    c32(DL.getTypeStoreSize(X->getValOperand()->getType()))});
      Map[I] = zeros(T);
      return;
    }
    // Everything else (fp, vectors, resume, ...) works on concrete values.
    for (auto &O : I->operands())
      if (!isa<BasicBlock>(O))
        concAll(B, O);
    Map[I] = zeros(T);
  }

  GlobalVariable *EnteredGV = nullptr;
  GlobalVariable *gvEntered() {
    if (!EnteredGV)
      EnteredGV = new GlobalVariable(M, ArrayType::get(I8, 1 << 16), false,
                                     GlobalValue::InternalLinkage,
                                     ConstantAggregateZero::get(
                                         ArrayType::get(I8, 1 << 16)),
                                     "symx.entered");
    return EnteredGV;
  }

  bool run() {
    Args = gv("symx_args", ArrayType::get(I32, MaxArgs));
    Callee = gv("symx_callee", Ptr);
    Ret = gv("symx_ret", ArrayType::get(I32, 16));
    RetFn = gv("symx_ret_fn", Ptr);
    ByVal = gv("symx_byvals", ArrayType::get(I64, MaxArgs));
    // std::to_string(double): formatted by a stand-in
    for (auto &F : M)
      if (F.isVarArg() && !F.isDeclaration() && Renames.count(F.getName().str())) {
        F.deleteBody();
        F.setComdat(nullptr);
      }
    std::vector<Function *> Fs;
    for (auto &F : M)
      if (!F.isDeclaration() && !F.hasAvailableExternallyLinkage() &&
          !F.getName().starts_with("_GLOBAL__sub_I") &&
          !F.getName().starts_with("__cxx_global_var_init") &&
          !F.hasFnAttribute(Attribute::Naked))
        Fs.push_back(&F);
    for (auto *F : Fs)
      runOn(*F);
    // Registration: addresses, names, entered flags.
    std::vector<Constant *> Addrs, Names;
    for (auto *F : Done) {
      Addrs.push_back(F);
      Names.push_back(cast<Constant>(nameStr(F->getName())));
    }
    if (Done.empty())
      return true;
    auto *AT = ArrayType::get(Ptr, Done.size());
    auto *GA = new GlobalVariable(M, AT, true, GlobalValue::PrivateLinkage,
                                  ConstantArray::get(AT, Addrs), "symx.addrs");
    auto *GN = new GlobalVariable(M, AT, true, GlobalValue::PrivateLinkage,
                                  ConstantArray::get(AT, Names), "symx.names");
    auto *Ctor = Function::Create(FunctionType::get(VoidTy, false),
                                  GlobalValue::InternalLinkage, "symx.ctor", M);
    IRBuilder<> B(BasicBlock::Create(C, "", Ctor));
    B.CreateCall(fn("symx_register", VoidTy, {Ptr, Ptr, Ptr, I64, Ptr}),
                 {GA, GN, gvEntered(), c64(Done.size()),
                  nameStr(M.getSourceFileName())});
    B.CreateRetVoid();
    appendToGlobalCtors(M, Ctor, 101);
    return true;
  }
};

struct SymxPass : PassInfoMixin<SymxPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    Symx(M).run();
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};

} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "symx", "1", [](PassBuilder &PB) {
            PB.registerOptimizerLastEPCallback(
                [](ModulePassManager &MPM, OptimizationLevel) {
                  MPM.addPass(SymxPass());
                });
          }};
}
