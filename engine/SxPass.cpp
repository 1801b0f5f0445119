// symx: LLVM-18 pass that makes compiled C++ code carry symbolic shadows.
// Every integer (<=64 bit) and double SSA value gets a shadow pointer
// (null = concrete); the runtime (sxrt.cpp) builds expressions from them.
#include "llvm/IR/PassManager.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/CFG.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/ADT/StringSet.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/LowerSwitch.h"
#include "llvm/Transforms/Utils/LowerInvoke.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include <map>
#include <set>
using namespace llvm;

namespace {

struct Rt {
  Module &M; LLVMContext &C;
  PointerType *P; IntegerType *I32, *I64; Type *D, *V;
  GlobalVariable *gCallee, *gArgs, *gRet, *gRetFrom;
  FunctionCallee load, store, binI, binD, icmp, fcmp, castF, sel, branch, conc, concD, memcpy_, memset_, math, checkdiv, concRange;
  GlobalVariable *tls(StringRef n, Type *T) {
    auto *g = cast<GlobalVariable>(M.getOrInsertGlobal(n, T));
    return g;
  }
  Rt(Module &M) : M(M), C(M.getContext()) {
    P = PointerType::getUnqual(C); I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C);
    D = Type::getDoubleTy(C); V = Type::getVoidTy(C);
    gCallee = tls("__sx_callee", P); gArgs = tls("__sx_args", ArrayType::get(P, 32));
    gRet = tls("__sx_ret", P); gRetFrom = tls("__sx_ret_from", P);
    load = M.getOrInsertFunction("__sx_load", P, P, I32, I64);
    store = M.getOrInsertFunction("__sx_store", V, P, I32, I64, P);
    binI = M.getOrInsertFunction("__sx_bin_i", P, I32, I32, P, I64, P, I64, I64);
    binD = M.getOrInsertFunction("__sx_bin_d", P, I32, P, D, P, D, D);
    icmp = M.getOrInsertFunction("__sx_icmp", P, I32, I32, P, I64, P, I64);
    fcmp = M.getOrInsertFunction("__sx_fcmp", P, I32, P, D, P, D);
    castF = M.getOrInsertFunction("__sx_cast", P, I32, I32, I32, P, I64, I64);
    sel = M.getOrInsertFunction("__sx_select", P, P, I32, P, I64, P, I64, I32);
    branch = M.getOrInsertFunction("__sx_branch", V, P, I32);
    conc = M.getOrInsertFunction("__sx_conc", V, P, I64, I32);
    memcpy_ = M.getOrInsertFunction("__sx_memcpy", V, P, P, I64);
    memset_ = M.getOrInsertFunction("__sx_memset", V, P, I64);
    concRange = M.getOrInsertFunction("__sx_conc_range", V, P, I64);
    math = M.getOrInsertFunction("__sx_math", P, I32, P, D, P, D, D);
    checkdiv = M.getOrInsertFunction("__sx_div0", V, P, I64, I32);
  }
};

enum { K_INT = 0, K_DBL = 1 };

static bool shadowable(Type *T) {
  if (T->isDoubleTy()) return true;
  if (auto *I = dyn_cast<IntegerType>(T)) return I->getBitWidth() <= 64;
  return false;
}

static int mathId(StringRef n) {
  static std::map<std::string, int> m = {
    {"sqrt",1},{"sin",2},{"cos",3},{"tan",4},{"asin",5},{"acos",6},{"atan",7},{"atan2",8},{"pow",9},
    {"fabs",10},{"floor",11},{"ceil",12},{"fmod",13},{"exp",14},{"log",15},{"abs",20},{"labs",20},{"llabs",20},
    {"llvm.fabs.f64",10},{"llvm.sqrt.f64",1},{"llvm.sin.f64",2},{"llvm.cos.f64",3},{"llvm.pow.f64",9},
    {"llvm.floor.f64",11},{"llvm.ceil.f64",12},{"llvm.exp.f64",14},{"llvm.log.f64",15},
    {"round",16},{"llvm.round.f64",16},{"trunc",17},{"llvm.trunc.f64",17},{"modf",18},{"fmin",21},{"fmax",22},
    {"llvm.abs.i32",20},{"llvm.abs.i64",20},{"__isnan",19},{"rint",16}};
  auto it = m.find(n.str());
  return it == m.end() ? 0 : it->second;
}

struct Inst {
  Rt &R; Function &F;
  DenseMap<Value *, Value *> Sh;
  Constant *Null;
  Inst(Rt &R, Function &F) : R(R), F(F) { Null = ConstantPointerNull::get(R.P); }

  Value *sh(Value *v) {
    if (isa<Constant>(v)) return Null;
    auto it = Sh.find(v);
    return it == Sh.end() ? Null : it->second;
  }
  bool has(Value *v) { return sh(v) != Null; }
  Value *i64(IRBuilder<> &B, Value *v) {
    Type *T = v->getType();
    if (T->isDoubleTy()) return B.CreateBitCast(v, R.I64);
    unsigned w = cast<IntegerType>(T)->getBitWidth();
    if (w == 64) return v;
    if (w == 1) return B.CreateZExt(v, R.I64);
    return B.CreateSExt(v, R.I64);
  }
  unsigned width(Type *T) { return T->isDoubleTy() ? 65 : cast<IntegerType>(T)->getBitWidth(); }
  void conc(IRBuilder<> &B, Value *v) {
    if (!shadowable(v->getType()) || !has(v)) return;
    B.CreateCall(R.conc, {sh(v), i64(B, v), ConstantInt::get(R.I32, width(v->getType()))});
  }
  Value *c32(int x) { return ConstantInt::get(R.I32, x); }

  static bool instrumentedDecl(Function *f) {
    StringRef n = f->getName();
    if (n.starts_with("sx_") || n.starts_with("sxh_") || n.contains("Symbolics") || n.contains("sxh")) return true;
    StringRef r = n; // project functions: _Z<digit>, _ZN<digit>, _ZNK<digit>
    if (!r.consume_front("_Z")) return false;
    if (r.consume_front("N")) r.consume_front("K");
    return !r.empty() && r[0] >= '0' && r[0] <= '9';
  }

  void run() {
    ReversePostOrderTraversal<Function *> RPO(&F);
    std::vector<BasicBlock *> order(RPO.begin(), RPO.end());
    std::vector<Instruction *> work;
    for (auto *BB : order) for (auto &I : *BB) work.push_back(&I);
    // entry: fetch argument shadows
    {
      IRBuilder<> B(&*F.getEntryBlock().getFirstNonPHIOrDbgOrAlloca());
      bool any = false;
      for (auto &A : F.args()) if (shadowable(A.getType())) any = true;
      if (any) {
        Value *callee = B.CreateLoad(R.P, R.gCallee);
        Value *ok = B.CreateICmpEQ(callee, &F);
        for (auto &A : F.args()) if (shadowable(A.getType()) && A.getArgNo() < 32) {
          Value *ptr = B.CreateConstInBoundsGEP2_64(ArrayType::get(R.P, 32), R.gArgs, 0, A.getArgNo());
          Value *l = B.CreateLoad(R.P, ptr);
          Sh[&A] = B.CreateSelect(ok, l, Null);
        }
        B.CreateStore(Null, R.gCallee);
      }
    }
    // phi shadows first
    std::vector<std::pair<PHINode *, PHINode *>> phis;
    for (auto *I : work) if (auto *p = dyn_cast<PHINode>(I)) if (shadowable(p->getType())) {
      auto *s = PHINode::Create(R.P, p->getNumIncomingValues(), "", p);
      Sh[p] = s; phis.push_back({p, s});
    }
    for (auto *I : work) visit(I);
    for (auto &pr : phis) for (unsigned i = 0; i < pr.first->getNumIncomingValues(); i++)
      pr.second->addIncoming(sh(pr.first->getIncomingValue(i)), pr.first->getIncomingBlock(i));
  }

  void generic(Instruction *I) {
    IRBuilder<> B(I);
    for (Value *o : I->operands()) conc(B, o);
  }

  void visit(Instruction *I) {
    if (isa<PHINode>(I) || isa<AllocaInst>(I) && !has(I->getOperand(0))) return;
    if (auto *L = dyn_cast<LoadInst>(I)) {
      if (!shadowable(L->getType()) || L->isAtomic()) return;
      IRBuilder<> B(L->getNextNode());
      unsigned w = width(L->getType());
      int sz = w == 65 ? 8 : (w + 7) / 8;
      Sh[L] = B.CreateCall(R.load, {L->getPointerOperand(), c32(sz), i64(B, L)});
      return;
    }
    if (auto *S = dyn_cast<StoreInst>(I)) {
      Value *v = S->getValueOperand();
      IRBuilder<> B(S->getNextNode());
      if (shadowable(v->getType())) {
        unsigned w = width(v->getType());
        int sz = w == 65 ? 8 : (w + 7) / 8;
        B.CreateCall(R.store, {S->getPointerOperand(), c32(sz), i64(B, v), sh(v)});
      } else {
        uint64_t sz = F.getParent()->getDataLayout().getTypeStoreSize(v->getType());
        B.CreateCall(R.memset_, {S->getPointerOperand(), ConstantInt::get(R.I64, sz)});
      }
      return;
    }
    if (auto *BO = dyn_cast<BinaryOperator>(I)) {
      Value *a = BO->getOperand(0), *b = BO->getOperand(1);
      if (!shadowable(BO->getType())) return generic(I);
      unsigned opc = BO->getOpcode();
      if (opc == Instruction::SDiv || opc == Instruction::UDiv || opc == Instruction::SRem || opc == Instruction::URem || opc == Instruction::FDiv) {
        if (has(b)) { IRBuilder<> B(I); B.CreateCall(R.checkdiv, {sh(b), i64(B, b), c32(width(b->getType()))}); }
      }
      if (!has(a) && !has(b)) return;
      IRBuilder<> B(I->getNextNode());
      if (BO->getType()->isDoubleTy())
        Sh[I] = B.CreateCall(R.binD, {c32(opc), sh(a), a, sh(b), b, I});
      else
        Sh[I] = B.CreateCall(R.binI, {c32(opc), c32(width(I->getType())), sh(a), i64(B, a), sh(b), i64(B, b), i64(B, I)});
      return;
    }
    if (auto *U = dyn_cast<UnaryOperator>(I)) {
      if (U->getOpcode() == Instruction::FNeg && U->getType()->isDoubleTy() && has(U->getOperand(0))) {
        IRBuilder<> B(I->getNextNode());
        Sh[I] = B.CreateCall(R.binD, {c32(Instruction::FSub), Null, ConstantFP::get(R.D, 0.0), sh(U->getOperand(0)), U->getOperand(0), I});
        return;
      }
      return generic(I);
    }
    if (auto *C = dyn_cast<ICmpInst>(I)) {
      Value *a = C->getOperand(0), *b = C->getOperand(1);
      if (!shadowable(a->getType())) return;
      if (!has(a) && !has(b)) return;
      IRBuilder<> B(I->getNextNode());
      Sh[I] = B.CreateCall(R.icmp, {c32(C->getPredicate()), c32(width(a->getType())), sh(a), i64(B, a), sh(b), i64(B, b)});
      return;
    }
    if (auto *C = dyn_cast<FCmpInst>(I)) {
      Value *a = C->getOperand(0), *b = C->getOperand(1);
      if (!a->getType()->isDoubleTy()) return generic(I);
      if (!has(a) && !has(b)) return;
      IRBuilder<> B(I->getNextNode());
      Sh[I] = B.CreateCall(R.fcmp, {c32(C->getPredicate()), sh(a), a, sh(b), b});
      return;
    }
    if (auto *C = dyn_cast<CastInst>(I)) {
      Value *a = C->getOperand(0);
      if (!shadowable(a->getType()) || !has(a)) return;
      if (!shadowable(C->getType())) return generic(I);
      IRBuilder<> B(I->getNextNode());
      Sh[I] = B.CreateCall(R.castF, {c32(C->getOpcode()), c32(width(a->getType())), c32(width(C->getType())), sh(a), i64(B, a), i64(B, I)});
      return;
    }
    if (auto *F_ = dyn_cast<FreezeInst>(I)) { if (has(I->getOperand(0))) Sh[I] = sh(I->getOperand(0)); return; }
    if (auto *S = dyn_cast<SelectInst>(I)) {
      Value *c = S->getCondition(), *a = S->getTrueValue(), *b = S->getFalseValue();
      if (!shadowable(S->getType())) {
        if (has(c)) { IRBuilder<> B(I); B.CreateCall(R.branch, {sh(c), B.CreateZExt(c, R.I32)}); }
        return;
      }
      if (!has(c) && !has(a) && !has(b)) return;
      if (!c->getType()->isIntegerTy(1)) return generic(I);
      IRBuilder<> B(I->getNextNode());
      Sh[I] = B.CreateCall(R.sel, {sh(c), B.CreateZExt(c, R.I32), sh(a), i64(B, a), sh(b), i64(B, b), c32(width(S->getType()))});
      return;
    }
    if (auto *Br = dyn_cast<BranchInst>(I)) {
      if (Br->isConditional() && has(Br->getCondition())) {
        IRBuilder<> B(I);
        B.CreateCall(R.branch, {sh(Br->getCondition()), B.CreateZExt(Br->getCondition(), R.I32)});
      }
      return;
    }
    if (auto *Rt_ = dyn_cast<ReturnInst>(I)) {
      if (!Rt_->getReturnValue()) return;
      Value *v = Rt_->getReturnValue();
      IRBuilder<> B(I);
      if (shadowable(v->getType())) {
        B.CreateStore(sh(v), R.gRet);
        B.CreateStore(&F, R.gRetFrom);
      }
      return;
    }
    if (auto *CB = dyn_cast<CallBase>(I)) return call(CB);
    generic(I);
  }

  void call(CallBase *CB) {
    Value *cv = CB->getCalledOperand();
    if (isa<InlineAsm>(cv)) return generic(CB);
    Function *f = dyn_cast<Function>(cv->stripPointerCasts());
    IRBuilder<> B(CB);
    if (auto *II = dyn_cast<IntrinsicInst>(CB)) {
      switch (II->getIntrinsicID()) {
      case Intrinsic::memcpy: case Intrinsic::memmove: {
        for (int k = 2; k < 3; k++) conc(B, CB->getArgOperand(k));
        IRBuilder<> A(CB);   // before, so that source cells are read before they are overwritten
        A.CreateCall(R.memcpy_, {CB->getArgOperand(0), CB->getArgOperand(1), A.CreateZExtOrTrunc(CB->getArgOperand(2), R.I64)});
        return; }
      case Intrinsic::memset: {
        conc(B, CB->getArgOperand(1)); conc(B, CB->getArgOperand(2));
        B.CreateCall(R.memset_, {CB->getArgOperand(0), B.CreateZExtOrTrunc(CB->getArgOperand(2), R.I64)});
        return; }
      case Intrinsic::expect: if (has(CB->getArgOperand(0))) Sh[CB] = sh(CB->getArgOperand(0)); return;
      case Intrinsic::assume: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare:
      case Intrinsic::dbg_value: case Intrinsic::dbg_label: return;
      default: break;
      }
    }
    if (f) {
      int id = mathId(f->getName());
      if (id && CB->arg_size() >= 1 && shadowable(CB->getType()) && f->isDeclaration()) {
        bool any = false;
        for (unsigned k = 0; k < CB->arg_size() && k < 2; k++) if (shadowable(CB->getArgOperand(k)->getType()) && has(CB->getArgOperand(k))) any = true;
        if (!any) return;
        Value *a = CB->getArgOperand(0);
        if (id == 20) { // integer abs
          IRBuilder<> A(after(CB));
          Sh[CB] = A.CreateCall(R.binI, {c32(1000), c32(width(CB->getType())), sh(a), i64(A, a), Null, ConstantInt::get(R.I64, 0), i64(A, CB)});
          return;
        }
        if (a->getType()->isDoubleTy() && CB->getType()->isDoubleTy()) {
          bool two = CB->arg_size() >= 2 && CB->getArgOperand(1)->getType()->isDoubleTy();
          Value *b = two ? CB->getArgOperand(1) : ConstantFP::get(R.D, 0.0);
          IRBuilder<> A(after(CB));
          Sh[CB] = A.CreateCall(R.math, {c32(id), sh(a), a, sh(b), b, CB});
          return;
        }
        return generic(CB);
      }
      StringRef n = f->getName();
      if (n.starts_with("__sx_") ) return;
      if (n.starts_with("_ZNSols") || n.starts_with("_ZNSo9_M_insert") || n == "sprintf" || n == "snprintf" || n == "__sprintf_chk" || n == "__snprintf_chk") return; // ostream << number: text is not tracked
      if ((f->isDeclaration() || f->hasAvailableExternallyLinkage()) && !instrumentedDecl(f)) {
        generic(CB);
        // library routines that move memory
        if (n == "memcpy" || n == "memmove") B.CreateCall(R.memcpy_, {CB->getArgOperand(0), CB->getArgOperand(1), CB->getArgOperand(2)});
        return;
      }
    }
    // instrumented (or unknown indirect) callee
    bool any = false;
    for (unsigned k = 0; k < CB->arg_size(); k++) {
      Value *a = CB->getArgOperand(k);
      if (CB->isByValArgument(k)) {
        uint64_t sz = F.getParent()->getDataLayout().getTypeAllocSize(CB->getParamByValType(k));
        B.CreateCall(R.concRange, {a, ConstantInt::get(R.I64, sz)});
      }
      if (shadowable(a->getType()) && has(a)) { if (k < 32) any = true; else conc(B, a); }
    }
    if (any) {
      for (unsigned k = 0; k < CB->arg_size() && k < 32; k++) {
        Value *a = CB->getArgOperand(k);
        if (!shadowable(a->getType())) continue;
        Value *ptr = B.CreateConstInBoundsGEP2_64(ArrayType::get(R.P, 32), R.gArgs, 0, k);
        B.CreateStore(sh(a), ptr);
      }
      B.CreateStore(cv, R.gCallee);
    } else B.CreateStore(Null, R.gCallee);
    if (shadowable(CB->getType())) {
      B.CreateStore(Null, R.gRetFrom);
      if (CB->isMustTailCall()) return;
      IRBuilder<> A(after(CB));
      Value *from = A.CreateLoad(R.P, R.gRetFrom);
      Value *ok = A.CreateICmpEQ(from, cv);
      Value *r = A.CreateLoad(R.P, R.gRet);
      Sh[CB] = A.CreateSelect(ok, r, Null);
    }
  }
  Instruction *after(CallBase *CB) {
    if (auto *Iv = dyn_cast<InvokeInst>(CB)) {
      BasicBlock *nd = Iv->getNormalDest();
      return &*nd->getFirstInsertionPt();
    }
    return CB->getNextNode();
  }
};

struct SxPass : PassInfoMixin<SxPass> {
  static bool isRequired() { return true; }
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &MAM) {
    auto &FAM = MAM.getResult<FunctionAnalysisManagerModuleProxy>(M).getManager();
    Rt R(M);
    std::vector<Function *> fs;
    for (auto &F : M) if (!F.isDeclaration() && !F.getName().starts_with("__sx_") && !F.hasAvailableExternallyLinkage()) fs.push_back(&F);
    for (auto *F : fs) {
      if (F->hasOptNone()) F->removeFnAttr(Attribute::OptimizeNone);
      FunctionPassManager FPM;
      FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
      FPM.addPass(EarlyCSEPass());
      FPM.addPass(LowerSwitchPass());
      FPM.addPass(SimplifyCFGPass(SimplifyCFGOptions().convertSwitchRangeToICmp(false)));
      FPM.addPass(LowerSwitchPass());
      FPM.run(*F, FAM);
      EliminateUnreachableBlocks(*F);
      // split invoke normal edges so that code can be placed right after the call
      std::vector<InvokeInst *> inv;
      for (auto &BB : *F) if (auto *I = dyn_cast<InvokeInst>(BB.getTerminator())) if (shadowable(I->getType())) inv.push_back(I);
      for (auto *I : inv) {
        BasicBlock *nd = I->getNormalDest();
        if (nd->getSinglePredecessor() == nullptr || isa<PHINode>(nd->front()))
          SplitEdge(I->getParent(), nd);
      }
      FAM.invalidate(*F, PreservedAnalyses::none());
      Inst(R, *F).run();
      // effect attributes computed by the front end no longer hold
      F->removeFnAttr(Attribute::Memory);
      F->removeFnAttr(Attribute::NoFree); F->removeFnAttr(Attribute::NoSync);
    }
    for (auto &F : M) if (!F.isIntrinsic()) { F.removeFnAttr(Attribute::Memory); }
    for (auto *F : fs) for (auto &BB : *F) for (auto &I : BB) if (auto *CB = dyn_cast<CallBase>(&I)) if (!isa<IntrinsicInst>(CB)) CB->removeFnAttr(Attribute::Memory);
    return PreservedAnalyses::none();
  }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "symx", "1", [](PassBuilder &PB) {
            PB.registerPipelineStartEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(SxPass()); });
          }};
}
