// LLVM pass plugin "symfp": rewrites every floating-point operation of a module into a call of the
// symbolic runtime (engine/runtime.cpp).  Memory, integers and control flow stay native; a symbolic
// double travels through them as a NaN-boxed handle.  Anything it cannot rewrite is a hard error.
#include "llvm/IR/Function.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include <cstdlib>
using namespace llvm;
namespace {
const char *MATH1[] = {"sqrt","exp","log","log10","log2","fabs","floor","ceil","tanh","sinh","cosh","sin","cos","tan",
  "atan","asin","acos","trunc","round","rint","nearbyint","expm1","cbrt","log1p","exp2","erf","erfc","lgamma","tgamma","asinh","acosh","atanh"};
const char *MATH2[] = {"pow","fmod","atan2","fmax","fmin","copysign","hypot","remainder","fdim"};
struct SymFP : PassInfoMixin<SymFP> {
  [[noreturn]] void die(const Instruction &I, const char *why) {
    errs() << "symfp: unsupported: " << why << ": " << I << " in " << I.getFunction()->getName() << "\n";
    exit(3);
  }
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    auto &C = M.getContext();
    Type *D = Type::getDoubleTy(C), *I32 = Type::getInt32Ty(C), *I64 = Type::getInt64Ty(C), *I1 = Type::getInt1Ty(C);
    auto F1 = [&](const char *n) { return M.getOrInsertFunction(n, FunctionType::get(D, {D}, false)); };
    auto F2 = [&](const char *n) { return M.getOrInsertFunction(n, FunctionType::get(D, {D, D}, false)); };
    FunctionCallee Add = F2("__s_add"), Sub = F2("__s_sub"), Mul = F2("__s_mul"), Div = F2("__s_div"), Rem = F2("__s_fmod"),
      Neg = F1("__s_neg"), Cmp = M.getOrInsertFunction("__s_cmp", FunctionType::get(I32, {I32, D, D}, false)),
      ToI = M.getOrInsertFunction("__s_toi", FunctionType::get(I64, {D}, false)),
      Cls = M.getOrInsertFunction("__s_fpclass", FunctionType::get(I32, {D, I32}, false)),
      Conc = M.getOrInsertFunction("__s_concrete", FunctionType::get(D, {D}, false)),
      Enter = M.getOrInsertFunction("__s_enter", FunctionType::get(Type::getVoidTy(C), {PointerType::getUnqual(C), PointerType::getUnqual(C)}, false));
    const char *stubEnv = getenv("SYMFP_STUB");
    std::string stubs = std::string(",") + (stubEnv ? stubEnv : "") + ",";
    const char *defEnv = getenv("SYMFP_DEFINED");   // math functions the library itself defines are executed, not modelled
    std::string own = stubs + (defEnv ? defEnv : "") + ",";
    for (Function &F : M) {
      if (F.isDeclaration()) continue;
      std::vector<Instruction *> work;
      for (Instruction &I : instructions(F)) work.push_back(&I);
      for (Instruction *I : work) {
        IRBuilder<> B(I);
        auto chkD = [&](Type *T) { if (T != D) die(*I, "non-double FP type"); };
        Value *R = nullptr;
        if (auto *BO = dyn_cast<BinaryOperator>(I)) {
          if (!BO->getType()->isFPOrFPVectorTy()) continue;
          chkD(BO->getType());
          Value *a = BO->getOperand(0), *b = BO->getOperand(1);
          switch (BO->getOpcode()) {
            case Instruction::FAdd: R = B.CreateCall(Add, {a, b}); break;
            case Instruction::FSub: R = B.CreateCall(Sub, {a, b}); break;
            case Instruction::FMul: R = B.CreateCall(Mul, {a, b}); break;
            case Instruction::FDiv: R = B.CreateCall(Div, {a, b}); break;
            case Instruction::FRem: R = B.CreateCall(Rem, {a, b}); break;
            default: die(*I, "binary op");
          }
        } else if (I->getOpcode() == Instruction::FNeg) {
          chkD(I->getType()); R = B.CreateCall(Neg, {I->getOperand(0)});
        } else if (auto *FC = dyn_cast<FCmpInst>(I)) {
          chkD(FC->getOperand(0)->getType());
          R = B.CreateICmpNE(B.CreateCall(Cmp, {ConstantInt::get(I32, (int)FC->getPredicate()), FC->getOperand(0), FC->getOperand(1)}), ConstantInt::get(I32, 0));
        } else if (isa<FPToSIInst>(I) || isa<FPToUIInst>(I)) {
          chkD(I->getOperand(0)->getType());
          R = B.CreateTruncOrBitCast(B.CreateCall(ToI, {I->getOperand(0)}), I->getType());
        } else if (isa<FPTruncInst>(I) || isa<FPExtInst>(I)) {
          if (isa<FPTruncInst>(I)) { if (I->getOperand(0)->getType() != D) die(*I, "fptrunc");
            I->setOperand(0, B.CreateCall(Conc, {I->getOperand(0)})); }
          else if (I->getType() != D) die(*I, "fpext");
          continue;
        } else if (isa<SIToFPInst>(I) || isa<UIToFPInst>(I)) {
          if (I->getType() != D) die(*I, "itofp");
          continue;
        } else if (auto *CI = dyn_cast<CallInst>(I)) {
          Function *Cal = CI->getCalledFunction();
          if (!Cal) continue;
          StringRef N = Cal->getName();
          if (N.starts_with("__s_")) continue;
          std::string base;
          if (Cal->isIntrinsic()) {
            if (N == "llvm.is.fpclass.f64") {
              R = B.CreateICmpNE(B.CreateCall(Cls, {CI->getArgOperand(0), CI->getArgOperand(1)}), ConstantInt::get(I32, 0));
            } else if (N == "llvm.fmuladd.f64" || N == "llvm.fma.f64") {
              R = B.CreateCall(Add, {B.CreateCall(Mul, {CI->getArgOperand(0), CI->getArgOperand(1)}), CI->getArgOperand(2)});
            } else if (N.ends_with(".f64")) {
              base = N.drop_front(5).drop_back(4).str();
              if (base == "maxnum") base = "fmax"; if (base == "minnum") base = "fmin";
            } else continue;
          } else if (Cal->isDeclaration() && own.find("," + N.str() + ",") == std::string::npos) base = N.str();
          else continue;
          if (base == "exit" || base == "_exit" || base == "abort") {  // leaves the path through the runtime
            Value *code = CI->arg_size() ? CI->getArgOperand(0) : ConstantInt::get(I32, 134);
            B.CreateCall(M.getOrInsertFunction("__s_exit", FunctionType::get(Type::getVoidTy(C), {I32}, false)), {code});
            I->eraseFromParent(); continue;
          }
          if (!R && !base.empty()) {
            for (auto n : MATH1) if (base == n) { R = B.CreateCall(F1((std::string("__s_") + n).c_str()), {CI->getArgOperand(0)}); }
            for (auto n : MATH2) if (base == n) { R = B.CreateCall(F2((std::string("__s_") + n).c_str()), {CI->getArgOperand(0), CI->getArgOperand(1)}); }
            if (!R && Cal->isIntrinsic()) die(*I, "fp intrinsic");
            if (!R) continue;
          }
        } else continue;
        if (R) { R->takeName(I); I->replaceAllUsesWith(R); I->eraseFromParent(); }
      }
      if (F.getName() != "main") {
        IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
        auto *slot = new GlobalVariable(M, I32, false, GlobalValue::InternalLinkage, ConstantInt::get(I32, 0));
        B.CreateCall(Enter, {slot, B.CreateGlobalStringPtr(F.getName())});
      }
    }
    // stubs: every use of function X named in $SYMFP_STUB goes to the harness's stub_X instead
    std::vector<std::pair<Function *, std::string>> todo;
    for (Function &F : M)
      if (stubs.find("," + F.getName().str() + ",") != std::string::npos) todo.push_back({&F, F.getName().str()});
    for (auto &pr : todo) {
      FunctionCallee S = M.getOrInsertFunction("stub_" + pr.second, pr.first->getFunctionType());
      pr.first->replaceAllUsesWith(S.getCallee());
    }
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
}
extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "symfp", "1", [](PassBuilder &PB) {
    PB.registerPipelineParsingCallback([](StringRef N, ModulePassManager &MPM, ArrayRef<PassBuilder::PipelineElement>) {
      if (N == "symfp") { MPM.addPass(SymFP()); return true; }
      return false; });
  }};
}
