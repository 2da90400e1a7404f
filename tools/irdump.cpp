// irdump: static front end of the checks.  Reads LLVM bitcode compiled from
// /repo's current sources, normalises it (inlining everything except the named
// event functions, SSA construction, loop simplification/unrolling), and writes
// the resulting program as JSON for the analyses in /verif/lib.  Nothing is
// ever executed or JIT-compiled here.
#include "llvm/ADT/StringExtras.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;
static cl::list<std::string> Inputs(cl::Positional, cl::desc("<bitcode>"), cl::OneOrMore);
static cl::opt<std::string> Out("o", cl::desc("output json"), cl::init("-"));
static cl::list<std::string> Entries("entry", cl::desc("regex over demangled names: functions to dump"));
static cl::list<std::string> NoInline("noinline", cl::desc("regex over demangled names: event functions kept opaque"));
static cl::list<std::string> DropBody("drop", cl::desc("regex: delete the body (opaque, no effects known)"));
static cl::list<std::string> ReadNone("pure", cl::desc("regex: opaque and memory-free"));
static cl::list<std::string> RecSplit("rec", cl::desc("calls to these functions, except from impl_ entries, go to an external NAME.rec"));
static cl::opt<std::string> Pipeline("pipeline", cl::init("O2"), cl::desc("none|mem2reg|lite|O1|O2|O3"));
static cl::opt<bool> InlineAll("inline-all", cl::init(false), cl::desc("mark every non-event function alwaysinline"));
static cl::opt<bool> ListOnly("list", cl::init(false), cl::desc("list defined functions"));
static cl::opt<bool> Globals("globals", cl::init(false), cl::desc("dump globals"));
static cl::opt<unsigned> UnrollMax("unroll", cl::init(0), cl::desc("full-unroll threshold"));
static cl::opt<bool> DumpLL("ll", cl::init(false), cl::desc("print textual IR of entries to stderr"));

static std::map<std::string, std::string> DemCache;
static const std::string &dem(StringRef N) {
  auto It = DemCache.find(N.str());
  if (It != DemCache.end()) return It->second;
  return DemCache[N.str()] = demangle(N.str());
}
static bool matchAny(const std::vector<std::unique_ptr<Regex>> &R, StringRef D, StringRef M) {
  for (auto &X : R) if (X->match(D) || X->match(M)) return true;
  return false;
}
static std::vector<std::unique_ptr<Regex>> compile(const cl::list<std::string> &L) {
  std::vector<std::unique_ptr<Regex>> V;
  for (auto &S : L) {
    auto R = std::make_unique<Regex>(S);
    std::string E;
    if (!R->isValid(E)) { errs() << "bad regex " << S << ": " << E << "\n"; exit(2); }
    V.push_back(std::move(R));
  }
  return V;
}

struct Dumper {
  const DataLayout &DL;
  json::OStream &J;
  DenseMap<const Value *, unsigned> Ids;
  std::map<std::pair<std::string, unsigned>, unsigned> LocIds;
  std::vector<std::string> Locs;
  std::map<const MDNode *, unsigned> LocMap;
  Dumper(const DataLayout &DL, json::OStream &J) : DL(DL), J(J) {}
  std::string tyStr(Type *T) {
    std::string S; raw_string_ostream O(S); T->print(O, false, true); return O.str();
  }
  unsigned loc(const DILocation *L) {
    auto It = LocMap.find(L);
    if (It != LocMap.end()) return It->second;
    std::string S;
    const DILocation *C = L; int n = 0;
    while (C && n < 12) {
      if (n) S += "<";
      auto *SP = C->getScope()->getSubprogram();
      S += (C->getFilename() + ":" + Twine(C->getLine()) + "@" + (SP ? (SP->getLinkageName().empty() ? SP->getName() : SP->getLinkageName()) : StringRef(""))).str();
      C = C->getInlinedAt(); ++n;
    }
    Locs.push_back(S);
    return LocMap[L] = Locs.size();
  }
  std::string opnd(const Value *V) {
    if (auto *C = dyn_cast<Constant>(V)) return cst(C);
    if (auto *B = dyn_cast<BasicBlock>(V)) return "b" + utostr(Ids[B]);
    if (isa<MetadataAsValue>(V) || isa<InlineAsm>(V)) return "m";
    auto It = Ids.find(V);
    if (It == Ids.end()) return "?";
    return "%" + utostr(It->second);
  }
  std::string cst(const Constant *C) {
    if (auto *CI = dyn_cast<ConstantInt>(C)) {
      SmallString<32> S; CI->getValue().toString(S, 10, CI->getBitWidth() != 1);
      return "i" + S.str().str();
    }
    if (auto *F = dyn_cast<ConstantFP>(C)) {
      APFloat A = F->getValueAPF(); bool L;
      if (&A.getSemantics() != &APFloat::IEEEdouble()) A.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &L);
      return "d" + utohexstr(A.bitcastToAPInt().getZExtValue(), true);
    }
    if (isa<ConstantPointerNull>(C)) return "n";
    if (isa<PoisonValue>(C) || isa<UndefValue>(C)) return "u";
    if (isa<ConstantAggregateZero>(C)) return "z";
    if (auto *G = dyn_cast<GlobalValue>(C)) return "@" + G->getName().str();
    if (auto *CE = dyn_cast<ConstantExpr>(C)) {
      if (CE->getOpcode() == Instruction::GetElementPtr) {
        APInt Off(64, 0);
        if (cast<GEPOperator>(CE)->accumulateConstantOffset(DL, Off)) {
          std::string B = cst(CE->getOperand(0));
          if (B.size() && B[0] == '@') {
            auto P = B.rfind("+#");
            int64_t o = Off.getSExtValue();
            if (P != std::string::npos) { o += std::stoll(B.substr(P + 2)); B = B.substr(0, P); }
            return B + "+#" + itostr(o);
          }
        }
      }
      if (CE->isCast()) return cst(CE->getOperand(0));
      return "x";
    }
    if (auto *CS = dyn_cast<ConstantStruct>(C)) {
      std::string S = "{"; for (unsigned i = 0; i < CS->getNumOperands(); ++i) S += (i ? "," : "") + cst(CS->getOperand(i));
      return S + "}";
    }
    if (auto *CA = dyn_cast<ConstantArray>(C)) {
      std::string S = "["; for (unsigned i = 0; i < CA->getNumOperands(); ++i) S += (i ? "," : "") + cst(CA->getOperand(i));
      return S + "]";
    }
    if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
      std::string S = "["; unsigned N = CD->getNumElements(); if (N > 4096) return "x";
      for (unsigned i = 0; i < N; ++i) S += (i ? "," : "") + cst(CD->getElementAsConstant(i));
      return S + "]";
    }
    return "x";
  }
  void flat(const Constant *C, uint64_t Off, unsigned &N) {
    if (++N > 20000) return;
    if (auto *CS = dyn_cast<ConstantStruct>(C)) {
      auto *SL = DL.getStructLayout(CS->getType());
      for (unsigned i = 0; i < CS->getNumOperands(); ++i) flat(CS->getOperand(i), Off + SL->getElementOffset(i), N);
    } else if (auto *CA = dyn_cast<ConstantArray>(C)) {
      uint64_t S = DL.getTypeAllocSize(CA->getType()->getElementType());
      for (unsigned i = 0; i < CA->getNumOperands(); ++i) flat(CA->getOperand(i), Off + i * S, N);
    } else if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
      uint64_t S = DL.getTypeAllocSize(CD->getElementType());
      for (unsigned i = 0; i < CD->getNumElements(); ++i) flat(CD->getElementAsConstant(i), Off + i * S, N);
    } else if (isa<ConstantAggregateZero>(C)) {
      J.array([&] { J.value(Off); J.value((uint64_t)DL.getTypeStoreSize(C->getType())); J.value("z"); });
    } else J.array([&] { J.value(Off); J.value((uint64_t)DL.getTypeStoreSize(C->getType())); J.value(cst(C)); });
  }
  void fn(Function &F) {
    Ids.clear(); unsigned n = 0;
    for (auto &A : F.args()) Ids[&A] = n++;
    unsigned b = 0;
    for (auto &B : F) { Ids[&B] = b++; for (auto &I : B) if (!I.getType()->isVoidTy()) Ids[&I] = n++; }
    J.object([&] {
      J.attribute("name", F.getName()); J.attribute("dem", dem(F.getName()));
      if (auto *SP = F.getSubprogram()) { J.attribute("file", SP->getFilename()); J.attribute("line", SP->getLine()); }
      J.attribute("ret", tyStr(F.getReturnType()));
      J.attributeArray("args", [&] { for (auto &A : F.args()) J.array([&] { J.value("%" + utostr(Ids[&A])); J.value(tyStr(A.getType())); J.value(A.hasStructRetAttr() ? 1 : A.hasByValAttr() ? 2 : 0); }); });
      J.attributeArray("blocks", [&] {
        for (auto &B : F) J.array([&] { for (auto &I : B) inst(I); });
      });
    });
  }
  void inst(Instruction &I) {
    if (isa<DbgInfoIntrinsic>(I)) return;
    if (auto *II = dyn_cast<IntrinsicInst>(&I)) {
      switch (II->getIntrinsicID()) {
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
      case Intrinsic::experimental_noalias_scope_decl: return;
      default: break;
      }
    }
    J.array([&] {
      J.value(I.getOpcodeName());
      J.value(I.getType()->isVoidTy() ? std::string() : "%" + utostr(Ids[&I]));
      J.value(I.getDebugLoc() ? loc(I.getDebugLoc().get()) : 0u);
      J.value(tyStr(I.getType()));
      if (auto *C = dyn_cast<CmpInst>(&I)) {
        J.value(CmpInst::getPredicateName(C->getPredicate())); J.value(opnd(C->getOperand(0))); J.value(opnd(C->getOperand(1)));
      } else if (auto *P = dyn_cast<PHINode>(&I)) {
        J.array([&] { for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) J.array([&] { J.value(opnd(P->getIncomingValue(i))); J.value(Ids[P->getIncomingBlock(i)]); }); });
      } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
        if (Br->isConditional()) { J.value(opnd(Br->getCondition())); J.value(Ids[Br->getSuccessor(0)]); J.value(Ids[Br->getSuccessor(1)]); }
        else J.value(Ids[Br->getSuccessor(0)]);
      } else if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
        J.value(opnd(Sw->getCondition())); J.value(Ids[Sw->getDefaultDest()]);
        J.array([&] { for (auto &c : Sw->cases()) J.array([&] { J.value(opnd(c.getCaseValue())); J.value(Ids[c.getCaseSuccessor()]); }); });
      } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        MapVector<Value *, APInt> Var; APInt Off(64, 0);
        J.value(opnd(G->getPointerOperand()));
        if (G->collectOffset(DL, 64, Var, Off)) {
          J.value(Off.getSExtValue());
          J.array([&] { for (auto &p : Var) J.array([&] { J.value(opnd(p.first)); J.value(p.second.getSExtValue()); }); });
        } else { J.value(0); J.value("?"); }
        J.value(tyStr(G->getSourceElementType()));
      } else if (auto *L = dyn_cast<LoadInst>(&I)) {
        J.value(opnd(L->getPointerOperand())); J.value((uint64_t)DL.getTypeStoreSize(L->getType()));
      } else if (auto *S = dyn_cast<StoreInst>(&I)) {
        J.value(opnd(S->getPointerOperand())); J.value(opnd(S->getValueOperand())); J.value((uint64_t)DL.getTypeStoreSize(S->getValueOperand()->getType()));
        J.value(tyStr(S->getValueOperand()->getType()));
      } else if (auto *A = dyn_cast<AllocaInst>(&I)) {
        J.value(tyStr(A->getAllocatedType())); J.value((uint64_t)DL.getTypeAllocSize(A->getAllocatedType()));
      } else if (auto *CB = dyn_cast<CallBase>(&I)) {
        Value *Callee = CB->getCalledOperand()->stripPointerCasts();
        J.value(opnd(Callee));
        J.array([&] { for (auto &a : CB->args()) J.value(opnd(a.get())); });
        if (auto *Inv = dyn_cast<InvokeInst>(&I)) { J.value(Ids[Inv->getNormalDest()]); J.value(Ids[Inv->getUnwindDest()]); }
      } else if (auto *EV = dyn_cast<ExtractValueInst>(&I)) {
        J.value(opnd(EV->getAggregateOperand())); J.array([&] { for (unsigned x : EV->indices()) J.value(x); });
      } else if (auto *IV = dyn_cast<InsertValueInst>(&I)) {
        J.value(opnd(IV->getAggregateOperand())); J.value(opnd(IV->getInsertedValueOperand())); J.array([&] { for (unsigned x : IV->indices()) J.value(x); });
      } else {
        for (auto &o : I.operands()) J.value(opnd(o.get()));
        if (auto *CI = dyn_cast<CastInst>(&I)) J.value(tyStr(CI->getSrcTy()));
      }
    });
  }
};

int main(int argc, char **argv) {
  cl::ParseCommandLineOptions(argc, argv);
  LLVMContext Ctx; SMDiagnostic Err;
  std::unique_ptr<Module> M;
  for (auto &In : Inputs) {
    auto X = parseIRFile(In, Err, Ctx);
    if (!X) { Err.print(argv[0], errs()); return 2; }
    if (!M) M = std::move(X);
    else if (Linker::linkModules(*M, std::move(X))) { errs() << "link failed\n"; return 2; }
  }
  auto ER = compile(Entries), NR = compile(NoInline), DR = compile(DropBody), PR = compile(ReadNone), RR = compile(RecSplit);
  if (ListOnly) {
    for (auto &F : *M) outs() << (F.isDeclaration() ? "decl " : "def  ") << F.getName() << "\t" << dem(F.getName()) << "\n";
    return 0;
  }
  if (!RecSplit.empty()) {
    std::vector<Function *> Fs;
    for (auto &F : *M) if (!F.isIntrinsic() && matchAny(RR, dem(F.getName()), F.getName())) Fs.push_back(&F);
    for (auto *F : Fs) {
      Function *G = Function::Create(F->getFunctionType(), GlobalValue::ExternalLinkage, F->getName() + ".rec", M.get());
      for (auto &U : llvm::make_early_inc_range(F->uses())) {
        auto *CB = dyn_cast<CallBase>(U.getUser());
        if (!CB || !CB->isCallee(&U)) continue;
        if (CB->getFunction()->getName().starts_with("impl_")) continue;
        CB->setCalledFunction(G);
      }
    }
  }
  std::set<std::string> EntryNames;
  for (auto &F : *M) {
    StringRef N = F.getName(); const std::string &D = dem(N);
    F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone);
    bool isE = !F.isDeclaration() && matchAny(ER, D, N);
    if (isE) { EntryNames.insert(N.str()); F.setLinkage(GlobalValue::ExternalLinkage); F.setComdat(nullptr); }
    bool ev = matchAny(NR, D, N), pu = matchAny(PR, D, N), dr = matchAny(DR, D, N);
    if (!isE && (dr || pu) && !F.isDeclaration()) { F.deleteBody(); F.setLinkage(GlobalValue::ExternalLinkage); F.setComdat(nullptr); }
    if (pu) { F.setDoesNotAccessMemory(); F.setDoesNotThrow(); F.addFnAttr(Attribute::WillReturn); }
    if (ev) { F.addFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::AlwaysInline); F.removeFnAttr(Attribute::InlineHint);
      if (!F.isDeclaration() && !isE) { F.setLinkage(GlobalValue::WeakAnyLinkage); F.setComdat(nullptr); } }
    else if (InlineAll && !F.isDeclaration() && !isE) { F.addFnAttr(Attribute::AlwaysInline); F.removeFnAttr(Attribute::MinSize);
      if (F.hasAvailableExternallyLinkage() || F.isInterposable()) { F.setLinkage(GlobalValue::InternalLinkage); F.setComdat(nullptr);} }
    else if (!F.isDeclaration() && F.hasAvailableExternallyLinkage()) { F.setLinkage(GlobalValue::LinkOnceODRLinkage); }
  }
  // code no entry reaches: drop it before the optimiser spends time on it
  if (!EntryNames.empty() && Pipeline != "none") {
    for (auto &F : *M) if (!F.isDeclaration() && !F.hasLocalLinkage() && !EntryNames.count(F.getName().str()) && !F.hasFnAttribute(Attribute::NoInline)) { F.setLinkage(GlobalValue::InternalLinkage); F.setComdat(nullptr); F.setVisibility(GlobalValue::DefaultVisibility); F.setDLLStorageClass(GlobalValue::DefaultStorageClass); }
    for (auto &G : M->globals()) if (!G.isDeclaration() && G.isConstant() && !G.hasLocalLinkage() && !G.getName().starts_with("llvm.")) { G.setLinkage(GlobalValue::InternalLinkage); G.setComdat(nullptr); G.setVisibility(GlobalValue::DefaultVisibility); }
  }
  if (Pipeline != "none") {
    PipelineTuningOptions PTO; PTO.LoopVectorization = false; PTO.SLPVectorization = false; PTO.LoopInterleaving = false; PTO.MergeFunctions = false;
    if (UnrollMax) {
      const char *av[] = {"irdump", nullptr, nullptr, nullptr}; (void)av;
    }
    PassBuilder PB(nullptr, PTO);
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    std::string P = Pipeline;
    if (P == "O1") MPM = PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1);
    else if (P == "O2") MPM = PB.buildPerModuleDefaultPipeline(OptimizationLevel::O2);
    else if (P == "O3") MPM = PB.buildPerModuleDefaultPipeline(OptimizationLevel::O3);
    else {
      std::string T = P;
      if (P == "mem2reg") T = "function(sroa,mem2reg)";
      else if (P == "norm") {
        std::string U = "function(sroa,early-cse,simplifycfg,loop-simplify,lcssa,loop(loop-rotate,indvars,loop-unroll-full),sroa,early-cse,simplifycfg)";
        T = "globaldce,cgscc(inline<only-mandatory>,function(sroa,early-cse,simplifycfg)),always-inline,globaldce," + U + "," + U + ",default<O2>," + U + ",function(instcombine<no-verify-fixpoint>,gvn,simplifycfg,dce,loop-simplify,lcssa)";
      }
      else if (P == "lite") T = "function(sroa,early-cse),always-inline,function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,sroa,early-cse<memssa>,simplifycfg)";
      if (auto E = PB.parsePassPipeline(MPM, T)) { errs() << "pipeline: " << toString(std::move(E)) << "\n"; return 2; }
    }
    MPM.run(*M, MAM);
  }
  std::error_code EC; raw_fd_ostream OS(Out, EC);
  if (EC) { errs() << EC.message() << "\n"; return 2; }
  json::OStream J(OS);
  Dumper D(M->getDataLayout(), J);
  J.object([&] {
    J.attributeArray("functions", [&] {
      for (auto &F : *M) if (!F.isDeclaration() && (ER.empty() || EntryNames.count(F.getName().str()))) { if (DumpLL) F.print(errs()); D.fn(F); }
    });
    J.attributeObject("consts", [&] { for (auto &F : *M) if (!F.isDeclaration() && F.size() == 1 && F.getReturnType()->isIntegerTy()) { auto *R = dyn_cast<ReturnInst>(F.front().getFirstNonPHIOrDbg()); if (R) if (auto *C = dyn_cast<ConstantInt>(R->getReturnValue())) J.attribute(F.getName(), C->getSExtValue()); } });
    J.attributeObject("decls", [&] { for (auto &F : *M) J.attribute(F.getName(), dem(F.getName())); });
    if (Globals) J.attributeArray("globals", [&] {
      for (auto &G : M->globals()) J.object([&] {
        J.attribute("name", G.getName()); J.attribute("dem", dem(G.getName())); J.attribute("const", G.isConstant());
        J.attribute("ty", D.tyStr(G.getValueType()));
        J.attribute("tls", G.isThreadLocal());
        J.attribute("decl", G.isDeclaration());
        if (G.hasInitializer()) { J.attribute("init", D.cst(G.getInitializer()));
          if (G.isConstant()) J.attributeArray("flat", [&] { unsigned n = 0; D.flat(G.getInitializer(), 0, n); }); }
      });
    });
    J.attributeArray("locs", [&] { J.value(""); for (auto &S : D.Locs) J.value(S); });
  });
  return 0;
}
