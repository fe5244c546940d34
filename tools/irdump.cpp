// irdump: normalise LLVM bitcode (inline the repository's own functions and trivial library
// accessors, promote to SSA) and write the functions as JSON for the Python analyses.
#include "llvm/ADT/StringSet.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/LoopPeel.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/IR/Dominators.h"
#include <map>
#include <set>
#include <functional>

using namespace llvm;

static cl::opt<std::string> In(cl::Positional, cl::Required);
static cl::opt<std::string> Out("o", cl::Required);
static cl::opt<std::string> Repo("repo", cl::init("/repo/"));
static cl::list<std::string> InlineRe("inline");       // extra functions to inline
static cl::list<std::string> NoInlineRe("noinline");   // never inline these
static cl::opt<bool> NoRepoInline("no-repo-inline");
static cl::list<std::string> ReachRe("reach");         // inline only what leads to these functions, and small accessors
static cl::list<std::string> RootRe("root");           // which functions to dump (default: all repo)
static cl::opt<std::string> Passes("passes", cl::init(
  "function(sroa,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg,sroa,early-cse<memssa>,adce,loop-simplify)"));
static cl::opt<bool> AllFns("all");
static cl::opt<std::string> Peel("peel", cl::init(""));        // passes to run after splitting the first iteration off every outermost loop

static std::map<const Function*, std::string> Dem;
static std::string dem(const Function &F) {
  auto it = Dem.find(&F);
  if (it != Dem.end()) return it->second;
  return Dem[&F] = demangle(F.getName().str());
}
static std::string fileOf(const DIScope *S) {
  if (!S || !S->getFile()) return "";
  std::string d = S->getFile()->getDirectory().str(), f = S->getFile()->getFilename().str();
  if (!f.empty() && f[0] == '/') return f;
  return d.empty() ? f : d + "/" + f;
}
static bool inRepo(const Function &F) {
  if (auto *SP = F.getSubprogram()) return fileOf(SP).rfind(Repo, 0) == 0;
  return false;
}
static bool matchAny(std::vector<Regex> &R, const std::string &s) {
  for (auto &r : R) if (r.match(s)) return true;
  return false;
}

static json::Value valJ(const Value *V, std::map<const Value*, int> &ids, std::map<const BasicBlock*, int> &bbs,
                        const DataLayout &DL, int depth = 0);

static json::Object gepJ(const GEPOperator *G, std::map<const Value*, int> &ids, std::map<const BasicBlock*, int> &bbs, const DataLayout &DL, int depth) {
  json::Object o;
  unsigned W = DL.getIndexSizeInBits(G->getPointerAddressSpace());
  MapVector<Value*, APInt> Var; APInt C(W, 0);
  bool ok = G->collectOffset(DL, W, Var, C);
  o["ok"] = ok;
  o["coff"] = C.getSExtValue();
  json::Array va;
  for (auto &p : Var) {
    json::Array e; e.push_back(valJ(p.first, ids, bbs, DL, depth+1)); e.push_back((int64_t)p.second.getSExtValue());
    va.push_back(std::move(e));
  }
  o["var"] = std::move(va);
  o["inb"] = G->isInBounds();
  std::string ts; raw_string_ostream os(ts); G->getSourceElementType()->print(os, false, true);
  o["sty"] = os.str();
  json::Array idx;
  for (auto &I : G->indices()) {
    if (auto *CI = dyn_cast<ConstantInt>(I.get())) idx.push_back((int64_t)CI->getSExtValue());
    else idx.push_back(nullptr);
  }
  o["idx"] = std::move(idx);
  return o;
}

static json::Value valJ(const Value *V, std::map<const Value*, int> &ids, std::map<const BasicBlock*, int> &bbs,
                        const DataLayout &DL, int depth) {
  json::Object o;
  if (auto *CI = dyn_cast<ConstantInt>(V)) {
    o["k"] = "c"; o["w"] = (int)CI->getBitWidth();
    SmallString<32> s; CI->getValue().toStringUnsigned(s); o["v"] = std::string(s.str());
  } else if (auto *CF = dyn_cast<ConstantFP>(V)) {
    o["k"] = "f"; SmallString<32> s; CF->getValueAPF().toString(s); o["v"] = std::string(s.str());
  } else if (isa<ConstantPointerNull>(V)) {
    o["k"] = "null";
  } else if (isa<PoisonValue>(V) || isa<UndefValue>(V)) {
    o["k"] = "undef";
  } else if (auto *F = dyn_cast<Function>(V)) {
    o["k"] = "fn"; o["n"] = F->getName().str();
  } else if (auto *GV = dyn_cast<GlobalVariable>(V)) {
    o["k"] = "g"; o["n"] = GV->getName().str(); o["const"] = GV->isConstant();
    if (GV->hasInitializer() && GV->isConstant())
      if (auto *CD = dyn_cast<ConstantDataSequential>(GV->getInitializer()))
        if (CD->isString() || CD->isCString()) { std::string str = CD->getRawDataValues().str(); o["s"] = json::fixUTF8(str); }
  } else if (auto *A = dyn_cast<Argument>(V)) {
    o["k"] = "a"; o["v"] = (int)A->getArgNo();
  } else if (auto *BB = dyn_cast<BasicBlock>(V)) {
    o["k"] = "bb"; o["v"] = bbs[BB];
  } else if (isa<Instruction>(V)) {
    o["k"] = "i"; o["v"] = ids[V];
  } else if (auto *CE = dyn_cast<ConstantExpr>(V)) {
    o["k"] = "ce"; o["op"] = CE->getOpcodeName();
    if (auto *G = dyn_cast<GEPOperator>(CE)) o["gep"] = gepJ(G, ids, bbs, DL, depth);
    json::Array a; if (depth < 6) for (auto &U : CE->operands()) a.push_back(valJ(U.get(), ids, bbs, DL, depth+1));
    o["ops"] = std::move(a);
  } else if (isa<ConstantAggregateZero>(V)) { o["k"] = "zero";
  } else if (auto *CA = dyn_cast<ConstantAggregate>(V)) { o["k"] = "agg";
    json::Array a; if (depth < 6) for (auto &U : CA->operands()) a.push_back(valJ(U.get(), ids, bbs, DL, depth+1));
    o["ops"] = std::move(a);
  } else if (auto *CDS = dyn_cast<ConstantDataSequential>(V)) { o["k"] = "agg";
    json::Array a; for (unsigned i = 0; i < CDS->getNumElements() && i < 4096; ++i) a.push_back(valJ(CDS->getElementAsConstant(i), ids, bbs, DL, depth+1));
    o["ops"] = std::move(a);
  } else { o["k"] = "?"; }
  std::string ts; raw_string_ostream os(ts); V->getType()->print(os, false, true); o["t"] = os.str();
  return json::Value(std::move(o));
}

static std::string diTypeName(const DIType *T, int depth = 0) {
  if (!T || depth > 12) return "void";
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    std::string b = diTypeName(D->getBaseType(), depth+1);
    switch (D->getTag()) {
      case dwarf::DW_TAG_pointer_type: return b + "*";
      case dwarf::DW_TAG_reference_type: return b + "&";
      case dwarf::DW_TAG_rvalue_reference_type: return b + "&&";
      case dwarf::DW_TAG_const_type: return "const " + b;
      case dwarf::DW_TAG_typedef: return b;
      default: return b;
    }
  }
  std::string n = T->getName().str();
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    std::string pre;
    for (auto *S = C->getScope(); S; S = S->getScope()) {
      if (auto *N = dyn_cast<DINamespace>(S)) pre = (N->getName().empty() ? "(anonymous namespace)" : N->getName().str()) + "::" + pre;
      else if (auto *TT = dyn_cast<DIType>(S)) pre = TT->getName().str() + "::" + pre;
      else break;
    }
    n = pre + n;
  }
  return n;
}

static json::Value typeLayout(StructType *ST, const DataLayout &DL) {
  json::Array a;
  if (ST->isOpaque()) return json::Value(std::move(a));
  auto *L = DL.getStructLayout(ST);
  for (unsigned i = 0; i < ST->getNumElements(); ++i) {
    std::string ts; raw_string_ostream os(ts); ST->getElementType(i)->print(os, false, true);
    json::Array e; e.push_back((int64_t)L->getElementOffset(i)); e.push_back(os.str());
    a.push_back(std::move(e));
  }
  return json::Value(std::move(a));
}

int main(int argc, char **argv) {
  cl::ParseCommandLineOptions(argc, argv);
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(In, Err, Ctx);
  if (!M) { Err.print("irdump", errs()); return 2; }
  const DataLayout &DL = M->getDataLayout();
  std::vector<Regex> inl, noinl, roots;
  for (auto &s : InlineRe) inl.emplace_back(s);
  for (auto &s : NoInlineRe) noinl.emplace_back(s);
  for (auto &s : RootRe) roots.emplace_back(s);

  // constructors and destructors emitted as aliases of one another: call the body directly
  for (auto &A : M->aliases()) if (auto *F = dyn_cast<Function>(A.getAliasee()->stripPointerCasts())) A.replaceAllUsesWith(F);

  // recursion: never inline functions in a call-graph cycle (direct calls)
  std::map<Function*, std::set<Function*>> cg;
  for (auto &F : *M) for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *C = CB->getCalledFunction()) cg[&F].insert(C);
  std::set<Function*> rec;
  {
    std::map<Function*, int> idx, low; std::vector<Function*> st; std::set<Function*> on; int n = 0;
    std::function<void(Function*)> dfs = [&](Function *f) {
      idx[f] = low[f] = n++; st.push_back(f); on.insert(f);
      for (auto *g : cg[f]) { if (!idx.count(g)) { dfs(g); low[f] = std::min(low[f], low[g]); } else if (on.count(g)) low[f] = std::min(low[f], idx[g]); }
      if (low[f] == idx[f]) { std::vector<Function*> c; for (;;) { auto *g = st.back(); st.pop_back(); on.erase(g); c.push_back(g); if (g == f) break; }
        if (c.size() > 1) for (auto *g : c) rec.insert(g); else if (cg[f].count(f)) rec.insert(f); }
    };
    for (auto &F : *M) if (!idx.count(&F)) dfs(&F);
  }
  std::vector<Regex> reachRe;
  for (auto &s : ReachRe) reachRe.emplace_back(s);
  std::set<Function*> leads, anchors;
  if (!ReachRe.empty()) {
    std::map<Function*, std::vector<Function*>> callers; std::vector<Function*> st;
    for (auto &p : cg) for (auto *g : p.second) callers[g].push_back(p.first);
    for (auto &F : *M) if (matchAny(reachRe, dem(F))) { anchors.insert(&F); st.push_back(&F); }
    while (!st.empty()) { auto *f = st.back(); st.pop_back(); for (auto *c : callers[f]) if (!anchors.count(c) && leads.insert(c).second) st.push_back(c); }
  }
  std::set<const Function*> toInline;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::AlwaysInline);
    std::string d = dem(F);
    bool in = (!NoRepoInline && inRepo(F) && F.getName() != "main") || matchAny(inl, d);
    if (!ReachRe.empty()) {
      in = (leads.count(&F) && F.getName() != "main") || matchAny(inl, d) || (inRepo(F) && F.getInstructionCount() <= 40);
      if (anchors.count(&F)) in = false;
    }
    if (matchAny(noinl, d) || rec.count(&F)) in = false;
    if (F.getName().starts_with("_GLOBAL__sub") || F.getName().starts_with("__cxx_global")) in = false;
    if (in) toInline.insert(&F);
  }
  // inline bottom-up by hand so that the original bodies stay available as roots
  std::set<Function*> done;
  std::function<void(Function*)> proc = [&](Function *F) {
    if (F->isDeclaration() || !done.insert(F).second) return;
    std::vector<CallBase*> calls;
    for (auto &I : instructions(*F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *C = CB->getCalledFunction()) { proc(C); if (toInline.count(C)) calls.push_back(CB); }
    for (auto *CB : calls) { InlineFunctionInfo IFI; InlineFunction(*CB, IFI); }
  };
  std::vector<Function*> dumpFns;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    bool want = roots.empty() ? (inRepo(F) || F.getName() == "main") : matchAny(roots, dem(F));
    if (AllFns) want = true;
    if (want) dumpFns.push_back(&F);
  }
  for (auto *F : dumpFns) proc(F);
  // drop everything that is not reachable from the dumped functions' bodies being processed (cheap: only optimise dumped ones)
  {
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    std::string P = Passes; 
    if (P.rfind("function(", 0) == 0) P = P.substr(9, P.size()-10);
    FunctionPassManager FPM;
    if (auto e = PB.parsePassPipeline(FPM, P)) { errs() << toString(std::move(e)) << "\n"; return 2; }
    for (auto *F : dumpFns) FPM.run(*F, FAM);
    if (!Peel.empty()) {
      FunctionPassManager PM;
      if (auto e = PB.parsePassPipeline(PM, Peel)) { errs() << toString(std::move(e)) << "\n"; return 2; }
      for (auto *F : dumpFns) {
        FAM.invalidate(*F, PreservedAnalyses::none());
        auto &LI = FAM.getResult<LoopAnalysis>(*F); auto &SE = FAM.getResult<ScalarEvolutionAnalysis>(*F);
        auto &DT = FAM.getResult<DominatorTreeAnalysis>(*F); auto &AC = FAM.getResult<AssumptionAnalysis>(*F);
        std::vector<Loop*> tops(LI.begin(), LI.end());
        for (auto *L : tops) if (canPeel(L)) { ValueToValueMapTy VM; peelLoop(L, 1, &LI, &SE, DT, &AC, true, VM); }
        FAM.invalidate(*F, PreservedAnalyses::none());
        PM.run(*F, FAM);
      }
    }
  }
  json::Object root; json::Array fns;
  std::set<StructType*> structs;
  for (auto *F : dumpFns) {
    std::map<const Value*, int> ids; std::map<const BasicBlock*, int> bbs; int n = 0, b = 0;
    for (auto &BB : *F) { bbs[&BB] = b++; for (auto &I : BB) { if (isa<DbgInfoIntrinsic>(I)) continue; ids[&I] = n++; } }
    json::Object fo;
    fo["name"] = F->getName().str(); fo["dem"] = dem(*F); fo["repo"] = inRepo(*F);
    fo["linkage"] = F->hasLocalLinkage();
    json::Array params;
    auto *SP = F->getSubprogram();
    if (SP) { fo["file"] = fileOf(SP); fo["line"] = (int)SP->getLine(); }
    // DI parameter types
    std::map<unsigned, std::pair<std::string,std::string>> dip;
    if (SP) for (auto *N : SP->getRetainedNodes()) if (auto *LV = dyn_cast<DILocalVariable>(N)) if (LV->getArg()) dip[LV->getArg()] = {LV->getName().str(), diTypeName(LV->getType())};
    // local variable names: value -> (name,type)
    std::map<const Value*, std::pair<std::string,std::string>> vnames;
    for (auto &I : instructions(*F)) if (auto *DV = dyn_cast<DbgVariableIntrinsic>(&I)) {
      if (DV->getNumVariableLocationOps() != 1) continue;
      auto *V = DV->getVariableLocationOp(0); if (!V) continue;
      if (auto *A = dyn_cast<Argument>(V)) { if (DV->getVariable()->getArg() && !DV->getDebugLoc().getInlinedAt()) dip[1000 + A->getArgNo()] = {DV->getVariable()->getName().str(), diTypeName(DV->getVariable()->getType())}; }
      if (DV->getExpression() && DV->getExpression()->getNumElements() == 0 && !vnames.count(V)) vnames[V] = {DV->getVariable()->getName().str(), diTypeName(DV->getVariable()->getType())};
    }
    for (auto &A : F->args()) {
      json::Object p; std::string ts; raw_string_ostream os(ts); A.getType()->print(os, false, true); p["t"] = os.str();
      p["sret"] = A.hasStructRetAttr(); p["byval"] = A.hasByValAttr();
      p["deref"] = (int64_t)A.getDereferenceableBytes();
      p["readonly"] = A.onlyReadsMemory();
      auto it = dip.find(1000 + A.getArgNo());
      if (it != dip.end()) { p["n"] = it->second.first; p["di"] = it->second.second; }
      params.push_back(std::move(p));
    }
    json::Array dis; for (auto &e : dip) if (e.first < 1000) { json::Object p; p["no"] = (int)e.first; p["n"] = e.second.first; p["di"] = e.second.second; dis.push_back(std::move(p)); }
    fo["diparams"] = std::move(dis);
    fo["params"] = std::move(params);
    { std::string ts; raw_string_ostream os(ts); F->getReturnType()->print(os, false, true); fo["ret"] = os.str(); }
    json::Array blocks;
    for (auto &BB : *F) {
      json::Array insts;
      for (auto &I : BB) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        json::Object o; o["id"] = ids[&I]; o["op"] = I.getOpcodeName();
        { std::string ts; raw_string_ostream os(ts); I.getType()->print(os, false, true); o["t"] = os.str(); }
        if (auto L = I.getDebugLoc()) {
          o["line"] = (int)L.getLine(); o["file"] = fileOf(cast<DIScope>(L.getScope()));
          if (auto *S = L->getScope()->getSubprogram()) o["in"] = S->getName().str();
          json::Array chain; for (auto *IA = L.getInlinedAt(); IA; IA = IA->getInlinedAt()) { json::Object c; c["line"] = (int)IA->getLine(); c["file"] = fileOf(IA->getScope()); if (auto *S = IA->getScope()->getSubprogram()) c["in"] = S->getName().str(); chain.push_back(std::move(c)); }
          if (!chain.empty()) o["inl"] = std::move(chain);
        }
        auto vn = vnames.find(&I);
        if (vn != vnames.end()) { o["var"] = vn->second.first; o["vdi"] = vn->second.second; }
        json::Array ops;
        if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          ops.push_back(valJ(G->getPointerOperand(), ids, bbs, DL));
          o["gep"] = gepJ(cast<GEPOperator>(G), ids, bbs, DL, 0);
          if (auto *ST = dyn_cast<StructType>(G->getSourceElementType())) structs.insert(ST);
        } else if (auto *P = dyn_cast<PHINode>(&I)) {
          for (unsigned k = 0; k < P->getNumIncomingValues(); ++k) {
            json::Array e; e.push_back(valJ(P->getIncomingValue(k), ids, bbs, DL)); e.push_back(bbs[P->getIncomingBlock(k)]); ops.push_back(std::move(e));
          }
        } else if (auto *CB = dyn_cast<CallBase>(&I)) {
          json::Array at;
          for (unsigned k = 0; k < CB->arg_size(); ++k) {
            ops.push_back(valJ(CB->getArgOperand(k), ids, bbs, DL));
            json::Object a; 
            if (CB->paramHasAttr(k, Attribute::StructRet)) { a["sret"] = true; a["sz"] = (int64_t)DL.getTypeAllocSize(CB->getParamStructRetType(k)).getFixedValue(); }
            if (CB->paramHasAttr(k, Attribute::ByVal)) a["byval"] = true;
            if (CB->onlyReadsMemory(k) || CB->doesNotAccessMemory(k)) a["ro"] = true;
            a["deref"] = (int64_t)CB->getParamDereferenceableBytes(k);
            at.push_back(std::move(a));
          }
          o["pattr"] = std::move(at);
          if (auto *C = CB->getCalledFunction()) { o["callee"] = C->getName().str(); o["dem"] = dem(*C); o["intr"] = C->isIntrinsic(); o["crepo"] = inRepo(*C); o["cdef"] = !C->isDeclaration(); if (auto *SP2 = C->getSubprogram()) o["cfile"] = fileOf(SP2); }
          else o["indirect"] = valJ(CB->getCalledOperand(), ids, bbs, DL);
          o["ro"] = CB->onlyReadsMemory(); o["rn"] = CB->doesNotAccessMemory(); o["nothrow"] = CB->doesNotThrow(); o["noret"] = CB->doesNotReturn();
          if (auto *II = dyn_cast<InvokeInst>(&I)) { o["succ"] = json::Array{bbs[II->getNormalDest()], bbs[II->getUnwindDest()]}; }
        } else {
          for (auto &U : I.operands()) ops.push_back(valJ(U.get(), ids, bbs, DL));
        }
        o["ops"] = std::move(ops);
        if (auto *C = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(C->getPredicate()).str();
        if (auto *OB = dyn_cast<OverflowingBinaryOperator>(&I)) { o["nuw"] = OB->hasNoUnsignedWrap(); o["nsw"] = OB->hasNoSignedWrap(); }
        if (auto *PE = dyn_cast<PossiblyExactOperator>(&I)) o["exact"] = PE->isExact();
        if (auto *PD = dyn_cast<PossiblyDisjointInst>(&I)) o["disjoint"] = PD->isDisjoint();
        if (auto *PN = dyn_cast<PossiblyNonNegInst>(&I)) o["nneg"] = PN->hasNonNeg();
        if (auto *L = dyn_cast<LoadInst>(&I)) { o["sz"] = (int64_t)DL.getTypeStoreSize(L->getType()).getFixedValue(); }
        if (auto *S = dyn_cast<StoreInst>(&I)) { o["sz"] = (int64_t)DL.getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue(); std::string ts; raw_string_ostream os(ts); S->getValueOperand()->getType()->print(os, false, true); o["st"] = os.str(); }
        if (auto *A = dyn_cast<AllocaInst>(&I)) { auto s = A->getAllocationSize(DL); o["sz"] = s ? (int64_t)s->getFixedValue() : -1; std::string ts; raw_string_ostream os(ts); A->getAllocatedType()->print(os, false, true); o["at"] = os.str(); if (auto *ST = dyn_cast<StructType>(A->getAllocatedType())) structs.insert(ST); }
        if (auto *B = dyn_cast<BranchInst>(&I)) { json::Array s; for (unsigned k = 0; k < B->getNumSuccessors(); ++k) s.push_back(bbs[B->getSuccessor(k)]); o["succ"] = std::move(s); if (B->isConditional()) o["cond"] = valJ(B->getCondition(), ids, bbs, DL); }
        if (auto *S = dyn_cast<SwitchInst>(&I)) { json::Array s; s.push_back(bbs[S->getDefaultDest()]); json::Array cs; for (auto &c : S->cases()) { json::Array e; SmallString<32> v; c.getCaseValue()->getValue().toStringUnsigned(v); e.push_back(std::string(v.str())); e.push_back(bbs[c.getCaseSuccessor()]); cs.push_back(std::move(e)); s.push_back(bbs[c.getCaseSuccessor()]); } o["cases"] = std::move(cs); o["succ"] = std::move(s); o["cond"] = valJ(S->getCondition(), ids, bbs, DL); }
        if (auto *EV = dyn_cast<ExtractValueInst>(&I)) { json::Array x; for (auto k : EV->indices()) x.push_back((int)k); o["xi"] = std::move(x); }
        if (auto *IV = dyn_cast<InsertValueInst>(&I)) { json::Array x; for (auto k : IV->indices()) x.push_back((int)k); o["xi"] = std::move(x); }
        if (auto *LP = dyn_cast<LandingPadInst>(&I)) { o["cleanup"] = LP->isCleanup(); o["nclauses"] = (int)LP->getNumClauses(); }
        insts.push_back(std::move(o));
      }
      blocks.push_back(std::move(insts));
    }
    fo["blocks"] = std::move(blocks);
    fns.push_back(std::move(fo));
  }
  root["functions"] = std::move(fns);
  json::Object so; for (auto *S : structs) if (S->hasName()) so[S->getName()] = typeLayout(S, DL);
  root["structs"] = std::move(so);
  json::Array gl;
  for (auto &G : M->globals()) { json::Object o; o["n"] = G.getName().str(); o["const"] = G.isConstant(); o["decl"] = G.isDeclaration();
    SmallVector<DIGlobalVariableExpression*, 1> E; G.getDebugInfo(E); if (!E.empty()) { o["file"] = fileOf(E[0]->getVariable()->getFile()); o["line"] = (int)E[0]->getVariable()->getLine(); o["name"] = E[0]->getVariable()->getName().str(); o["di"] = diTypeName(E[0]->getVariable()->getType()); }
    gl.push_back(std::move(o)); }
  root["globals"] = std::move(gl);
  std::error_code EC; raw_fd_ostream OS(Out, EC); if (EC) { errs() << EC.message() << "\n"; return 2; }
  OS << json::Value(std::move(root)); return 0;
}
