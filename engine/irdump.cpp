// irdump: canonicalises one LLVM module and writes its functions as JSON.
// Purely static: parses bitcode, runs simplification passes, prints IR + ScalarEvolution facts.
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/Regex.h"
#include "llvm/Demangle/Demangle.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static raw_ostream *OS;
static const DataLayout *DL;
static std::map<const Value *, int> VN;   // local numbering
static std::map<const BasicBlock *, int> BN;
static std::map<const Loop *, int> LN;

static void jstr(StringRef s) {
  *OS << '"';
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') *OS << '\\' << c;
    else if (c < 32 || c > 126) *OS << format("\\u%04x", c);
    else *OS << c;
  }
  *OS << '"';
}
static std::string tyname(Type *t) {
  std::string s; raw_string_ostream o(s);
  t->print(o, false, true); return o.str();
}
static void jint(const APInt &v) {
  SmallString<40> s; v.toString(s, 10, true);
  if (v.getBitWidth() <= 64) *OS << s; else { *OS << '"' << s << '"'; }
}
static void emitValue(const Value *v);
static void emitConst(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) { *OS << "[\"i\","; jint(ci->getValue()); *OS << "," << ci->getBitWidth() << "]"; return; }
  if (auto *cf = dyn_cast<ConstantFP>(c)) {
    SmallString<40> s; cf->getValueAPF().bitcastToAPInt().toString(s, 16, false);
    *OS << "[\"f\",\"" << s << "\",\"" << tyname(c->getType()) << "\"]"; return;
  }
  if (isa<ConstantPointerNull>(c)) { *OS << "[\"null\"]"; return; }
  if (isa<PoisonValue>(c) || isa<UndefValue>(c)) { *OS << "[\"undef\",\"" << tyname(c->getType()) << "\"]"; return; }
  if (auto *g = dyn_cast<GlobalValue>(c)) { *OS << "[\"g\","; jstr(g->getName()); *OS << "]"; return; }
  if (isa<ConstantAggregateZero>(c)) { *OS << "[\"zero\",\"" << tyname(c->getType()) << "\"]"; return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    *OS << "[\"v\",[";
    unsigned n = cd->getNumElements();
    if (n > 8192) { *OS << "],\"big\"]"; return; }
    for (unsigned i = 0; i < n; i++) { if (i) *OS << ","; emitConst(cd->getElementAsConstant(i)); }
    *OS << "]]"; return;
  }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
    *OS << "[\"v\",[";
    for (unsigned i = 0; i < ca->getNumOperands(); i++) { if (i) *OS << ","; emitConst(cast<Constant>(ca->getOperand(i))); }
    *OS << "]]"; return;
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (auto *gep = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (gep->accumulateConstantOffset(*DL, off)) {
        *OS << "[\"gep\","; emitValue(gep->getPointerOperand()); *OS << "," << off.getSExtValue() << "]"; return;
      }
    }
    *OS << "[\"ce\",\"" << ce->getOpcodeName() << "\"";
    for (auto &op : ce->operands()) { *OS << ","; emitValue(op.get()); }
    *OS << "]"; return;
  }
  *OS << "[\"const\",\"?\"]";
}
static void emitValue(const Value *v) {
  auto it = VN.find(v);
  if (it != VN.end()) { *OS << it->second; return; }
  if (auto *c = dyn_cast<Constant>(v)) { emitConst(c); return; }
  if (auto *b = dyn_cast<BasicBlock>(v)) { *OS << "[\"b\"," << BN[b] << "]"; return; }
  if (isa<MetadataAsValue>(v)) { *OS << "[\"md\"]"; return; }
  if (isa<InlineAsm>(v)) { *OS << "[\"asm\","; jstr(cast<InlineAsm>(v)->getAsmString()); *OS << "]"; return; }
  *OS << "[\"other\"]";
}
static void emitScev(const SCEV *s, ScalarEvolution &SE, int depth = 0) {
  if (depth > 40) { *OS << "[\"deep\"]"; return; }
  auto nary = [&](const char *n, const SCEVNAryExpr *e) {
    *OS << "[\"" << n << "\"";
    for (auto *o : e->operands()) { *OS << ","; emitScev(o, SE, depth + 1); }
    *OS << "]";
  };
  switch (s->getSCEVType()) {
  case scConstant: *OS << "[\"c\","; jint(cast<SCEVConstant>(s)->getAPInt()); *OS << "]"; return;
  case scUnknown: *OS << "[\"u\","; emitValue(cast<SCEVUnknown>(s)->getValue()); *OS << "]"; return;
  case scAddExpr: nary("add", cast<SCEVNAryExpr>(s)); return;
  case scMulExpr: nary("mul", cast<SCEVNAryExpr>(s)); return;
  case scSMaxExpr: nary("smax", cast<SCEVNAryExpr>(s)); return;
  case scUMaxExpr: nary("umax", cast<SCEVNAryExpr>(s)); return;
  case scSMinExpr: nary("smin", cast<SCEVNAryExpr>(s)); return;
  case scUMinExpr: nary("umin", cast<SCEVNAryExpr>(s)); return;
  case scSequentialUMinExpr: nary("umins", cast<SCEVNAryExpr>(s)); return;
  case scAddRecExpr: {
    auto *a = cast<SCEVAddRecExpr>(s);
    *OS << "[\"rec\"," << LN[a->getLoop()];
    for (auto *o : a->operands()) { *OS << ","; emitScev(o, SE, depth + 1); }
    *OS << "]"; return; }
  case scUDivExpr: { auto *u = cast<SCEVUDivExpr>(s);
    *OS << "[\"udiv\","; emitScev(u->getLHS(), SE, depth + 1); *OS << ","; emitScev(u->getRHS(), SE, depth + 1); *OS << "]"; return; }
  case scTruncate: case scZeroExtend: case scSignExtend: case scPtrToInt: {
    auto *c = cast<SCEVCastExpr>(s);
    const char *n = s->getSCEVType() == scTruncate ? "trunc" : s->getSCEVType() == scZeroExtend ? "zext" : s->getSCEVType() == scSignExtend ? "sext" : "p2i";
    *OS << "[\"" << n << "\","; emitScev(c->getOperand(), SE, depth + 1);
    *OS << "," << SE.getTypeSizeInBits(c->getOperand()->getType()) << "," << SE.getTypeSizeInBits(c->getType()) << "]"; return; }
  case scCouldNotCompute: *OS << "[\"cnc\"]"; return;
  default: *OS << "[\"?\"]"; return;
  }
}
static void emitLoc(const DebugLoc &d) {
  if (!d) { *OS << "null"; return; }
  *OS << "[";
  const DILocation *l = d.get(); bool first = true;
  while (l) {
    if (!first) *OS << ","; first = false;
    StringRef f = l->getFilename();
    *OS << "[";
    jstr(f.rsplit('/').second.empty() ? f : f.rsplit('/').second); *OS << "," << l->getLine() << "]";
    l = l->getInlinedAt();
  }
  *OS << "]";
}

static void dumpFunction(Function &F, FunctionAnalysisManager &FAM, bool scev) {
  auto &LI = FAM.getResult<LoopAnalysis>(F);
  auto &SE = FAM.getResult<ScalarEvolutionAnalysis>(F);
  VN.clear(); BN.clear(); LN.clear();
  int n = 0; for (auto &a : F.args()) VN[&a] = n++;
  int b = 0; for (auto &bb : F) BN[&bb] = b++;
  for (auto &bb : F) for (auto &i : bb) VN[&i] = n++;
  int ln = 0; for (auto *l : LI.getLoopsInPreorder()) LN[l] = ln++;
  *OS << "{\"name\":"; jstr(F.getName());
  *OS << ",\"dem\":"; jstr(demangle(F.getName().str()));
  *OS << ",\"internal\":" << (F.hasLocalLinkage() ? 1 : 0);
  *OS << ",\"linkage\":" << (int)F.getLinkage();
  if (auto *sp = F.getSubprogram()) {
    *OS << ",\"file\":"; StringRef f = sp->getFilename(); jstr(f.rsplit('/').second.empty() ? f : f.rsplit('/').second); *OS << ",\"line\":" << sp->getLine();
    *OS << ",\"src\":"; jstr(sp->getName());
  }
  *OS << ",\"args\":["; bool first = true;
  for (auto &a : F.args()) { if (!first) *OS << ","; first = false; *OS << "["; jstr(tyname(a.getType())); *OS << ","; jstr(a.getName()); *OS << "]"; }
  *OS << "],\"ret\":"; jstr(tyname(F.getReturnType()));
  *OS << ",\"loops\":["; first = true;
  for (auto *l : LI.getLoopsInPreorder()) {
    if (!first) *OS << ","; first = false;
    *OS << "{\"id\":" << LN[l] << ",\"header\":" << BN[l->getHeader()] << ",\"parent\":";
    if (l->getParentLoop()) *OS << LN[l->getParentLoop()]; else *OS << "null";
    *OS << ",\"blocks\":["; bool f2 = true; for (auto *bb : l->blocks()) { if (!f2) *OS << ","; f2 = false; *OS << BN[bb]; } *OS << "]";
    *OS << ",\"exiting\":["; f2 = true; SmallVector<BasicBlock *, 4> ex; l->getExitingBlocks(ex);
    for (auto *bb : ex) { if (!f2) *OS << ","; f2 = false; *OS << "[" << BN[bb] << ",";
      if (scev) emitScev(SE.getExitCount(l, bb), SE); else *OS << "null"; *OS << "]"; } *OS << "]";
    *OS << ",\"btc\":"; if (scev) emitScev(SE.getBackedgeTakenCount(l), SE); else *OS << "null";
    *OS << "}";
  }
  *OS << "],\"blocks\":["; first = true;
  for (auto &bb : F) {
    if (!first) *OS << ",\n"; first = false;
    *OS << "{\"id\":" << BN[&bb] << ",\"loop\":"; if (auto *l = LI.getLoopFor(&bb)) *OS << LN[l]; else *OS << "null";
    *OS << ",\"ins\":["; bool f2 = true;
    for (auto &I : bb) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      if (auto *ii = dyn_cast<IntrinsicInst>(&I)) {
        if (ii->getIntrinsicID() == Intrinsic::lifetime_start || ii->getIntrinsicID() == Intrinsic::lifetime_end || ii->getIntrinsicID() == Intrinsic::experimental_noalias_scope_decl) continue;
      }
      if (!f2) *OS << ","; f2 = false;
      *OS << "{\"o\":\"" << I.getOpcodeName() << "\",\"id\":" << VN[&I] << ",\"t\":"; jstr(tyname(I.getType()));
      if (auto *c = dyn_cast<CmpInst>(&I)) { *OS << ",\"p\":"; jstr(CmpInst::getPredicateName(c->getPredicate())); }
      if (auto *phi = dyn_cast<PHINode>(&I)) {
        *OS << ",\"in\":[";
        for (unsigned i = 0; i < phi->getNumIncomingValues(); i++) { if (i) *OS << ","; *OS << "["; emitValue(phi->getIncomingValue(i)); *OS << "," << BN[phi->getIncomingBlock(i)] << "]"; }
        *OS << "]";
      } else if (auto *cb = dyn_cast<CallBase>(&I)) {
        *OS << ",\"callee\":"; emitValue(cb->getCalledOperand()->stripPointerCasts());
        *OS << ",\"a\":["; bool f3 = true;
        for (auto &a : cb->args()) { if (!f3) *OS << ","; f3 = false; emitValue(a.get()); }
        *OS << "]";
        if (scev && !cb->arg_empty()) {
          *OS << ",\"as\":["; f3 = true;
          for (auto &a : cb->args()) { if (!f3) *OS << ","; f3 = false;
            if (SE.isSCEVable(a->getType())) emitScev(SE.getSCEV(a.get()), SE); else *OS << "null"; }
          *OS << "]";
        }
        if (auto *inv = dyn_cast<InvokeInst>(&I)) *OS << ",\"s\":[" << BN[inv->getNormalDest()] << "," << BN[inv->getUnwindDest()] << "]";
      } else {
        *OS << ",\"a\":["; bool f3 = true;
        for (auto &a : I.operands()) { if (isa<BasicBlock>(a.get())) continue; if (!f3) *OS << ","; f3 = false; emitValue(a.get()); }
        *OS << "]";
      }
      if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        APInt off(64, 0); MapVector<Value *, APInt> var;
        if (g->collectOffset(*DL, 64, var, off)) {
          *OS << ",\"off\":" << off.getSExtValue() << ",\"var\":["; bool f3 = true;
          for (auto &kv : var) { if (!f3) *OS << ","; f3 = false; *OS << "["; emitValue(kv.first); *OS << "," << kv.second.getSExtValue() << "]"; }
          *OS << "]";
        }
        *OS << ",\"sty\":"; jstr(tyname(g->getSourceElementType()));
      }
      if (auto *l = dyn_cast<LoadInst>(&I)) { *OS << ",\"al\":" << l->getAlign().value() << ",\"sz\":" << DL->getTypeStoreSize(l->getType()).getFixedValue() << ",\"at\":" << (int)l->isAtomic() << ",\"vol\":" << (int)l->isVolatile();
        if (scev) { *OS << ",\"ps\":"; emitScev(SE.getSCEV(l->getPointerOperand()), SE); } }
      if (auto *l = dyn_cast<StoreInst>(&I)) { *OS << ",\"al\":" << l->getAlign().value() << ",\"sz\":" << DL->getTypeStoreSize(l->getValueOperand()->getType()).getFixedValue() << ",\"vt\":"; jstr(tyname(l->getValueOperand()->getType())); *OS << ",\"at\":" << (int)l->isAtomic() << ",\"vol\":" << (int)l->isVolatile();
        if (scev) { *OS << ",\"ps\":"; emitScev(SE.getSCEV(l->getPointerOperand()), SE); } }
      if (auto *l = dyn_cast<AtomicRMWInst>(&I)) { *OS << ",\"rmw\":"; jstr(AtomicRMWInst::getOperationName(l->getOperation())); *OS << ",\"sz\":" << DL->getTypeStoreSize(l->getValOperand()->getType()).getFixedValue(); }
      if (auto *al = dyn_cast<AllocaInst>(&I)) { *OS << ",\"asz\":" << DL->getTypeAllocSize(al->getAllocatedType()).getFixedValue() << ",\"aty\":"; jstr(tyname(al->getAllocatedType())); }
      if (auto *sw = dyn_cast<SwitchInst>(&I)) {
        *OS << ",\"def\":" << BN[sw->getDefaultDest()] << ",\"cases\":["; bool f3 = true;
        for (auto &c : sw->cases()) { if (!f3) *OS << ","; f3 = false; *OS << "["; jint(c.getCaseValue()->getValue()); *OS << "," << BN[c.getCaseSuccessor()] << "]"; }
        *OS << "]";
      }
      if (auto *br = dyn_cast<BranchInst>(&I)) { *OS << ",\"s\":["; for (unsigned i = 0; i < br->getNumSuccessors(); i++) { if (i) *OS << ","; *OS << BN[br->getSuccessor(i)]; } *OS << "]"; }
      if (auto *c = dyn_cast<CastInst>(&I)) { *OS << ",\"st\":"; jstr(tyname(c->getSrcTy())); }
      if (auto *sv = dyn_cast<ShuffleVectorInst>(&I)) { *OS << ",\"mask\":["; bool f3 = true; for (int m : sv->getShuffleMask()) { if (!f3) *OS << ","; f3 = false; *OS << m; } *OS << "]"; }
      if (isa<ExtractValueInst>(&I) || isa<InsertValueInst>(&I)) { auto ix = isa<ExtractValueInst>(&I) ? cast<ExtractValueInst>(&I)->getIndices() : cast<InsertValueInst>(&I)->getIndices(); *OS << ",\"ix\":["; bool f3 = true; for (unsigned m : ix) { if (!f3) *OS << ","; f3 = false; *OS << m; } *OS << "]"; }
      if (scev && I.getType()->isIntegerTy() && SE.isSCEVable(I.getType()) && (isa<PHINode>(I) || isa<BinaryOperator>(I) || isa<CastInst>(I) || isa<SelectInst>(I))) { *OS << ",\"sc\":"; emitScev(SE.getSCEV(&I), SE); }
      if (scev && I.getType()->isPointerTy() && (isa<PHINode>(I) || isa<GetElementPtrInst>(I)|| isa<SelectInst>(I))) { *OS << ",\"sc\":"; emitScev(SE.getSCEV(&I), SE); }
      *OS << ",\"l\":"; emitLoc(I.getDebugLoc());
      *OS << "}";
    }
    *OS << "]}";
  }
  *OS << "]}";
}

int main(int argc, char **argv) {
  std::string in, out, mode = "flat", keep, only; unsigned maxsz = 100000, budget = 60000;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a.rfind("--mode=", 0) == 0) mode = a.substr(7);
    else if (a.rfind("--keep=", 0) == 0) keep = a.substr(7);
    else if (a.rfind("--only=", 0) == 0) only = a.substr(7);
    else if (a.rfind("--budget=", 0) == 0) budget = atoi(a.substr(9).c_str());
    else if (in.empty()) in = a; else out = a;
  }
  LLVMContext C; SMDiagnostic Err;
  auto M = parseIRFile(in, Err, C);
  if (!M) { Err.print("irdump", errs()); return 2; }
  DL = &M->getDataLayout();
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  for (auto &F : *M) { F.removeFnAttr(Attribute::OptimizeNone); }
  auto run = [&](const char *p) { ModulePassManager MPM; if (auto e = PB.parsePassPipeline(MPM, p)) { errs() << "pipeline: " << toString(std::move(e)) << "\n"; exit(2); } MPM.run(*M, MAM); };
  if (mode == "raw") {
    run("function(sroa,mem2reg,simplifycfg)");
  } else {
    run("function(sroa,early-cse,simplifycfg)");
    Regex K(keep);
    // bottom-up inline-everything with a per-callee growth budget
    std::map<const Function *, unsigned> sites;
    for (auto &F : *M) for (auto &I : instructions(F)) if (auto *cb = dyn_cast<CallBase>(&I)) if (auto *c = cb->getCalledFunction()) sites[c]++;
    for (auto &F : *M) {
      if (F.isDeclaration()) continue;
      F.removeFnAttr(Attribute::AlwaysInline);
      F.removeFnAttr(Attribute::NoInline);
      unsigned sz = F.getInstructionCount();
      bool kp = (!keep.empty() && K.match(F.getName())) || F.isInterposable() && false;
      if (kp) { F.addFnAttr(Attribute::NoInline); continue; }
      if (sz > maxsz || (sz > 40 && (uint64_t)sz * sites[&F] > budget)) { F.addFnAttr(Attribute::NoInline); continue; }
      F.addFnAttr(Attribute::AlwaysInline);
    }
    run("always-inline");
    run("function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg<no-sink-common-insts;no-hoist-common-insts>)");
    if (mode == "flat")
      run("function(loop-simplify,lcssa,loop-mssa(licm),gvn,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,lcssa,loop(indvars),instcombine<no-verify-fixpoint>,adce,loop-simplify,lcssa)");
  }
  std::error_code EC; raw_fd_ostream FO(out.empty() ? "-" : out, EC); OS = &FO;
  FO << "{\"globals\":["; bool first = true;
  VN.clear();
  for (auto &G : M->globals()) {
    if (!first) FO << ",\n"; first = false;
    FO << "{\"name\":"; jstr(G.getName()); FO << ",\"t\":"; jstr(tyname(G.getValueType())); FO << ",\"sz\":" << (G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 0) << ",\"const\":" << (int)G.isConstant() << ",\"tls\":" << (int)G.isThreadLocal() << ",\"internal\":" << (int)G.hasLocalLinkage() << ",\"init\":";
    if (G.hasInitializer()) emitConst(G.getInitializer()); else FO << "null"; FO << "}";
  }
  FO << "],\"structs\":{"; first = true;
  for (auto *ST : M->getIdentifiedStructTypes()) {
    if (ST->isOpaque() || !ST->isSized()) continue;
    if (!first) FO << ",\n"; first = false;
    jstr(ST->getName()); FO << ":["; auto *SL = DL->getStructLayout(ST);
    for (unsigned i = 0; i < ST->getNumElements(); i++) { if (i) FO << ","; FO << "[" << SL->getElementOffset(i).getFixedValue() << ","; jstr(tyname(ST->getElementType(i))); FO << "]"; }
    FO << "]";
  }
  FO << "},\"decls\":["; first = true;
  for (auto &F : *M) if (F.isDeclaration()) { if (!first) FO << ","; first = false; jstr(F.getName()); }
  FO << "],\"functions\":[\n"; first = true;
  Regex R(only);
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    if (!only.empty() && !R.match(F.getName())) continue;
    if (!first) FO << ",\n"; first = false;
    dumpFunction(F, FAM, mode != "raw");
  }
  FO << "]}\n";
  return 0;
}
