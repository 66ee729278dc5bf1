// vtdump: normalise an LLVM module compiled from /repo and dump the resolved
// program (CFG, loops, SCEV, debug locations, record layouts) as JSON.
// usage: vtdump IN.bc OUT.json CONFIG
//  CONFIG lines:  root <regex on demangled name>
//                 keep <regex>     (never inline a function matching)
//                 passes <pipeline> (function pipeline text)
//                 mode raw         (no inlining/normalisation, only mem2reg-like pipeline)
#include "llvm/ADT/StringExtras.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/PostDominators.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <regex>
#include <set>
#include <sstream>
using namespace llvm;

static std::vector<std::regex> Roots, Keeps;
static std::string Passes =
    "sroa<modify-cfg>,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,"
    "sroa<modify-cfg>,gvn,simplifycfg,instcombine<no-verify-fixpoint>,loop-simplify,"
    "lcssa,loop-mssa(licm),loop(indvars),early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify";
static bool Raw = false, NoEH = false;

static std::string dem(StringRef n) { return demangle(std::string(n)); }
static bool match(const std::vector<std::regex> &rs, const std::string &s) {
  for (auto &r : rs)
    if (std::regex_search(s, r)) return true;
  return false;
}

struct Dumper {
  Module &M;
  ModuleAnalysisManager &MAM;
  FunctionAnalysisManager &FAM;
  json::OStream &J;
  std::map<const Value *, std::string> ids;
  std::map<const BasicBlock *, int> bids;
  std::map<const Loop *, int> lids;
  std::map<const Metadata *, int> tids;
  std::vector<const DIType *> tlist;

  static std::string constStr(const Constant *C) {
    std::string s;
    if (auto *ci = dyn_cast<ConstantInt>(C)) {
      SmallString<32> t;
      ci->getValue().toStringSigned(t);
      return "c:" + std::string(t);
    }
    if (auto *cf = dyn_cast<ConstantFP>(C)) {
      SmallString<32> t;
      cf->getValueAPF().toString(t, 17);
      return "d:" + std::string(t);
    }
    if (isa<ConstantPointerNull>(C)) return "null";
    if (isa<PoisonValue>(C) || isa<UndefValue>(C)) return "undef";
    if (auto *f = dyn_cast<Function>(C)) return "f:" + std::string(f->getName());
    if (auto *g = dyn_cast<GlobalVariable>(C)) return "g:" + std::string(g->getName());
    if (auto *g = dyn_cast<GlobalAlias>(C)) return "g:" + std::string(g->getName());
    if (auto *ce = dyn_cast<ConstantExpr>(C)) {
      if (ce->getOpcode() == Instruction::GetElementPtr) {
        APInt off(64, 0);
        const DataLayout *dl = nullptr;
        (void)dl;
        raw_string_ostream os(s);
        os << "e:";
        C->printAsOperand(os, false);
        return os.str();
      }
    }
    raw_string_ostream os(s);
    os << "k:";
    C->printAsOperand(os, false);
    return os.str();
  }
  std::string val(const Value *v) {
    if (auto *C = dyn_cast<Constant>(v)) {
      if (auto *ce = dyn_cast<ConstantExpr>(C)) {
        // global + constant offset
        APInt off(64, 0);
        const Value *b = ce->stripAndAccumulateConstantOffsets(M.getDataLayout(), off, true);
        if (b != ce && isa<GlobalValue>(b))
          return "go:" + std::string(b->getName()) + ":" + std::to_string(off.getSExtValue());
      }
      return constStr(C);
    }
    if (auto *bb = dyn_cast<BasicBlock>(v)) return "b" + std::to_string(bids[bb]);
    auto it = ids.find(v);
    if (it != ids.end()) return it->second;
    if (auto *mv = dyn_cast<MetadataAsValue>(v)) { (void)mv; return "md"; }
    if (isa<InlineAsm>(v)) return "asm";
    return "?";
  }
  static std::string tyStr(Type *t) {
    std::string s;
    raw_string_ostream os(s);
    t->print(os, false, true);
    return os.str();
  }
  json::Value scev(const SCEV *S, int depth = 0) {
    if (depth > 12) return json::Array{"deep"};
    json::Array a;
    switch (S->getSCEVType()) {
      case scConstant: {
        auto &v = cast<SCEVConstant>(S)->getAPInt();
        SmallString<32> t;
        v.toStringSigned(t);
        a.push_back("c");
        int64_t x;
        if (v.getSignificantBits() <= 62) { x = v.getSExtValue(); a.push_back(x); }
        else a.push_back(std::string(t));
        return a;
      }
      case scUnknown:
        a.push_back("u");
        a.push_back(val(cast<SCEVUnknown>(S)->getValue()));
        return a;
      case scTruncate: case scZeroExtend: case scSignExtend: case scPtrToInt: {
        auto *c = cast<SCEVCastExpr>(S);
        a.push_back(S->getSCEVType() == scTruncate ? "trunc" : S->getSCEVType() == scZeroExtend ? "zext"
                    : S->getSCEVType() == scSignExtend ? "sext" : "p2i");
        a.push_back(scev(c->getOperand(), depth + 1));
        a.push_back((int64_t)(S->getType()->isIntegerTy() ? S->getType()->getIntegerBitWidth() : 64));
        return a;
      }
      case scAddRecExpr: {
        auto *r = cast<SCEVAddRecExpr>(S);
        a.push_back("rec");
        a.push_back(lids.count(r->getLoop()) ? lids[r->getLoop()] : -1);
        for (auto *o : r->operands()) a.push_back(scev(o, depth + 1));
        return a;
      }
      case scAddExpr: a.push_back("add"); break;
      case scMulExpr: a.push_back("mul"); break;
      case scUMaxExpr: a.push_back("umax"); break;
      case scSMaxExpr: a.push_back("smax"); break;
      case scUMinExpr: a.push_back("umin"); break;
      case scSMinExpr: a.push_back("smin"); break;
      case scSequentialUMinExpr: a.push_back("umin"); break;
      case scUDivExpr: {
        auto *d = cast<SCEVUDivExpr>(S);
        a.push_back("udiv");
        a.push_back(scev(d->getLHS(), depth + 1));
        a.push_back(scev(d->getRHS(), depth + 1));
        return a;
      }
      case scVScale: a.push_back("vscale"); return a;
      case scCouldNotCompute: a.push_back("none"); return a;
    }
    for (auto *o : cast<SCEVNAryExpr>(S)->operands()) a.push_back(scev(o, depth + 1));
    return a;
  }
  int typeId(const DIType *t) {
    if (!t) return -1;
    auto it = tids.find(t);
    if (it != tids.end()) return it->second;
    int i = tlist.size();
    tids[t] = i;
    tlist.push_back(t);
    return i;
  }
  void loc(const DebugLoc &dl) {
    if (!dl) return;
    auto *l = dl.get();
    J.attribute("ln", (int64_t)l->getLine());
    J.attribute("fl", l->getFilename());
    if (auto *sp = l->getScope()->getSubprogram()) J.attribute("sc", sp->getName());
    if (auto *ia = l->getInlinedAt()) {
      J.attributeBegin("ia");
      J.arrayBegin();
      int n = 0;
      for (; ia && n < 12; ia = ia->getInlinedAt(), ++n) {
        std::string s = std::string(ia->getFilename()) + ":" + std::to_string(ia->getLine());
        if (auto *sp = ia->getScope()->getSubprogram()) s += ":" + std::string(sp->getName());
        J.value(s);
      }
      J.arrayEnd();
      J.attributeEnd();
    }
  }
  void dumpLoop(const Loop *L, ScalarEvolution &SE) {
    J.objectBegin();
    J.attribute("id", lids[L]);
    J.attribute("parent", L->getParentLoop() ? lids[L->getParentLoop()] : -1);
    J.attribute("depth", (int64_t)L->getLoopDepth());
    J.attribute("header", bids[L->getHeader()]);
    J.attribute("preheader", L->getLoopPreheader() ? bids[L->getLoopPreheader()] : -1);
    J.attribute("latch", L->getLoopLatch() ? bids[L->getLoopLatch()] : -1);
    J.attributeBegin("blocks");
    J.arrayBegin();
    for (auto *b : L->blocks()) J.value(bids[b]);
    J.arrayEnd();
    J.attributeEnd();
    SmallVector<BasicBlock *, 4> ex;
    L->getExitBlocks(ex);
    J.attributeBegin("exits");
    J.arrayBegin();
    for (auto *b : ex) J.value(bids[b]);
    J.arrayEnd();
    J.attributeEnd();
    SmallVector<BasicBlock *, 4> exing;
    L->getExitingBlocks(exing);
    J.attributeBegin("exiting");
    J.arrayBegin();
    for (auto *b : exing) J.value(bids[b]);
    J.arrayEnd();
    J.attributeEnd();
    J.attribute("btc", scev(SE.getBackedgeTakenCount(L)));
    J.objectEnd();
    for (auto *s : L->getSubLoops()) dumpLoop(s, SE);
  }
  void numLoop(const Loop *L, int &n) {
    lids[L] = n++;
    for (auto *s : L->getSubLoops()) numLoop(s, n);
  }
  void dumpFunc(Function &F) {
    ids.clear(); bids.clear(); lids.clear();
    int n = 0;
    for (auto &a : F.args()) ids[&a] = "a" + std::to_string(n++);
    n = 0;
    int bn = 0;
    for (auto &B : F) {
      bids[&B] = bn++;
      for (auto &I : B) ids[&I] = "%" + std::to_string(n++);
    }
    auto &LI = FAM.getResult<LoopAnalysis>(F);
    auto &SE = FAM.getResult<ScalarEvolutionAnalysis>(F);
    auto &DT = FAM.getResult<DominatorTreeAnalysis>(F);
    auto &PDT = FAM.getResult<PostDominatorTreeAnalysis>(F);
    int ln = 0;
    for (auto *L : LI) numLoop(L, ln);
    J.objectBegin();
    J.attribute("name", F.getName());
    J.attribute("dem", dem(F.getName()));
    J.attribute("nounwind", F.doesNotThrow());
    J.attribute("linkage", F.hasLocalLinkage() ? "local" : F.hasExternalLinkage() ? "external" : "other");
    DISubprogram *SP = F.getSubprogram();
    if (SP) {
      J.attribute("file", SP->getFilename());
      J.attribute("line", (int64_t)SP->getLine());
    }
    J.attribute("ret", tyStr(F.getReturnType()));
    J.attributeBegin("args");
    J.arrayBegin();
    std::map<unsigned, const DILocalVariable *> pv;
    if (SP)
      for (auto *nd : SP->getRetainedNodes())
        if (auto *lv = dyn_cast<DILocalVariable>(nd))
          if (lv->getArg()) pv[lv->getArg()] = lv;
    for (auto &I : instructions(F))
      if (auto *dv = dyn_cast<DbgVariableIntrinsic>(&I))
        if (dv->getVariable()->getArg() && dv->getVariable()->getScope()->getSubprogram() == SP && !dv->getDebugLoc().getInlinedAt())
          pv[dv->getVariable()->getArg()] = dv->getVariable();
    unsigned an = 0;
    bool sret = F.arg_size() && F.getArg(0)->hasStructRetAttr();
    for (auto &a : F.args()) {
      ++an;
      J.objectBegin();
      J.attribute("id", ids[&a]);
      J.attribute("name", a.getName());
      J.attribute("ty", tyStr(a.getType()));
      if (sret && an == 1) J.attribute("sret", true);
      unsigned di = sret ? an - 1 : an;
      auto it = pv.find(di);
      if (it != pv.end()) {
        J.attribute("var", it->second->getName());
        J.attribute("dty", typeId(it->second->getType()));
      }
      J.objectEnd();
    }
    J.arrayEnd();
    J.attributeEnd();
    J.attributeBegin("blocks");
    J.arrayBegin();
    for (auto &B : F) {
      J.objectBegin();
      J.attribute("id", bids[&B]);
      J.attributeBegin("succ");
      J.arrayBegin();
      for (auto *s : successors(&B)) J.value(bids[s]);
      J.arrayEnd();
      J.attributeEnd();
      auto *dn = DT.getNode(&B);
      J.attribute("idom", dn && dn->getIDom() ? bids[dn->getIDom()->getBlock()] : -1);
      auto *pn = PDT.getNode(&B);
      J.attribute("ipdom", pn && pn->getIDom() && pn->getIDom()->getBlock() ? bids[pn->getIDom()->getBlock()] : -1);
      Loop *L = LI.getLoopFor(&B);
      J.attribute("loop", L ? lids[L] : -1);
      J.attributeBegin("in");
      J.arrayBegin();
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        if (auto *ii = dyn_cast<IntrinsicInst>(&I))
          if (ii->isLifetimeStartOrEnd() || ii->isAssumeLikeIntrinsic()) continue;
        J.objectBegin();
        J.attribute("id", ids[&I]);
        J.attribute("op", I.getOpcodeName());
        J.attribute("ty", tyStr(I.getType()));
        if (auto *c = dyn_cast<CmpInst>(&I)) J.attribute("pred", CmpInst::getPredicateName(c->getPredicate()));
        if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
          MapVector<Value *, APInt> vo;
          APInt co(64, 0);
          J.attribute("base", val(g->getPointerOperand()));
          if (cast<GEPOperator>(g)->collectOffset(M.getDataLayout(), 64, vo, co)) {
            J.attribute("off", co.getSExtValue());
            J.attributeBegin("var");
            J.arrayBegin();
            for (auto &p : vo) {
              J.arrayBegin();
              J.value(val(p.first));
              J.value(p.second.getSExtValue());
              J.arrayEnd();
            }
            J.arrayEnd();
            J.attributeEnd();
          }
        } else if (auto *cb = dyn_cast<CallBase>(&I)) {
          const Value *cv = cb->getCalledOperand()->stripPointerCasts();
          if (auto *cf = dyn_cast<Function>(cv)) {
            J.attribute("callee", cf->getName());
            J.attribute("cdem", dem(cf->getName()));
            J.attribute("cdecl", cf->isDeclaration());
          } else
            J.attribute("icallee", val(cv));
          J.attribute("nounw", cb->doesNotThrow());
          J.attribute("noret", cb->doesNotReturn());
          J.attributeBegin("ops");
          J.arrayBegin();
          for (auto &o : cb->args()) J.value(val(o.get()));
          J.arrayEnd();
          J.attributeEnd();
          if (auto *iv = dyn_cast<InvokeInst>(&I)) {
            J.attribute("normal", bids[iv->getNormalDest()]);
            J.attribute("unwind", bids[iv->getUnwindDest()]);
          }
        } else if (auto *p = dyn_cast<PHINode>(&I)) {
          J.attributeBegin("ops");
          J.arrayBegin();
          for (auto &o : p->incoming_values()) J.value(val(o.get()));
          J.arrayEnd();
          J.attributeEnd();
          J.attributeBegin("from");
          J.arrayBegin();
          for (auto *b : p->blocks()) J.value(bids[b]);
          J.arrayEnd();
          J.attributeEnd();
        } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
          J.attributeBegin("ops");
          J.arrayBegin();
          J.value(val(sw->getCondition()));
          J.arrayEnd();
          J.attributeEnd();
          J.attribute("def", bids[sw->getDefaultDest()]);
          J.attributeBegin("cases");
          J.arrayBegin();
          for (auto &c : sw->cases()) {
            J.arrayBegin();
            J.value(c.getCaseValue()->getSExtValue());
            J.value(bids[c.getCaseSuccessor()]);
            J.arrayEnd();
          }
          J.arrayEnd();
          J.attributeEnd();
        } else {
          J.attributeBegin("ops");
          J.arrayBegin();
          for (auto &o : I.operands()) J.value(val(o.get()));
          J.arrayEnd();
          J.attributeEnd();
          if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
            J.attributeBegin("ix"); J.arrayBegin();
            for (auto x : ev->indices()) J.value((int64_t)x);
            J.arrayEnd(); J.attributeEnd();
          }
          if (auto *ev = dyn_cast<InsertValueInst>(&I)) {
            J.attributeBegin("ix"); J.arrayBegin();
            for (auto x : ev->indices()) J.value((int64_t)x);
            J.arrayEnd(); J.attributeEnd();
          }
          if (auto *lp = dyn_cast<LandingPadInst>(&I)) J.attribute("cleanup", lp->isCleanup());
          if (auto *al = dyn_cast<AllocaInst>(&I)) {
            J.attribute("aty", tyStr(al->getAllocatedType()));
            auto sz = al->getAllocationSize(M.getDataLayout());
            if (sz) J.attribute("size", (int64_t)sz->getFixedValue());
          }
          if (auto *st = dyn_cast<StoreInst>(&I)) J.attribute("sty", tyStr(st->getValueOperand()->getType()));
        }
        if (auto *cv = dyn_cast<CastInst>(&I)) J.attribute("from_ty", tyStr(cv->getSrcTy()));
        if (!Raw && (I.getType()->isIntegerTy() || I.getType()->isPointerTy()) && SE.isSCEVable(I.getType()) && !isa<AllocaInst>(I)) {
          const SCEV *S = SE.getSCEV(&I);
          if (!(isa<SCEVUnknown>(S) && cast<SCEVUnknown>(S)->getValue() == &I)) J.attribute("scev", scev(S));
        }
        loc(I.getDebugLoc());
        J.objectEnd();
      }
      J.arrayEnd();
      J.attributeEnd();
      J.objectEnd();
    }
    J.arrayEnd();
    J.attributeEnd();
    J.attributeBegin("loops");
    J.arrayBegin();
    for (auto *L : LI) dumpLoop(L, SE);
    J.arrayEnd();
    J.attributeEnd();
    J.objectEnd();
  }
  void dumpTypes() {
    J.attributeBegin("types");
    J.arrayBegin();
    for (size_t i = 0; i < tlist.size(); ++i) {
      const DIType *t = tlist[i];
      J.objectBegin();
      J.attribute("id", (int64_t)i);
      J.attribute("tag", dwarf::TagString(t->getTag()));
      J.attribute("name", t->getName());
      J.attribute("size", (int64_t)(t->getSizeInBits() / 8));
      if (auto *d = dyn_cast<DIDerivedType>(t)) {
        J.attribute("base", typeId(d->getBaseType()));
        if (t->getTag() == dwarf::DW_TAG_member || t->getTag() == dwarf::DW_TAG_inheritance) {
          J.attribute("off", (int64_t)(d->getOffsetInBits() / 8));
          J.attribute("static", d->isStaticMember());
        }
      } else if (auto *c = dyn_cast<DICompositeType>(t)) {
        J.attribute("base", typeId(c->getBaseType()));
        J.attributeBegin("el");
        J.arrayBegin();
        for (auto *e : c->getElements())
          if (auto *ed = dyn_cast_or_null<DIDerivedType>(e))
            if (ed->getTag() == dwarf::DW_TAG_member || ed->getTag() == dwarf::DW_TAG_inheritance) J.value(typeId(ed));
        J.arrayEnd();
        J.attributeEnd();
        if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
          J.attributeBegin("enum");
          J.arrayBegin();
          for (auto *e : c->getElements())
            if (auto *en = dyn_cast_or_null<DIEnumerator>(e)) {
              J.arrayBegin();
              J.value(en->getName());
              J.value(en->getValue().getSExtValue());
              J.arrayEnd();
            }
          J.arrayEnd();
          J.attributeEnd();
        }
      }
      J.objectEnd();
    }
    J.arrayEnd();
    J.attributeEnd();
  }
};

int main(int argc, char **argv) {
  if (argc < 4) { errs() << "usage: vtdump IN OUT CONFIG\n"; return 2; }
  bool allTypes = false, allGlobals = false;
  {
    std::ifstream f(argv[3]);
    std::string line;
    while (std::getline(f, line)) {
      std::istringstream is(line);
      std::string k, v;
      is >> k;
      std::getline(is, v);
      while (!v.empty() && v[0] == ' ') v.erase(0, 1);
      if (k == "root") Roots.emplace_back(v);
      else if (k == "keep") Keeps.emplace_back(v);
      else if (k == "passes") Passes = v;
      else if (k == "raw") Raw = true;
      else if (k == "noeh") NoEH = true;
      else if (k == "alltypes") allTypes = true;
      else if (k == "globals") allGlobals = true;
    }
  }
  LLVMContext Ctx;
  SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print("vtdump", errs()); return 2; }
  std::set<Function *> roots;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::OptimizeNone);
    std::string d = dem(F.getName());
    bool isRoot = match(Roots, d);
    bool keep = isRoot || match(Keeps, d);
    if (isRoot) roots.insert(&F);
    F.removeFnAttr(Attribute::AlwaysInline);
    F.removeFnAttr(Attribute::NoInline);
    F.removeFnAttr(Attribute::InlineHint);
    if (Raw) continue;
    if (keep && !isRoot) {
      // called by name only: the body is not part of what is analysed here
      F.deleteBody();
      F.setComdat(nullptr);
      F.setLinkage(GlobalValue::ExternalLinkage);
      continue;
    }
    if (keep) F.addFnAttr(Attribute::NoInline);
    else F.addFnAttr(Attribute::AlwaysInline);
  }
  if (!Raw) {
    // keep only what roots and kept functions need: everything not a root gets internalized
    for (auto &F : *M)
      if (!F.isDeclaration() && !roots.count(&F)) { F.setLinkage(GlobalValue::InternalLinkage); F.setComdat(nullptr); F.setVisibility(GlobalValue::DefaultVisibility);}
      else if (!F.isDeclaration()) { F.setLinkage(GlobalValue::ExternalLinkage); F.setComdat(nullptr); }
    if (auto *g = M->getGlobalVariable("llvm.global_ctors")) { if (!allGlobals) g->eraseFromParent(); }
  }
  PassBuilder PB;
  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CGAM;
  ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  std::string P = Raw ? (Passes.empty() ? "" : "function(" + Passes + ")")
                      : std::string(NoEH ? "function(lowerinvoke,simplifycfg)," : "") + "globaldce,always-inline,globaldce,function(" + Passes + ")";
  if (!P.empty())
    if (auto E = PB.parsePassPipeline(MPM, P)) { errs() << "pipeline: " << toString(std::move(E)) << "\n"; return 2; }
  MPM.run(*M, MAM);
  std::error_code EC;
  raw_fd_ostream os(argv[2], EC);
  json::OStream J(os);
  Dumper D{*M, MAM, FAM, J};
  J.objectBegin();
  J.attributeBegin("functions");
  J.arrayBegin();
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    if (!Raw && !match(Roots, dem(F.getName()))) continue;
    if (Raw && !Roots.empty() && !match(Roots, dem(F.getName()))) continue;
    D.dumpFunc(F);
  }
  J.arrayEnd();
  J.attributeEnd();
  J.attributeBegin("globals");
  J.arrayBegin();
  for (auto &G : M->globals()) {
    J.objectBegin();
    J.attribute("name", G.getName());
    J.attribute("dem", dem(G.getName()));
    J.attribute("const", G.isConstant());
    J.attribute("decl", G.isDeclaration());
    J.attribute("tls", G.isThreadLocal());
    J.attribute("ty", Dumper::tyStr(G.getValueType()));
    if (G.hasInitializer()) {
      if (auto *cd = dyn_cast<ConstantDataSequential>(G.getInitializer())) {
        if (cd->isCString()) J.attribute("str", json::fixUTF8(cd->getAsCString()));
        else if (cd->isString()) J.attribute("str", json::fixUTF8(cd->getAsString()));
        else if (cd->getElementType()->isIntegerTy()) {
          J.attributeBegin("ints"); J.arrayBegin();
          for (unsigned i = 0; i < cd->getNumElements(); ++i) J.value((int64_t)cd->getElementAsInteger(i));
          J.arrayEnd(); J.attributeEnd();
        }
      } else if (auto *ci = dyn_cast<ConstantInt>(G.getInitializer())) J.attribute("int", ci->getSExtValue());
      else if (auto *gv = dyn_cast<GlobalVariable>(G.getInitializer()->stripPointerCasts())) J.attribute("init", gv->getName());
      else if (isa<ConstantAggregateZero>(G.getInitializer())) J.attribute("zero", true);
    }
    SmallVector<DIGlobalVariableExpression *, 1> ge;
    G.getDebugInfo(ge);
    if (!ge.empty()) {
      auto *v = ge[0]->getVariable();
      J.attribute("var", v->getName());
      J.attribute("file", v->getFilename());
      J.attribute("line", (int64_t)v->getLine());
    }
    J.objectEnd();
  }
  J.arrayEnd();
  J.attributeEnd();
  if (allTypes) {
    DebugInfoFinder Fi;
    Fi.processModule(*M);
    for (auto *t : Fi.types()) D.typeId(t);
  }
  D.dumpTypes();
  J.objectEnd();
  return 0;
}
