// AST facts of a translation unit: function definitions and whether they are instantiated, objects of static storage duration,
// references to functions of given names. One JSON object on stdout; only declarations below the given root directories.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
static std::vector<std::string> Roots;
static bool HadError = false;
static std::vector<std::array<std::string, 3>> Diags;

struct V : RecursiveASTVisitor<V> {
  ASTContext &C; SourceManager &SM; bool Inst;
  struct Fn { std::string name, loc, access; bool tmpl = false, inst = false, pub = true, body = false, deleted = false; };
  std::map<std::string, Fn> fns;
  struct Var { std::string name, loc, type, fn, kind; bool cst, tls, dyn; std::vector<std::string> uses; };
  std::vector<Var> vars;
  struct Ref { std::string name, loc, fn; };
  std::vector<Ref> refs;
  std::vector<FunctionDecl *> stack;
  V(ASTContext &c) : C(c), SM(c.getSourceManager()) {}
  bool shouldVisitTemplateInstantiations() const { return Inst; }
  bool shouldVisitImplicitCode() const { return false; }
  std::string file(SourceLocation l) {
    l = SM.getExpansionLoc(l);
    auto f = SM.getFilename(l);
    return f.str();
  }
  bool mine(SourceLocation l) { auto f = file(l); for (auto &r : Roots) if (f.compare(0, r.size(), r) == 0) return true; return false; }
  std::string loc(SourceLocation l) {
    l = SM.getExpansionLoc(l);
    return file(l) + ":" + std::to_string(SM.getExpansionLineNumber(l)) + ":" + std::to_string(SM.getExpansionColumnNumber(l));
  }
  bool TraverseDecl(Decl *D) {
    auto *F = dyn_cast_or_null<FunctionDecl>(D);
    if (auto *T = dyn_cast_or_null<FunctionTemplateDecl>(D)) F = nullptr;
    if (F) stack.push_back(F);
    bool r = RecursiveASTVisitor<V>::TraverseDecl(D);
    if (F) stack.pop_back();
    return r;
  }
  std::string cur() { for (auto i = stack.rbegin(); i != stack.rend(); ++i) if (!(*i)->getQualifiedNameAsString().empty()) { auto *m = dyn_cast<CXXMethodDecl>(*i); if (m && m->getParent()->isLambda()) continue; return (*i)->getQualifiedNameAsString(); } return ""; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!mine(F->getLocation())) return true;
    const FunctionDecl *P = F->getTemplateInstantiationPattern();
    bool isinst = P != nullptr;
    if (!P) P = F;
    if (P->getDefinition()) P = P->getDefinition();
    auto k = loc(P->getLocation());
    auto &e = fns[k];
    e.name = P->getQualifiedNameAsString(); e.loc = k;
    if (P->isTemplated()) e.tmpl = true;
    if (isinst && F->isDefined() && F->getDefinition() && F->getDefinition()->hasBody() ) e.inst = true;
    if (P->doesThisDeclarationHaveABody()) e.body = true;
    if (P->isDeleted()) e.deleted = true;
    if (P->getAccess() == AS_private || P->getAccess() == AS_protected) e.pub = false;
    for (const DeclContext *d = P->getDeclContext(); d; d = d->getParent()) {
      if (auto *r = dyn_cast<CXXRecordDecl>(d)) { if (r->isLambda()) e.pub = false; if (r->getAccess() == AS_private || r->getAccess() == AS_protected) e.pub = false; }
      if (auto *n = dyn_cast<NamespaceDecl>(d)) if (n->getName() == "internal" || n->isAnonymousNamespace()) e.pub = false;
    }
    return true;
  }
  struct U : RecursiveASTVisitor<U> {
    std::vector<std::string> &o; VarDecl *self;
    U(std::vector<std::string> &x, VarDecl *s) : o(x), self(s) {}
    bool VisitDeclRefExpr(DeclRefExpr *E) {
      auto *d = E->getDecl();
      if (auto *v = dyn_cast<VarDecl>(d)) {
        if (isa<ParmVarDecl>(v)) o.push_back("parameter " + v->getNameAsString());
        else if (v->hasLocalStorage()) o.push_back("local " + v->getNameAsString());
        else if (!v->getType().isConstQualified() && !v->isConstexpr()) o.push_back("object " + v->getNameAsString());
      }
      return true;
    }
    bool VisitCXXThisExpr(CXXThisExpr *) { o.push_back("this"); return true; }
    bool VisitLambdaExpr(LambdaExpr *) { return true; }
  };
  bool VisitVarDecl(VarDecl *D) {
    if (isa<ParmVarDecl>(D) || !mine(D->getLocation())) return true;
    if (D->hasLocalStorage()) return true;
    Var v;
    v.name = D->getQualifiedNameAsString(); v.loc = loc(D->getLocation()); v.type = D->getType().getAsString();
    v.fn = D->isStaticLocal() ? cur() : "";
    v.kind = D->isStaticLocal() ? "local" : D->isStaticDataMember() ? "member" : "namespace";
    QualType t = D->getType(); while (auto *a = C.getAsArrayType(t)) t = a->getElementType();
    v.cst = t.isConstQualified() || D->isConstexpr();
    v.tls = D->getTLSKind() != VarDecl::TLS_None;
    if (auto *r = t->getAsCXXRecordDecl()) if (r->hasDefinition() && r->hasMutableFields() && mine(r->getLocation())) v.cst = false;
    if (D->getInit()) U(v.uses, D).TraverseStmt(const_cast<Expr *>(D->getInit()));
    vars.push_back(v);
    return true;
  }
  struct Use { std::string var, loc, fn, how; };
  std::vector<Use> uses;
  // what is done to an object at a reference: read, write, handed to a function, ...
  // a node of a template pattern that does not depend on the parameters is shared with the instantiations: the gravest of all parents counts
  static int rank(const std::string &s) { return s == "write" ? 6 : s.compare(0, 5, "call ") == 0 ? 5 : s.compare(0, 7, "extern ") == 0 ? 4 : s.compare(0, 6, "const ") == 0 ? 3 : s == "read" ? 2 : s == "other" ? 1 : 0; }
  std::string how(const DynTypedNode &c, bool addr, int depth) {
    std::string best = "dependent"; bool any = false;
    if (depth > 8) return "other";
    for (auto &p : C.getParents(c)) { auto r = step(c, p, addr, depth); if (!any || rank(r) > rank(best)) best = r; any = true; }
    return any ? best : "other";
  }
  std::string step(const DynTypedNode &ch, const DynTypedNode &n, bool addr, int depth) {
    const Stmt *child = ch.get<Stmt>();
    if (auto *p = n.get<ImplicitCastExpr>()) return p->getCastKind() == CK_LValueToRValue && !addr ? "read" : how(n, addr, depth + 1);
    if (n.get<ParenExpr>() || n.get<CStyleCastExpr>() || n.get<CXXReinterpretCastExpr>() || n.get<CXXConstCastExpr>() || n.get<CXXStaticCastExpr>()) return how(n, addr, depth + 1);
    if (auto *a = n.get<ArraySubscriptExpr>()) return child == a->getIdx() ? "read" : how(n, addr, depth + 1);
    if (auto *u = n.get<UnaryOperator>()) {
      if (u->isIncrementDecrementOp()) return "write";
      if (u->getOpcode() == UO_AddrOf) return how(n, true, depth + 1);
      if (u->getOpcode() == UO_Deref) return how(n, addr, depth + 1);
      return u->isTypeDependent() ? "dependent" : "other";
    }
    if (auto *b = n.get<BinaryOperator>()) return b->isAssignmentOp() && b->getLHS() == child ? "write" : b->isTypeDependent() ? "dependent" : "other";
    if (auto *c = n.get<CallExpr>()) {
      auto *f = c->getDirectCallee();
      if (!f) return c->isTypeDependent() ? "dependent" : "other";
      unsigned off = isa<CXXOperatorCallExpr>(c) && isa<CXXMethodDecl>(f) ? 1 : 0;
      for (unsigned k = 0; k < c->getNumArgs() && !addr; ++k)
        if (c->getArg(k) == child) {
          if (k < off && cast<CXXOperatorCallExpr>(c)->getOperator() == OO_Subscript && !cast<CXXMethodDecl>(f)->isConst()) return how(n, addr, depth + 1);
          if (k < off) return (cast<CXXMethodDecl>(f)->isConst() ? "const " : "call ") + f->getQualifiedNameAsString();
          if (k - off >= f->getNumParams()) return "read";
          auto t = f->getParamDecl(k - off)->getType();
          if (!t->isReferenceType() || t->getPointeeType().isConstQualified()) return "read";
        }
      return std::string(f->isExternC() && !f->hasBody() ? "extern " : "call ") + f->getQualifiedNameAsString();
    }
    if (auto *m = n.get<MemberExpr>()) {
      if (auto *f = dyn_cast<CXXMethodDecl>(m->getMemberDecl())) {
        auto nm = f->getNameAsString();
        if (!f->isConst() && (nm == "at" || nm == "front" || nm == "back") && !mine(f->getLocation())) { auto ps = C.getParents(n); if (!ps.empty()) return how(ps[0], addr, depth + 2); }
        return (f->isConst() || f->isStatic() ? "const " : "call ") + f->getQualifiedNameAsString();
      }
      return how(n, addr, depth + 1);
    }
    if (auto *v = n.get<VarDecl>()) {
      auto t = v->getType();
      if (t->isDependentType() || t->isUndeducedType()) return "dependent";
      if (v->getName().starts_with("__range")) {
        DynTypedNode q = n;
        for (int i = 0; i < 4; ++i) {
          auto ps = C.getParents(q);
          if (ps.empty()) break;
          q = ps[0];
          if (auto *l = q.get<CXXForRangeStmt>()) {
            auto lt = l->getLoopVariable()->getType();
            return lt->isDependentType() || lt->isUndeducedType() ? "dependent" : lt->isReferenceType() && !lt->getPointeeType().isConstQualified() ? "call the loop variable " + l->getLoopVariable()->getNameAsString() : std::string("read");
          }
        }
        return "other";
      }
      if (addr) return t->isPointerType() && t->getPointeeType().isConstQualified() ? "read" : "other";
      return t->isReferenceType() && !t->getPointeeType().isConstQualified() ? "call the reference " + v->getNameAsString() : std::string("read");
    }
    if (n.get<ReturnStmt>()) {
      DynTypedNode q = n;
      for (int i = 0; i < 60; ++i) {
        auto ps = C.getParents(q);
        if (ps.empty()) break;
        q = ps[0];
        if (auto *f = q.get<FunctionDecl>()) {
          auto t = f->getReturnType();
          if (t->isDependentType() || t->isUndeducedType()) return "dependent";
          if (!addr && (!t->isReferenceType() || t->getPointeeType().isConstQualified())) return "read";
          return !addr ? "call the caller of " + f->getQualifiedNameAsString() : std::string("other");
        }
      }
      return "other";
    }
    if (n.get<UnaryExprOrTypeTraitExpr>()) return "read";
    if (n.get<CXXDependentScopeMemberExpr>()) return "dependent";
    if (auto *e = n.get<Expr>()) return e->isInstantiationDependent() ? "dependent" : "other";
    return "other";
  }
  void ref(std::string n, SourceLocation l) { if (mine(l)) refs.push_back({n, loc(l), cur()}); }
  bool VisitDeclRefExpr(DeclRefExpr *E) {
    if (auto *f = dyn_cast<FunctionDecl>(E->getDecl())) if (!mine(f->getLocation())) ref(f->getQualifiedNameAsString(), E->getExprLoc());
    if (auto *v = dyn_cast<VarDecl>(E->getDecl())) if (v->hasGlobalStorage() && mine(v->getLocation())) uses.push_back({loc(v->getLocation()), loc(E->getExprLoc()), cur(), how(DynTypedNode::create(*E), false, 0)});
    return true;
  }
  bool VisitCastExpr(CastExpr *E) { if (E->getCastKind() == CK_PointerToIntegral && mine(E->getExprLoc())) refs.push_back({"pointer-to-integer conversion", loc(E->getExprLoc()), cur()}); return true; }
  bool VisitUnresolvedLookupExpr(UnresolvedLookupExpr *E) { ref(E->getName().getAsString(), E->getExprLoc()); return true; }
  bool VisitCXXConstructExpr(CXXConstructExpr *E) { ref(E->getConstructor()->getParent()->getQualifiedNameAsString(), E->getExprLoc()); return true; }
  bool VisitMemberExpr(MemberExpr *E) { if (auto *m = dyn_cast<CXXMethodDecl>(E->getMemberDecl())) if (!mine(m->getLocation())) ref(m->getQualifiedNameAsString(), E->getExprLoc()); return true; }
};

struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    V a(C); a.Inst = false; a.TraverseDecl(C.getTranslationUnitDecl());
    V b(C); b.Inst = true; b.TraverseDecl(C.getTranslationUnitDecl());
    for (auto &e : b.fns) { auto &x = a.fns[e.first]; bool i = x.inst || e.second.inst; if (x.name.empty()) x = e.second; x.inst = i; }
    llvm::json::OStream J(llvm::outs(), 0);
    J.objectBegin();
    J.attributeBegin("functions"); J.arrayBegin();
    for (auto &e : a.fns) { J.objectBegin(); J.attribute("name", e.second.name); J.attribute("loc", e.second.loc); J.attribute("tmpl", e.second.tmpl); J.attribute("inst", e.second.inst); J.attribute("pub", e.second.pub); J.attribute("body", e.second.body); J.attribute("deleted", e.second.deleted); J.objectEnd(); }
    J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("vars"); J.arrayBegin();
    for (auto &v : a.vars) { J.objectBegin(); J.attribute("name", v.name); J.attribute("loc", v.loc); J.attribute("type", v.type); J.attribute("fn", v.fn); J.attribute("kind", v.kind); J.attribute("const", v.cst); J.attribute("tls", v.tls);
      J.attributeBegin("uses"); J.arrayBegin(); for (auto &u : v.uses) J.value(u); J.arrayEnd(); J.attributeEnd(); J.objectEnd(); }
    J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("refs"); J.arrayBegin();
    for (auto &v : a.refs) { J.objectBegin(); J.attribute("name", v.name); J.attribute("loc", v.loc); J.attribute("fn", v.fn); J.objectEnd(); }
    J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("uses"); J.arrayBegin();
    for (auto *q : {&a, &b}) for (auto &u : q->uses) { J.objectBegin(); J.attribute("var", u.var); J.attribute("loc", u.loc); J.attribute("fn", u.fn); J.attribute("how", u.how); J.attribute("inst", q->Inst); J.objectEnd(); }
    J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("instvars"); J.arrayBegin();
    for (auto &v : b.vars) { J.objectBegin(); J.attribute("loc", v.loc); J.attributeBegin("uses"); J.arrayBegin(); for (auto &u : v.uses) J.value(u); J.arrayEnd(); J.attributeEnd(); J.objectEnd(); }
    J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("errors"); J.arrayBegin();
    for (auto &d : Diags) { J.objectBegin(); J.attribute("kind", d[0]); J.attribute("loc", d[1]); J.attribute("msg", d[2]); J.objectEnd(); }
    J.arrayEnd(); J.attributeEnd();
    J.objectEnd();
  }
};
struct DC : DiagnosticConsumer {
  void HandleDiagnostic(DiagnosticsEngine::Level L, const Diagnostic &D) override {
    DiagnosticConsumer::HandleDiagnostic(L, D);
    if (L < DiagnosticsEngine::Error && L != DiagnosticsEngine::Note) return;
    if (L == DiagnosticsEngine::Note && Diags.empty()) return;
    llvm::SmallString<256> m; D.FormatDiagnostic(m);
    std::string l;
    if (D.hasSourceManager() && D.getLocation().isValid()) {
      auto &SM = D.getSourceManager(); auto e = SM.getExpansionLoc(D.getLocation());
      l = SM.getFilename(e).str() + ":" + std::to_string(SM.getExpansionLineNumber(e));
    }
    Diags.push_back({L == DiagnosticsEngine::Note ? "note" : "error", l, m.str().str()});
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); }
};
struct Fac : tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); } };
// vtast ROOT[,ROOT...] FILE -- flags
int main(int c, char **v) {
  std::string r = v[1];
  for (size_t i = 0; i <= r.size();) { auto j = r.find(',', i); if (j == std::string::npos) j = r.size(); Roots.push_back(r.substr(i, j - i)); i = j + 1; }
  std::vector<std::string> fl;
  for (int i = 4; i < c; ++i) fl.push_back(v[i]);
  tooling::FixedCompilationDatabase db(".", fl);
  tooling::ClangTool T(db, {v[2]});
  DC d; T.setDiagnosticConsumer(&d);
  Fac f; T.run(&f);
  return 0;
}
