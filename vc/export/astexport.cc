// astexport: prints, as JSON, the type-checked bodies of every function, method and template instantiation that is
// written in a file under one of the given source roots. Nothing is interpreted here: each clang AST node is written
// out with its kind, type, children and resolved declarations. Nodes that carry no meaning for execution (parentheses,
// temporaries' bookkeeping) are skipped; every other node kind is kept, so that the reader can refuse what it does not
// know.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecordLayout.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
#include <map>
using namespace clang;
using llvm::json::Value; using llvm::json::Object; using llvm::json::Array;

static std::vector<std::string> roots;

struct Exporter : RecursiveASTVisitor<Exporter> {
  ASTContext &C; PrintingPolicy PP; std::unique_ptr<MangleContext> MC;
  Object functions, records; std::set<const Decl *> seen;
  std::map<const Decl *, int> ids; int next_id = 1;
  Exporter(ASTContext &C) : C(C), PP(C.getPrintingPolicy()), MC(C.createMangleContext()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true; PP.SuppressUnwrittenScope = true;
    PP.SuppressInlineNamespace = true; PP.Bool = true; PP.SuppressDefaultTemplateArgs = false; PP.AlwaysIncludeTypeForTemplateArgument = false;
    PP.AnonymousTagLocations = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  std::string ty(QualType T) { return T.getCanonicalType().getAsString(PP); }
  int id(const Decl *D) { D = D->getCanonicalDecl(); auto &r = ids[D]; if (!r) r = next_id++; return r; }
  bool inRoots(SourceLocation L) {
    if (L.isInvalid()) return false;
    auto &SM = C.getSourceManager(); auto P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    if (P.isInvalid()) return false;
    llvm::StringRef F(P.getFilename());
    for (auto &r : roots) if (F.startswith(r)) return true;
    return false;
  }
  std::string loc(SourceLocation L) {
    auto &SM = C.getSourceManager(); auto P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    if (P.isInvalid()) return "";
    return std::string(P.getFilename()) + ":" + std::to_string(P.getLine());
  }
  std::string qname(const NamedDecl *D) {
    std::string s; llvm::raw_string_ostream os(s); D->printNestedNameSpecifier(os, PP);
    if (auto *CD = dyn_cast<CXXConstructorDecl>(D)) os << CD->getParent()->getNameAsString();
    else os << D->getDeclName();
    return os.str();
  }
  std::string fkey(const FunctionDecl *F) {
    std::string s; llvm::raw_string_ostream os(s);
    GlobalDecl GD;
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) GD = GlobalDecl(CD, Ctor_Complete);
    else if (auto *DD = dyn_cast<CXXDestructorDecl>(F)) GD = GlobalDecl(DD, Dtor_Complete);
    else GD = GlobalDecl(F);
    if (F->isDependentContext()) return qname(F);
    if (MC->shouldMangleDeclName(F)) { MC->mangleName(GD, os); return os.str(); }
    return qname(F);
  }
  std::string recname(const CXXRecordDecl *R) { return ty(C.getRecordType(R)); }

  Value fref(const FunctionDecl *F) {
    Object o; o["key"] = fkey(F); o["q"] = qname(F); o["n"] = F->getNameAsString();
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = recname(M->getParent()); if (M->isVirtual()) o["virt"] = true; if (M->isStatic()) o["static"] = true;
      if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
        o["ctor"] = true;
        if (CD->isCopyConstructor()) o["copy"] = true; if (CD->isMoveConstructor()) o["move"] = true;
      }
      if (M->isCopyAssignmentOperator()) o["copy"] = true; if (M->isMoveAssignmentOperator()) o["move"] = true;
      if (M->isConst()) o["const"] = true;
    }
    if (F->isDefaulted()) o["defaulted"] = true;
    if (F->isImplicit()) o["implicit"] = true;
    Array ps; for (auto *p : F->parameters()) ps.push_back(ty(p->getType())); o["pt"] = std::move(ps);
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      Array ta; for (auto &A : TA->asArray()) { std::string s; llvm::raw_string_ostream os(s); A.print(PP, os, true); ta.push_back(os.str()); }
      o["ta"] = std::move(ta);
    }
    return o;
  }
  Value vref(const ValueDecl *D) {
    Object o; o["id"] = id(D); o["n"] = D->getNameAsString(); o["t"] = ty(D->getType());
    if (auto *F = dyn_cast<FunctionDecl>(D)) { o["fn"] = fref(F); }
    else if (isa<ParmVarDecl>(D)) o["dk"] = "parm";
    else if (auto *V = dyn_cast<VarDecl>(D)) { o["dk"] = V->isStaticDataMember() ? "static" : V->hasGlobalStorage() ? "global" : "var";
      o["q"] = qname(V);
      if (V->hasGlobalStorage()) { const VarDecl *Def = nullptr; if (auto *I = V->getAnyInitializer(Def)) { if (inRoots(Def->getLocation()) && !I->isValueDependent()) o["init"] = expr(I); } } }
    else if (auto *E = dyn_cast<EnumConstantDecl>(D)) { llvm::SmallString<16> s; E->getInitVal().toString(s); o["enum"] = s.str().str(); }
    else if (auto *Fd = dyn_cast<FieldDecl>(D)) { o["dk"] = "field"; o["cls"] = recname(cast<CXXRecordDecl>(Fd->getParent())); }
    return o;
  }
  const Expr *skip(const Expr *E) {
    while (true) {
      if (auto *P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<ExprWithCleanups>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<ConstantExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = P->getReplacement();
      else if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) E = P->getExpr();
      else if (auto *P = dyn_cast<CXXRewrittenBinaryOperator>(E)) E = P->getSemanticForm();
      else return E;
    }
  }
  Value expr(const Expr *E0) {
    bool temp = false; { const Expr *e = E0; while (true) { if (isa<MaterializeTemporaryExpr>(e)) { temp = true; break; }
      const Expr *n = e; if (auto *P = dyn_cast<ParenExpr>(e)) n = P->getSubExpr(); else if (auto *P = dyn_cast<ExprWithCleanups>(e)) n = P->getSubExpr(); else break; e = n; } }
    const Expr *E = skip(E0);
    Object o; o["k"] = E->getStmtClassName(); o["t"] = ty(E->getType()); o["l"] = (int) C.getSourceManager().getExpansionLineNumber(E->getBeginLoc());
    o["vk"] = E->isLValue() ? "l" : E->isXValue() ? "x" : "r";
    if (temp) o["mt"] = true;
    if (auto *L = dyn_cast<IntegerLiteral>(E)) { llvm::SmallString<32> s; L->getValue().toString(s, 10, E->getType()->isSignedIntegerType()); o["v"] = s.str().str(); return o; }
    if (auto *L = dyn_cast<FloatingLiteral>(E)) { llvm::SmallString<64> s; L->getValue().toString(s, 40, 0); o["v"] = s.str().str(); char b[64]; snprintf(b, 64, "%a", L->getValueAsApproximateDouble()); o["hex"] = std::string(b); return o; }
    if (auto *L = dyn_cast<CXXBoolLiteralExpr>(E)) { o["v"] = L->getValue(); return o; }
    if (auto *L = dyn_cast<CharacterLiteral>(E)) { o["v"] = std::to_string(L->getValue()); return o; }
    if (auto *L = dyn_cast<StringLiteral>(E)) { if (L->getCharByteWidth() == 1) { Array b; for (unsigned char c : L->getString()) b.push_back((int) c); o["bytes"] = std::move(b);} return o; }
    if (auto *L = dyn_cast<DeclRefExpr>(E)) { o["d"] = vref(L->getDecl()); return o; }
    if (auto *L = dyn_cast<MemberExpr>(E)) { o["d"] = vref(L->getMemberDecl()); o["arrow"] = L->isArrow(); o["qual"] = L->hasQualifier(); o["c"] = Array{expr(L->getBase())}; return o; }
    if (auto *L = dyn_cast<CastExpr>(E)) {
      o["ck"] = L->getCastKindName(); o["c"] = Array{expr(L->getSubExpr())};
      if (auto *F = L->getConversionFunction()) if (auto *FD = dyn_cast<FunctionDecl>(F)) o["fn"] = fref(FD);
      if (L->getCastKind() == CK_DerivedToBase || L->getCastKind() == CK_UncheckedDerivedToBase) {}
      return o; }
    if (auto *L = dyn_cast<UnaryOperator>(E)) { o["op"] = UnaryOperator::getOpcodeStr(L->getOpcode()).str(); o["post"] = L->isPostfix(); o["c"] = Array{expr(L->getSubExpr())}; return o; }
    if (auto *L = dyn_cast<CompoundAssignOperator>(E)) { o["op"] = L->getOpcodeStr().str(); o["ct"] = ty(L->getComputationResultType()); o["clt"] = ty(L->getComputationLHSType()); o["c"] = Array{expr(L->getLHS()), expr(L->getRHS())}; return o; }
    if (auto *L = dyn_cast<BinaryOperator>(E)) { o["op"] = L->getOpcodeStr().str(); o["c"] = Array{expr(L->getLHS()), expr(L->getRHS())}; return o; }
    if (auto *L = dyn_cast<ConditionalOperator>(E)) { o["c"] = Array{expr(L->getCond()), expr(L->getTrueExpr()), expr(L->getFalseExpr())}; return o; }
    if (auto *L = dyn_cast<CXXConstructExpr>(E)) { o["fn"] = fref(L->getConstructor()); Array a; for (auto *x : L->arguments()) a.push_back(expr(x)); o["c"] = std::move(a); o["elid"] = L->isElidable(); o["list"] = L->isListInitialization(); o["zero"] = L->requiresZeroInitialization(); o["sil"] = L->isStdInitListInitialization();
      if (auto *D = fnDef(L->getConstructor())) { (void) D; } return o; }
    if (auto *L = dyn_cast<CXXMemberCallExpr>(E)) { if (auto *M = L->getMethodDecl()) o["fn"] = fref(M);
      if (auto *ME = dyn_cast<MemberExpr>(L->getCallee()->IgnoreParens())) { o["obj"] = expr(ME->getBase()); o["arrow"] = ME->isArrow(); o["qual"] = ME->hasQualifier(); }
      Array a; for (auto *x : L->arguments()) a.push_back(expr(x)); o["c"] = std::move(a); return o; }
    if (auto *L = dyn_cast<CXXOperatorCallExpr>(E)) { if (auto *F = L->getDirectCallee()) { o["fn"] = fref(F); o["ismeth"] = isa<CXXMethodDecl>(F); } o["op"] = getOperatorSpelling(L->getOperator());
      Array a; for (auto *x : L->arguments()) a.push_back(expr(x)); o["c"] = std::move(a); return o; }
    if (auto *L = dyn_cast<CallExpr>(E)) { if (auto *F = L->getDirectCallee()) o["fn"] = fref(F); else o["callee"] = expr(L->getCallee());
      Array a; for (auto *x : L->arguments()) a.push_back(expr(x)); o["c"] = std::move(a); return o; }
    if (auto *L = dyn_cast<CXXDefaultArgExpr>(E)) { o["c"] = Array{expr(L->getExpr())}; return o; }
    if (auto *L = dyn_cast<CXXNewExpr>(E)) { o["at"] = ty(L->getAllocatedType()); if (L->getConstructExpr()) o["c"] = Array{expr(L->getConstructExpr())}; else if (L->getInitializer()) o["c"] = Array{expr(L->getInitializer())}; o["arr"] = L->isArray(); return o; }
    if (auto *L = dyn_cast<CXXDeleteExpr>(E)) { o["c"] = Array{expr(L->getArgument())}; return o; }
    if (auto *L = dyn_cast<InitListExpr>(E)) { Array a; const InitListExpr *S = L->isSemanticForm() ? L : (L->getSemanticForm() ? L->getSemanticForm() : L); for (auto *x : S->inits()) a.push_back(expr(x)); o["c"] = std::move(a); if (S->hasArrayFiller()) o["filler"] = expr(S->getArrayFiller());
      if (auto *RD = S->getType()->getAsCXXRecordDecl()) { Array b; for (auto *F : RD->fields()) b.push_back(F->getNameAsString()); o["fields"] = std::move(b); o["nbases"] = (int) RD->getNumBases(); }
      return o; }
    if (auto *L = dyn_cast<CXXStdInitializerListExpr>(E)) { o["c"] = Array{expr(L->getSubExpr())}; return o; }
    if (auto *L = dyn_cast<LambdaExpr>(E)) {
      Array caps; auto it = L->capture_init_begin();
      for (auto &cp : L->captures()) { Object c; c["byref"] = cp.getCaptureKind() == LCK_ByRef; c["this"] = cp.capturesThis(); if (cp.capturesVariable()) { c["d"] = vref(cp.getCapturedVar()); }
        if (*it) c["init"] = expr(*it); ++it; caps.push_back(std::move(c)); }
      o["caps"] = std::move(caps); 
      const CXXMethodDecl *M = L->getCallOperator();
      if (M->isDependentContext() || M->getDescribedFunctionTemplate()) { Array sp; if (auto *FT = M->getDescribedFunctionTemplate()) for (auto *S : FT->specializations()) { exportFn(S); sp.push_back(fkey(S)); } o["specs"] = std::move(sp); }
      else { o["fn"] = fref(M); exportFn(M); }
      return o; }
    if (auto *L = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { Expr::EvalResult R; if (L->EvaluateAsInt(R, C)) { llvm::SmallString<16> s; R.Val.getInt().toString(s); o["v"] = s.str().str(); } return o; }
    if (auto *L = dyn_cast<CXXTypeidExpr>(E)) { if (L->isTypeOperand()) o["at"] = ty(L->getTypeOperand(C)); else o["c"] = Array{expr(L->getExprOperand())}; return o; }
    if (auto *L = dyn_cast<CXXThrowExpr>(E)) { Array a; if (L->getSubExpr()) { a.push_back(expr(L->getSubExpr())); o["et"] = ty(L->getSubExpr()->getType()); } o["c"] = std::move(a); return o; }
    if (auto *L = dyn_cast<OpaqueValueExpr>(E)) { if (L->getSourceExpr()) o["c"] = Array{expr(L->getSourceExpr())}; return o; }
    if (auto *L = dyn_cast<ArraySubscriptExpr>(E)) { o["c"] = Array{expr(L->getLHS()), expr(L->getRHS())}; return o; }
    // CXXThisExpr, ImplicitValueInitExpr, CXXScalarValueInitExpr, CXXNullPtrLiteralExpr, ... : kind and children only
    Array a; for (auto *x : E->children()) if (x) { if (auto *xe = dyn_cast<Expr>(x)) a.push_back(expr(xe)); else a.push_back(stmt(x)); } o["c"] = std::move(a);
    return o;
  }
  const FunctionDecl *fnDef(const FunctionDecl *F) { const FunctionDecl *D = nullptr; if (F->isDefined(D)) return D; return nullptr; }
  Value var(const VarDecl *V) {
    Object o; o["k"] = "Var"; o["id"] = id(V); o["n"] = V->getNameAsString(); o["t"] = ty(V->getType()); o["l"] = (int) C.getSourceManager().getExpansionLineNumber(V->getBeginLoc());
    if (V->getInit()) o["init"] = expr(V->getInit()); if (V->isStaticLocal()) o["staticlocal"] = true;
    return o;
  }
  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) { Object o; o["k"] = "Expr"; o["e"] = expr(E); o["l"] = (int) C.getSourceManager().getExpansionLineNumber(S->getBeginLoc()); return o; }
    Object o; o["k"] = S->getStmtClassName(); o["l"] = (int) C.getSourceManager().getExpansionLineNumber(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) { Array a; for (auto *x : X->body()) a.push_back(stmt(x)); o["c"] = std::move(a); return o; }
    if (auto *X = dyn_cast<DeclStmt>(S)) { Array a; for (auto *d : X->decls()) { if (auto *V = dyn_cast<VarDecl>(d)) a.push_back(var(V)); else { Object q; q["k"] = "OtherDecl"; q["dk"] = d->getDeclKindName(); a.push_back(std::move(q)); } } o["c"] = std::move(a); return o; }
    if (auto *X = dyn_cast<IfStmt>(S)) { o["init"] = stmt(X->getInit()); if (X->getConditionVariable()) o["cv"] = var(X->getConditionVariable()); o["constexpr"] = X->isConstexpr(); o["cond"] = expr(X->getCond()); o["then"] = stmt(X->getThen()); o["else"] = stmt(X->getElse()); return o; }
    if (auto *X = dyn_cast<ForStmt>(S)) { o["init"] = stmt(X->getInit()); if (X->getCond()) o["cond"] = expr(X->getCond()); if (X->getInc()) o["inc"] = expr(X->getInc()); o["body"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<WhileStmt>(S)) { o["cond"] = expr(X->getCond()); if (X->getConditionVariable()) o["cv"] = var(X->getConditionVariable()); o["body"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<DoStmt>(S)) { o["cond"] = expr(X->getCond()); o["body"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) { o["init"] = stmt(X->getInit()); o["range"] = expr(X->getRangeInit()); o["rt"] = ty(X->getRangeInit()->getType()); o["var"] = var(X->getLoopVariable()); o["body"] = stmt(X->getBody());
      return o; }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { if (X->getRetValue()) o["e"] = expr(X->getRetValue()); return o; }
    if (auto *X = dyn_cast<SwitchStmt>(S)) { o["cond"] = expr(X->getCond()); o["body"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<CaseStmt>(S)) { o["v"] = expr(X->getLHS()); o["sub"] = stmt(X->getSubStmt()); return o; }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { o["sub"] = stmt(X->getSubStmt()); return o; }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) { o["body"] = stmt(X->getTryBlock()); Array a; for (unsigned i = 0; i < X->getNumHandlers(); ++i) { auto *H = X->getHandler(i); Object h; if (H->getExceptionDecl()) { h["t"] = ty(H->getCaughtType()); h["id"] = id(H->getExceptionDecl()); } h["body"] = stmt(H->getHandlerBlock()); a.push_back(std::move(h)); } o["handlers"] = std::move(a); return o; }
    Array a; for (auto *x : S->children()) if (x) a.push_back(stmt(x)); o["c"] = std::move(a);
    return o;
  }
  void exportFn(const FunctionDecl *F0) {
    const FunctionDecl *F = nullptr; if (!F0->isDefined(F)) return;
    if (F->isDependentContext() || F->isDeleted()) return;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isDependentContext()) return;
    if (!seen.insert(F->getCanonicalDecl()).second) return;
    Object o; o["f"] = fref(F); o["loc"] = loc(F->getLocation()); o["rt"] = ty(F->getReturnType());
    Array ps; for (auto *p : F->parameters()) { Object q; q["id"] = id(p); q["n"] = p->getNameAsString(); q["t"] = ty(p->getType()); ps.push_back(std::move(q)); } o["params"] = std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { Array ov; for (auto *b : M->overridden_methods()) ov.push_back(fkey(b)); if (!ov.empty()) o["overrides"] = std::move(ov);
      if (M->isInstance()) o["inst"] = true; o["tconst"] = M->isConst(); }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) { Array in;
      for (auto *I : CD->inits()) { Object q; if (I->isMemberInitializer()) { q["field"] = I->getMember()->getNameAsString(); } else if (I->isBaseInitializer()) { q["base"] = ty(QualType(I->getBaseClass(), 0)); } else if (I->isDelegatingInitializer()) q["deleg"] = true; else if (I->isIndirectMemberInitializer()) q["field"] = I->getIndirectMember()->getNameAsString();
        q["init"] = expr(I->getInit()); q["written"] = I->isWritten(); in.push_back(std::move(q)); }
      o["inits"] = std::move(in); }
    if (F->doesThisDeclarationHaveABody() || F->hasBody()) { if (auto *B = F->getBody()) o["body"] = stmt(B); }
    functions[fkey(F)] = std::move(o);
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!inRoots(F->getLocation())) return true;
    if (F->isThisDeclarationADefinition()) exportFn(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    SourceLocation where = R->getLocation();
    if (auto *P = R->getTemplateInstantiationPattern()) where = P->getLocation();   // an explicit instantiation is located in our own file
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || !inRoots(where)) return true;
    if (R->isLambda()) return true;
    Object o; Array b; for (auto &B : R->bases()) b.push_back(ty(B.getType())); o["bases"] = std::move(b);
    Array f; for (auto *F : R->fields()) { Object q; q["n"] = F->getNameAsString(); q["t"] = ty(F->getType()); if (F->hasInClassInitializer() && F->getInClassInitializer() && !F->getInClassInitializer()->isValueDependent()) q["init"] = expr(F->getInClassInitializer()); f.push_back(std::move(q)); } o["fields"] = std::move(f);
    o["poly"] = R->isPolymorphic(); o["abstract"] = R->isAbstract(); o["loc"] = loc(R->getLocation());
    Array m; for (auto *M : R->methods()) { Object q; q["key"] = fkey(M); q["n"] = M->getNameAsString(); q["virt"] = M->isVirtual(); q["pure"] = M->isPureVirtual(); Array ov; for (auto *x : M->overridden_methods()) ov.push_back(fkey(x)); q["ov"] = std::move(ov); m.push_back(std::move(q)); } o["methods"] = std::move(m);
    records[recname(R)] = std::move(o);
    return true;
  }
};
struct Cons : ASTConsumer { std::string out; Cons(std::string o) : out(o) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Exporter E(C); E.TraverseDecl(C.getTranslationUnitDecl());
    Object o; o["functions"] = std::move(E.functions); o["records"] = std::move(E.records);
    std::error_code ec; llvm::raw_fd_ostream os(out, ec); os << Value(std::move(o));
  } };
static std::string outfile;
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Cons>(outfile); } };
int main(int argc, char **argv) {
  // astexport OUT.json SRC.cc root1,root2 -- flags
  if (argc < 5) return 2;
  outfile = argv[1]; std::string src = argv[2], rs = argv[3];
  size_t p = 0; while (p <= rs.size()) { auto q = rs.find(',', p); if (q == std::string::npos) q = rs.size(); roots.push_back(rs.substr(p, q - p)); p = q + 1; }
  std::vector<std::string> flags; for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, {src});
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
