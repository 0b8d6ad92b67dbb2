// Extractor: clang AST -> compact, type-resolved JSON used by the analyses.
// usage: lpx ROOT OUT.json FILE -- <compiler args>
#include "clang/AST/AST.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
#include <map>
#include <deque>
using namespace clang;
using llvm::json::Object; using llvm::json::Array; using llvm::json::Value;
static std::string Root, OutFile;

struct Ex {
  ASTContext &C; SourceManager &SM; std::unique_ptr<ASTNameGenerator> Names;
  PrintingPolicy PP;
  Object Functions, Records; Array Globals; Array Decls; Array Diags;
  std::set<std::string> doneF, doneR; std::map<const ValueDecl*, int> varIds; int nextId = 1;
  std::deque<const FunctionDecl*> work;
  std::set<const Decl*> doneG;
  Ex(ASTContext &C) : C(C), SM(C.getSourceManager()), Names(new ASTNameGenerator(C)), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.UsePreferredNames = false; PP.SuppressUnwrittenScope=true; PP.PrintCanonicalTypes = true;
    PP.SuppressDefaultTemplateArgs = true;
  }
  std::string ty(QualType T) { if (T.isNull()) return "?"; return T.getCanonicalType().getAsString(PP); }
  std::string fileOf(SourceLocation L) {
    L = SM.getFileLoc(L); if (L.isInvalid()) return "";
    auto F = SM.getFileEntryRefForID(SM.getFileID(L)); if (!F) return "";
    llvm::StringRef R = F->getFileEntry().tryGetRealPathName(); return R.empty()? F->getName().str() : R.str();
  }
  bool inRepo(SourceLocation L) { auto f = fileOf(L); return f.compare(0, Root.size(), Root) == 0; }
  int line(SourceLocation L) { L = SM.getFileLoc(L); return L.isInvalid() ? 0 : (int)SM.getSpellingLineNumber(L); }
  std::string key(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    std::string n = Names->getName(F);
    if (isa<CXXConstructorDecl>(F) || isa<CXXDestructorDecl>(F)) {
      auto all = Names->getAllManglings(F); if (!all.empty()) n = all[0];
    }
    if (n.empty()) n = qn(F) + "#" + ty(F->getType());
    return n;
  }
  std::string qn(const NamedDecl *D) { std::string s; llvm::raw_string_ostream os(s); D->printQualifiedName(os, PP); os.flush();
    // drop inline namespaces of libstdc++
    for (const char *x : {"std::__cxx11::", "std::__1::"}) { size_t p; while ((p = s.find(x)) != std::string::npos) s.replace(p, strlen(x), "std::"); }
    return s; }
  int var(const ValueDecl *V) { V = cast<ValueDecl>(V->getCanonicalDecl()); auto it = varIds.find(V); if (it != varIds.end()) return it->second; return varIds[V] = nextId++; }
  std::string recName(const CXXRecordDecl *R) { return ty(C.getRecordType(R)); }
  bool userCode(const FunctionDecl *F) {
    const FunctionDecl *D = F; F->isDefined(D);
    const FunctionDecl *P = D; if (auto *T = F->getTemplateInstantiationPattern()) { P = T; }
    return inRepo(P->getLocation()) || inRepo(F->getLocation());
  }
  void need(const FunctionDecl *F) { if (userCode(F)) work.push_back(F); }
  // ---------- expressions
  Value E(const Expr *X) {
    if (!X) return nullptr;
    X = X->IgnoreParens();
    Object o = E0(X);
    if (!o.get("l")) { int l = line(X->getBeginLoc()); if (l) o["l"] = l; }
    return Value(std::move(o));
  }
  Object call(const FunctionDecl *F, const Expr *obj, bool arrow, llvm::ArrayRef<const Expr*> args, QualType rt, SourceLocation L) {
    Object o; o["k"] = "call"; o["f"] = key(F); o["q"] = qn(F); o["n"] = F->getDeclName().getAsString(); o["l"] = line(L);
    o["rt"] = ty(rt); o["repo"] = userCode(F);
    if (F->isOverloadedOperator()) o["op"] = getOperatorSpelling(F->getOverloadedOperator());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = recName(M->getParent()); if (M->isVirtual()) o["virt"] = true; if (M->isStatic()) o["static"] = true;
      if (M->isConst()) o["const"] = true;
    }
    if (obj) { o["obj"] = E(obj); o["arrow"] = arrow; o["ot"] = ty(obj->getType()); }
    if (F->getTemplateSpecializationArgs()) { std::string s; llvm::raw_string_ostream os(s); for (auto &A : F->getTemplateSpecializationArgs()->asArray()) { A.print(PP, os, true); os << ";"; } o["targs"] = os.str(); }
    Array a; for (auto *x : args) a.push_back(E(x)); o["args"] = std::move(a);
    // reference-ness of parameters
    Array pr; for (unsigned i = 0; i < F->getNumParams(); i++) { QualType T = F->getParamDecl(i)->getType(); pr.push_back(T->isReferenceType() ? (T.getNonReferenceType().isConstQualified() ? 2 : 1) : 0); } o["pr"] = std::move(pr);
    if (F->getReturnType()->isReferenceType()) o["rref"] = true;
    need(F); return o;
  }
  Object E0(const Expr *X) {
    Object o;
    if (auto *e = dyn_cast<ExprWithCleanups>(X)) return *E(e->getSubExpr()).getAsObject();
    if (auto *e = dyn_cast<MaterializeTemporaryExpr>(X)) { o["k"]="mat"; o["e"]=E(e->getSubExpr()); o["t"]=ty(e->getType()); return o; }
    if (auto *e = dyn_cast<CXXBindTemporaryExpr>(X)) return *E(e->getSubExpr()).getAsObject();
    if (auto *e = dyn_cast<ConstantExpr>(X)) return *E(e->getSubExpr()).getAsObject();
    if (auto *e = dyn_cast<SubstNonTypeTemplateParmExpr>(X)) return *E(e->getReplacement()).getAsObject();
    if (auto *e = dyn_cast<CXXDefaultArgExpr>(X)) { o = std::move(*E(e->getExpr()).getAsObject()); o["l"]=line(e->getUsedLocation()); return o; }
    if (auto *e = dyn_cast<CXXDefaultInitExpr>(X)) return *E(e->getExpr()).getAsObject();
    if (auto *e = dyn_cast<CXXStdInitializerListExpr>(X)) { o["k"]="stdinit"; o["e"]=E(e->getSubExpr()); return o; }
    if (auto *e = dyn_cast<CXXFunctionalCastExpr>(X)) { if (e->getCastKind()==CK_ConstructorConversion || e->getCastKind()==CK_NoOp) return *E(e->getSubExpr()).getAsObject(); }
    if (auto *e = dyn_cast<IntegerLiteral>(X)) { o["k"]="int"; llvm::SmallString<32> s; e->getValue().toString(s, 10, e->getType()->isSignedIntegerType()); o["v"]=s.str().str(); return o; }
    if (auto *e = dyn_cast<FloatingLiteral>(X)) { o["k"]="flt"; llvm::SmallString<64> s; e->getValue().toString(s, 0, 0); o["v"]=s.str().str(); o["t"]=ty(e->getType()); return o; }
    if (auto *e = dyn_cast<CXXBoolLiteralExpr>(X)) { o["k"]="bool"; o["v"]=e->getValue(); return o; }
    if (isa<CXXNullPtrLiteralExpr>(X) || isa<GNUNullExpr>(X)) { o["k"]="null"; return o; }
    if (auto *e = dyn_cast<StringLiteral>(X)) { o["k"]="str"; o["v"]= e->getCharByteWidth()==1 ? e->getString().str() : std::string("?"); return o; }
    if (auto *e = dyn_cast<CharacterLiteral>(X)) { o["k"]="int"; o["v"]=std::to_string(e->getValue()); return o; }
    if (isa<CXXThisExpr>(X)) { o["k"]="this"; return o; }
    if (auto *e = dyn_cast<DeclRefExpr>(X)) {
      const ValueDecl *D = e->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { o["k"]="int"; llvm::SmallString<32> s; EC->getInitVal().toString(s,10); o["v"]=s.str().str(); return o; }
      if (auto *F = dyn_cast<FunctionDecl>(D)) { need(F); o["k"]="fn"; o["f"]=key(F); o["q"]=qn(F); return o; }
      o["k"]="var"; o["id"]=var(D); o["n"]=D->getNameAsString(); o["t"]=ty(D->getType());
      if (auto *V = dyn_cast<VarDecl>(D)) { V = V->getCanonicalDecl();
        if (V->hasGlobalStorage()) { o["g"]=qn(V); if (V->isStaticLocal()) o["sl"]=true; if (V->getType().isConstQualified()) o["cq"]=true; global(V); } }
      return o;
    }
    if (auto *e = dyn_cast<MemberExpr>(X)) {
      auto *D = e->getMemberDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) { o["k"]="var"; o["id"]=var(V); o["n"]=V->getNameAsString(); o["g"]=qn(V); o["t"]=ty(V->getType()); global(V); return o; }
      if (auto *F = dyn_cast<FunctionDecl>(D)) { need(F); o["k"]="fn"; o["f"]=key(F); o["q"]=qn(F); return o; }
      o["k"]="mem"; o["b"]=E(e->getBase()); o["arrow"]=e->isArrow(); o["n"]=D->getNameAsString(); o["t"]=ty(e->getType());
      if (auto *FD = dyn_cast<FieldDecl>(D)) if (auto *R = dyn_cast<CXXRecordDecl>(FD->getParent())) o["rc"]=recName(R);
      return o;
    }
    if (auto *e = dyn_cast<CXXOperatorCallExpr>(X)) {
      auto *F = e->getDirectCallee();
      if (!F) { o["k"]="unk"; o["c"]="opcall"; return o; }
      std::vector<const Expr*> a(e->arg_begin(), e->arg_end());
      if (isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) { auto *ob=a[0]; a.erase(a.begin()); return call(F, ob, false, a, e->getType(), e->getOperatorLoc()); }
      return call(F, nullptr, false, a, e->getType(), e->getOperatorLoc());
    }
    if (auto *e = dyn_cast<CXXMemberCallExpr>(X)) {
      auto *F = e->getMethodDecl(); if (!F) { o["k"]="unk"; o["c"]="memptrcall"; return o; }
      std::vector<const Expr*> a(e->arg_begin(), e->arg_end());
      bool arrow=false; if (auto *ME = dyn_cast<MemberExpr>(e->getCallee()->IgnoreParens())) { arrow = ME->isArrow(); 
        Object r = call(F, e->getImplicitObjectArgument(), arrow, a, e->getType(), ME->getMemberLoc()); if (ME->hasQualifier()) r["qualified"]=true; return r; }
      return call(F, e->getImplicitObjectArgument(), arrow, a, e->getType(), e->getExprLoc());
    }
    if (auto *e = dyn_cast<CallExpr>(X)) {
      auto *F = e->getDirectCallee();
      std::vector<const Expr*> a(e->arg_begin(), e->arg_end());
      if (!F) { o["k"]="icall"; o["fn"]=E(e->getCallee()); Array A; for (auto*x:a) A.push_back(E(x)); o["args"]=std::move(A); o["rt"]=ty(e->getType()); return o; }
      return call(F, nullptr, false, a, e->getType(), e->getExprLoc());
    }
    if (auto *e = dyn_cast<CXXConstructExpr>(X)) {
      auto *F = e->getConstructor(); o["k"]="ctor"; o["f"]=key(F); o["cls"]=recName(F->getParent()); o["t"]=ty(e->getType()); o["l"]=line(e->getLocation());
      if (F->isCopyConstructor()) o["copy"]=true; if (F->isMoveConstructor()) o["move"]=true; if (F->isDefaultConstructor()) o["dflt"]=true;
      if (e->isListInitialization()) o["list"]=true; if (e->isStdInitListInitialization()) o["stdlist"]=true;
      if (F->isImplicit()||F->isDefaulted()) o["impl"]=true; o["repo"]=userCode(F);
      if (e->requiresZeroInitialization()) o["zero"]=true;
      if (F->getTemplateSpecializationArgs()) { std::string s; llvm::raw_string_ostream os(s); for (auto &A : F->getTemplateSpecializationArgs()->asArray()) { A.print(PP, os, true); os << ";"; } o["targs"] = os.str(); }
      Array a; for (auto *x : e->arguments()) a.push_back(E(x)); o["args"]=std::move(a);
      Array pt; for (unsigned i=0;i<F->getNumParams();i++) pt.push_back(ty(F->getParamDecl(i)->getType())); o["pt"]=std::move(pt);
      need(F); return o;
    }
    if (auto *e = dyn_cast<CXXTemporaryObjectExpr>(X)) { (void)e; }
    if (auto *e = dyn_cast<CXXScalarValueInitExpr>(X)) { o["k"]="zero"; o["t"]=ty(e->getType()); return o; }
    if (auto *e = dyn_cast<ImplicitValueInitExpr>(X)) { o["k"]="zero"; o["t"]=ty(e->getType()); return o; }
    if (auto *e = dyn_cast<CXXNewExpr>(X)) {
      o["k"]="new"; o["t"]=ty(e->getAllocatedType()); if (e->isArray()) { o["array"]=true; if (auto s=e->getArraySize()) o["sz"]=E(*s);} 
      if (e->getNumPlacementArgs()) o["placement"]=true;
      if (auto *I = e->getInitializer()) o["init"]=E(I); return o;
    }
    if (auto *e = dyn_cast<CXXDeleteExpr>(X)) { o["k"]="delete"; o["e"]=E(e->getArgument()); if (e->isArrayForm()) o["array"]=true; return o; }
    if (auto *e = dyn_cast<UnaryOperator>(X)) {
      o["k"]="un"; o["op"]=UnaryOperator::getOpcodeStr(e->getOpcode()).str(); if (e->isPostfix()) o["post"]=true; o["e"]=E(e->getSubExpr()); o["t"]=ty(e->getType()); return o;
    }
    if (auto *e = dyn_cast<CompoundAssignOperator>(X)) {
      o["k"]="asg"; std::string op=e->getOpcodeStr().str(); o["op"]=op; o["a"]=E(e->getLHS()); o["b"]=E(e->getRHS()); o["t"]=ty(e->getType()); o["ct"]=ty(e->getComputationResultType()); o["l"]=line(e->getOperatorLoc()); return o;
    }
    if (auto *e = dyn_cast<BinaryOperator>(X)) {
      o["k"]= e->isAssignmentOp() ? "asg" : "bin"; o["op"]=e->getOpcodeStr().str(); o["a"]=E(e->getLHS()); o["b"]=E(e->getRHS()); o["t"]=ty(e->getType()); o["l"]=line(e->getOperatorLoc());
      if (e->isComparisonOp()) o["ct"]=ty(e->getLHS()->getType());
      return o;
    }
    if (auto *e = dyn_cast<ConditionalOperator>(X)) { o["k"]="cond"; o["c"]=E(e->getCond()); o["a"]=E(e->getTrueExpr()); o["b"]=E(e->getFalseExpr()); o["t"]=ty(e->getType()); return o; }
    if (auto *e = dyn_cast<ArraySubscriptExpr>(X)) { o["k"]="sub"; o["a"]=E(e->getBase()); o["b"]=E(e->getIdx()); o["t"]=ty(e->getType()); return o; }
    if (auto *e = dyn_cast<LambdaExpr>(X)) {
      o["k"]="lambda"; o["f"]=key(e->getCallOperator()); Array caps; 
      for (auto &c : e->captures()) { Object co; if (c.capturesThis()) co["this"]=true; else if (c.capturesVariable()) { co["id"]=var(cast<ValueDecl>(c.getCapturedVar())); co["n"]=c.getCapturedVar()->getNameAsString(); }
        co["ref"]= c.getCaptureKind()==LCK_ByRef || c.getCaptureKind()==LCK_This; if (c.capturesVariable() && e->isInitCapture(&c)) if (auto *V=dyn_cast<VarDecl>(c.getCapturedVar())) co["init"]=E(V->getInit()); caps.push_back(std::move(co)); }
      o["caps"]=std::move(caps); fnDef(e->getCallOperator(), true); return o;
    }
    if (auto *e = dyn_cast<InitListExpr>(X)) { if (auto *S=e->getSemanticForm()) e=S; o["k"]="ilist"; o["t"]=ty(e->getType()); Array a; for (auto *x : e->inits()) a.push_back(E(x)); o["es"]=std::move(a); return o; }
    if (auto *e = dyn_cast<UnaryExprOrTypeTraitExpr>(X)) { Expr::EvalResult R; if (e->EvaluateAsInt(R, C)) { o["k"]="int"; llvm::SmallString<32> s; R.Val.getInt().toString(s,10); o["v"]=s.str().str(); return o; } }
    if (auto *e = dyn_cast<CastExpr>(X)) {
      auto K = e->getCastKind();
      switch (K) {
      case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay: case CK_ConstructorConversion: case CK_UserDefinedConversion: case CK_ArrayToPointerDecay: case CK_BuiltinFnToFnPtr:
        { if (!isa<ExplicitCastExpr>(e) || K!=CK_NoOp) return *E(e->getSubExpr()).getAsObject(); return *E(e->getSubExpr()).getAsObject(); }
      case CK_NullToPointer: o["k"]="null"; return o;
      default: break;
      }
      o["k"]="cast"; o["ck"]=e->getCastKindName(); o["t"]=ty(e->getType()); o["ft"]=ty(e->getSubExpr()->getType()); o["e"]=E(e->getSubExpr()); if (isa<ExplicitCastExpr>(e)) o["explicit"]=true; 
      if (auto *P = e->getType()->getAs<PointerType>()) if (auto *R=P->getPointeeCXXRecordDecl()) o["pc"]=recName(R);
      return o;
    }
    if (auto *e = dyn_cast<CXXThrowExpr>(X)) { o["k"]="throw"; if (e->getSubExpr()) o["e"]=E(e->getSubExpr()); return o; }
    if (auto *e = dyn_cast<OpaqueValueExpr>(X)) { if (e->getSourceExpr()) return *E(e->getSourceExpr()).getAsObject(); }
    if (auto *e = dyn_cast<ArrayInitLoopExpr>(X)) { (void)e; }
    o["k"]="unk"; o["c"]=X->getStmtClassName(); Array ch; for (auto *c : X->children()) if (auto *ce=dyn_cast_or_null<Expr>(c)) ch.push_back(E(ce)); o["ch"]=std::move(ch); return o;
  }
  // ---------- statements
  Object V(const VarDecl *V) {
    Object o; o["id"]=var(V); o["n"]=V->getNameAsString(); o["t"]=ty(V->getType()); o["l"]=line(V->getLocation());
    QualType T=V->getType(); if (T->isReferenceType()) o["ref"]=true; 
    if (V->isStaticLocal()) { o["static"]=true; global(V);} 
    if (auto *I=V->getInit()) o["init"]=E(I);
    return o;
  }
  Value S(const Stmt *X) {
    Object o; if (!X) return nullptr; o["l"]=line(X->getBeginLoc());
    if (auto *e = dyn_cast<Expr>(X)) { o["k"]="expr"; o["e"]=E(e); return Value(std::move(o)); }
    if (auto *s = dyn_cast<CompoundStmt>(X)) { o["k"]="block"; Array a; for (auto *c : s->body()) a.push_back(S(c)); o["b"]=std::move(a); return Value(std::move(o)); }
    if (auto *s = dyn_cast<DeclStmt>(X)) { o["k"]="decl"; Array a; for (auto *d : s->decls()) if (auto *v=dyn_cast<VarDecl>(d)) a.push_back(V(v)); o["vs"]=std::move(a); return Value(std::move(o)); }
    if (auto *s = dyn_cast<IfStmt>(X)) { o["k"]="if"; if (s->getInit()) o["init"]=S(s->getInit()); if (s->getConditionVariable()) o["cv"]=V(s->getConditionVariable()); o["c"]=E(s->getCond()); o["t"]=S(s->getThen()); if (s->getElse()) o["e"]=S(s->getElse()); return Value(std::move(o)); }
    if (auto *s = dyn_cast<ForStmt>(X)) { o["k"]="for"; if (s->getInit()) o["init"]=S(s->getInit()); if (s->getCond()) o["c"]=E(s->getCond()); if (s->getInc()) o["inc"]=E(s->getInc()); o["b"]=S(s->getBody()); return Value(std::move(o)); }
    if (auto *s = dyn_cast<WhileStmt>(X)) { o["k"]="while"; o["c"]=E(s->getCond()); o["b"]=S(s->getBody()); return Value(std::move(o)); }
    if (auto *s = dyn_cast<DoStmt>(X)) { o["k"]="do"; o["c"]=E(s->getCond()); o["b"]=S(s->getBody()); return Value(std::move(o)); }
    if (auto *s = dyn_cast<CXXForRangeStmt>(X)) { o["k"]="rfor"; o["v"]=V(s->getLoopVariable()); o["r"]=E(s->getRangeInit()); o["rt"]=ty(s->getRangeInit()->getType());
      // the initialiser of the loop variable refers to *__begin; drop it but keep conversions
      if (auto *vo=o.getObject("v")) { if (auto *I=s->getLoopVariable()->getInit()) (*vo)["copyctor"]=isa<CXXConstructExpr>(I->IgnoreImplicit()); vo->erase("init"); }
      o["b"]=S(s->getBody()); return Value(std::move(o)); }
    if (auto *s = dyn_cast<ReturnStmt>(X)) { o["k"]="ret"; if (s->getRetValue()) o["e"]=E(s->getRetValue()); return Value(std::move(o)); }
    if (isa<BreakStmt>(X)) { o["k"]="break"; return Value(std::move(o)); }
    if (isa<ContinueStmt>(X)) { o["k"]="continue"; return Value(std::move(o)); }
    if (isa<NullStmt>(X)) { o["k"]="null"; return Value(std::move(o)); }
    if (auto *s = dyn_cast<SwitchStmt>(X)) { o["k"]="switch"; o["c"]=E(s->getCond()); o["b"]=S(s->getBody()); return Value(std::move(o)); }
    if (auto *s = dyn_cast<CaseStmt>(X)) { o["k"]="case"; o["v"]=E(s->getLHS()); if (s->getRHS()) o["hi"]=E(s->getRHS()); o["b"]=S(s->getSubStmt()); return Value(std::move(o)); }
    if (auto *s = dyn_cast<DefaultStmt>(X)) { o["k"]="default"; o["b"]=S(s->getSubStmt()); return Value(std::move(o)); }
    if (auto *s = dyn_cast<CXXTryStmt>(X)) { o["k"]="try"; o["b"]=S(s->getTryBlock()); o["nh"]=(int)s->getNumHandlers(); return Value(std::move(o)); }
    if (auto *s = dyn_cast<AttributedStmt>(X)) return S(s->getSubStmt());
    o["k"]="sunk"; o["c"]=X->getStmtClassName(); return Value(std::move(o));
  }
  void global(const VarDecl *V) {
    V = V->getCanonicalDecl(); if (!doneG.insert(V).second) return;
    if (!inRepo(V->getLocation())) { 
      Object o; o["q"]=qn(V); o["ext"]=true; o["t"]=ty(V->getType()); o["id"]=var(V); o["const"]=V->getType().isConstQualified(); Globals.push_back(std::move(o)); return; }
    Object o; o["id"]=var(V); o["q"]=qn(V); o["t"]=ty(V->getType()); o["const"]=V->getType().isConstQualified(); o["l"]=line(V->getLocation()); o["file"]=fileOf(V->getLocation());
    if (V->isStaticLocal()) o["sl"]=true; if (V->getTLSKind()!=VarDecl::TLS_None) o["tls"]=true; if (V->isConstexpr()) o["constexpr"]=true;
    const VarDecl *Def=V->getDefinition(); if (!Def) Def=V; if (const Expr *I=Def->getAnyInitializer()) o["init"]=E(I);
    Globals.push_back(std::move(o));
  }
  void fnDef(const FunctionDecl *F, bool lambda=false) {
    const FunctionDecl *D=nullptr; if (!F->getBody(D) || !D) {
      return; }
    std::string k=key(F); if (!doneF.insert(k).second) return;
    Object o; o["q"]=qn(F); o["n"]=F->getDeclName().getAsString(); o["file"]=fileOf(D->getLocation()); o["l"]=line(D->getLocation()); o["rt"]=ty(F->getReturnType());
    const FunctionDecl *P=F->getTemplateInstantiationPattern(); if (P) { const FunctionDecl*PD=P; P->isDefined(PD); o["file"]=fileOf(PD->getLocation()); o["l"]=line(PD->getLocation()); o["inst"]=true; }
    if (lambda) o["lambda"]=true;
    if (D->isDefaulted()) o["defaulted"]=true; if (D->isImplicit()) o["implicit"]=true;
    if (auto *M=dyn_cast<CXXMethodDecl>(F)) { o["cls"]=recName(M->getParent()); o["const"]=M->isConst(); o["static"]=M->isStatic(); o["virt"]=M->isVirtual(); Array ov; for (auto *x: M->overridden_methods()) ov.push_back(key(x)); o["over"]=std::move(ov); }
    if (F->isOverloadedOperator()) o["op"]=getOperatorSpelling(F->getOverloadedOperator());
    Array ps; for (auto *p : D->parameters()) { Object po; po["id"]=var(p); po["n"]=p->getNameAsString(); po["t"]=ty(p->getType()); if (p->getType()->isReferenceType()) { po["ref"]=true; po["cref"]=p->getType().getNonReferenceType().isConstQualified(); } ps.push_back(std::move(po)); } o["ps"]=std::move(ps);
    if (auto *CD=dyn_cast<CXXConstructorDecl>(D)) { o["ctor"]=true; Array is; for (auto *I : CD->inits()) { Object io; if (I->isBaseInitializer()) { io["base"]=ty(QualType(I->getBaseClass(),0)); } else if (I->isMemberInitializer()) io["field"]=I->getMember()->getNameAsString(); else if (I->isDelegatingInitializer()) io["deleg"]=true; else io["other"]=true;
        io["written"]=I->isWritten(); io["e"]=E(I->getInit()); if (I->isMemberInitializer()) io["ft"]=ty(I->getMember()->getType()); io["l"]=line(I->getSourceLocation()); is.push_back(std::move(io)); } o["inits"]=std::move(is);
      if (CD->isCopyConstructor()) o["copy"]=true; if (CD->isMoveConstructor()) o["move"]=true; }
    if (isa<CXXDestructorDecl>(D)) o["dtor"]=true;
    o["b"]=S(D->getBody());
    Functions[k]=std::move(o);
  }
  void record(const CXXRecordDecl *R) {
    R=R->getDefinition(); if (!R || R->isLambda() || R->isDependentContext()) return; std::string n=recName(R); if (!doneR.insert(n).second) return;
    Object o; o["l"]=line(R->getLocation()); o["file"]=fileOf(R->getLocation()); Array bs; for (auto &b : R->bases()) bs.push_back(ty(b.getType())); o["bases"]=std::move(bs);
    Array fs; for (auto *f : R->fields()) { Object fo; fo["n"]=f->getNameAsString(); fo["t"]=ty(f->getType()); fo["l"]=line(f->getLocation()); fo["acc"]=(int)f->getAccess(); if (f->hasInClassInitializer()) fo["ini"]=true; if (f->isMutable()) fo["mutable"]=true; fs.push_back(std::move(fo)); } o["fields"]=std::move(fs);
    Array ms; for (auto *m : R->methods()) { Object mo; mo["f"]=key(m); mo["n"]=m->getDeclName().getAsString(); mo["acc"]=(int)m->getAccess(); mo["pure"]=m->isPureVirtual(); mo["virt"]=m->isVirtual(); mo["static"]=m->isStatic(); mo["const"]=m->isConst(); mo["impl"]=m->isImplicit(); mo["del"]=m->isDeleted(); mo["dflt"]=m->isDefaulted(); mo["rt"]=ty(m->getReturnType()); mo["l"]=line(m->getLocation()); mo["file"]=fileOf(m->getLocation());
      mo["user"]=m->isUserProvided(); Array ps; for (auto *p: m->parameters()) ps.push_back(ty(p->getType())); mo["ps"]=std::move(ps); if (isa<CXXConstructorDecl>(m)) { mo["ctor"]=true; mo["copy"]=cast<CXXConstructorDecl>(m)->isCopyConstructor(); } 
      Array ov; for (auto *x: m->overridden_methods()) ov.push_back(key(x)); mo["over"]=std::move(ov); ms.push_back(std::move(mo)); } o["methods"]=std::move(ms);
    Records[n]=std::move(o);
  }
};
struct Vis : RecursiveASTVisitor<Vis> {
  Ex &X; Vis(Ex &X):X(X){}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool TraverseDecl(Decl *D) { // prune system code
    if (D && !isa<TranslationUnitDecl>(D) && !isa<NamespaceDecl>(D) && !isa<LinkageSpecDecl>(D) && D->getLocation().isValid() && !X.inRepo(D->getLocation())) return true;
    return RecursiveASTVisitor<Vis>::TraverseDecl(D);
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext()) return true;
    if (!X.userCode(F)) return true;
    Object d; d["f"]=X.key(F); d["q"]=X.qn(F); d["file"]=X.fileOf(F->getLocation()); d["l"]=X.line(F->getLocation()); d["body"]=F->doesThisDeclarationHaveABody(); d["impl"]=F->isImplicit(); d["del"]=F->isDeleted(); d["dflt"]=F->isDefaulted(); d["t"]=X.ty(F->getType());
    if (auto *M=dyn_cast<CXXMethodDecl>(F)) { d["pure"]=M->isPureVirtual(); d["cls"]=X.recName(M->getParent()); d["lambda"]=M->getParent()->isLambda(); }
    d["internal"]= !F->isExternallyVisible();
    if (F->getTemplateInstantiationPattern() || F->getTemplateSpecializationKind()!=TSK_Undeclared) d["inst"]=(int)F->getTemplateSpecializationKind();
    d["ns"]= isa<NamespaceDecl>(F->getDeclContext()) ? X.qn(cast<NamespaceDecl>(F->getDeclContext())) : std::string();
    bool isfriend = F->getFriendObjectKind()!=Decl::FOK_None; d["friend"]=isfriend;
    X.Decls.push_back(std::move(d));
    if (F->doesThisDeclarationHaveABody()) X.fnDef(F);
    return true;
  }
  bool VisitVarDecl(VarDecl *V) { if (V->hasGlobalStorage() && !V->getDeclContext()->isDependentContext()) X.global(V); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { if (R->isThisDeclarationADefinition()) X.record(R); return true; }
  // dependent templates: record member declarations so that declared-vs-defined can be decided for patterns too
};
struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    Ex X(C); Vis v(X); v.TraverseDecl(C.getTranslationUnitDecl());
    while (!X.work.empty()) { auto *F=X.work.front(); X.work.pop_front(); X.fnDef(F); }
    Object o; o["functions"]=std::move(X.Functions); o["records"]=std::move(X.Records); o["globals"]=std::move(X.Globals); o["decls"]=std::move(X.Decls);
    o["errors"]=(int)C.getDiagnostics().getClient()->getNumErrors();
    Array files; for (auto it=C.getSourceManager().fileinfo_begin(); it!=C.getSourceManager().fileinfo_end(); ++it) { auto r=it->first.getFileEntry().tryGetRealPathName().str(); if (r.compare(0,Root.size(),Root)==0) files.push_back(r); } o["files"]=std::move(files);
    std::error_code ec; llvm::raw_fd_ostream os(OutFile, ec); os << Value(std::move(o)); 
  }
};
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override { return std::make_unique<Cons>(); } };
struct Fac : tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); } };
int main(int argc, const char **argv) {
  if (argc < 5) { llvm::errs() << "usage: lpx ROOT OUT FILE -- args\n"; return 3; }
  Root = argv[1]; OutFile = argv[2]; std::string file = argv[3]; std::vector<std::string> args; for (int i=5;i<argc;i++) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool T(db, {file}); T.clearArgumentsAdjusters(); T.appendArgumentsAdjuster(tooling::getClangStripOutputAdjuster());
  T.appendArgumentsAdjuster(tooling::getClangSyntaxOnlyAdjuster());
  Fac f; return T.run(&f);
}
