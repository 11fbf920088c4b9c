// knor-extract: serialise the resolved (type-checked) program of one translation unit as JSON.
// Only functions/classes whose source lies under the given root are emitted, including implicit
// template instantiations.  usage: knor-extract ROOT OUT.json FILE -- clang-flags...
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/Basic/OpenMPKinds.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string Root, OutFile;

namespace {
class Ser {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::unique_ptr<MangleContext> MC;
  std::map<const Decl *, int> Ids;

public:
  Array Functions, Classes, Globals, Enums;
  std::set<std::string> SeenF, SeenC;

  Ser(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()), MC(C.createMangleContext()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
  }
  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = Ids.find(D);
    if (it != Ids.end()) return it->second;
    int n = Ids.size() + 1;
    Ids[D] = n;
    return n;
  }
  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    auto FE = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!FE) return "";
    llvm::SmallString<256> P(FE->getName());
    if (auto RP = FE->getFileEntry().tryGetRealPathName(); !RP.empty()) P = RP;
    return std::string(P);
  }
  bool inRoot(SourceLocation L) {
    std::string f = fileOf(L);
    return f.rfind(Root, 0) == 0;
  }
  std::string loc(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    std::string f = fileOf(L);
    if (f.rfind(Root, 0) == 0) f = f.substr(Root.size() + 1);
    return f + ":" + std::to_string(SM.getExpansionLineNumber(L));
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string mangled(const FunctionDecl *F) {
    std::string s;
    llvm::raw_string_ostream os(s);
    if (isa<FunctionTemplateDecl>(F)) return F->getQualifiedNameAsString();
    if (F->isDependentContext()) return F->getQualifiedNameAsString();
    if (auto *X = dyn_cast<CXXConstructorDecl>(F)) MC->mangleName(GlobalDecl(X, Ctor_Complete), os);
    else if (auto *X = dyn_cast<CXXDestructorDecl>(F)) MC->mangleName(GlobalDecl(X, Dtor_Complete), os);
    else if (MC->shouldMangleDeclName(F)) MC->mangleName(GlobalDecl(F), os);
    else os << F->getNameAsString();
    return os.str();
  }
  std::string qn(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    PrintingPolicy P2(C.getLangOpts());
    P2.SuppressInlineNamespace = PrintingPolicy(C.getLangOpts()).SuppressInlineNamespace;
    D->printQualifiedName(os, PP);
    return os.str();
  }
  std::string cls(const CXXRecordDecl *R) { return R ? ty(C.getRecordType(R)) : ""; }

  // ---------------------------------------------------------------- expressions
  Object base(const char *k, const Expr *E) {
    Object o;
    o["k"] = k;
    o["l"] = loc(E->getBeginLoc());
    o["t"] = ty(E->getType());
    return o;
  }
  Value exprs(const Expr *E) { return E ? expr(E) : Value(nullptr); }
  template <class R> Array args(R r) {
    Array a;
    for (auto *x : r) {
      if (isa<CXXDefaultArgExpr>(x)) {
        Object o;
        o["k"] = "defarg";
        o["e"] = exprs(cast<CXXDefaultArgExpr>(x)->getExpr());
        a.push_back(std::move(o));
      } else a.push_back(expr(x));
    }
    return a;
  }
  void callee(Object &o, const FunctionDecl *F) {
    if (!F) return;
    o["f"] = qn(F);
    o["n"] = F->getNameAsString();
    o["m"] = mangled(F);
    o["repo"] = inRoot(F->getLocation());
    if (F->isNoReturn() || F->hasAttr<NoReturnAttr>()) o["noret"] = true;
    Array pt;
    for (auto *P : F->parameters()) pt.push_back(ty(P->getType()));
    o["pt"] = std::move(pt);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = cls(M->getParent());
      if (M->isStatic()) o["static"] = true;
      if (M->isConst()) o["const"] = true;
    }
    if (F->isVariadic()) o["variadic"] = true;
    o["ret"] = ty(F->getReturnType());
  }
  Value expr(const Expr *E0) {
    const Expr *E = E0;
    // transparent wrappers
    for (;;) {
      if (auto *X = dyn_cast<ParenExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<ExprWithCleanups>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<ConstantExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = X->getReplacement(); continue; }
      if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) { E = X->getExpr(); continue; }
      if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
        switch (X->getCastKind()) {
        case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_IntegralCast:
        case CK_FloatingCast: case CK_IntegralToBoolean: case CK_FloatingToBoolean:
        case CK_PointerToBoolean: {
          Object o = base("cast", E);
          o["ck"] = X->getCastKindName();
          o["impl"] = true;
          o["from"] = ty(X->getSubExpr()->getType());
          o["e"] = expr(X->getSubExpr());
          return o;
        }
        default: E = X->getSubExpr(); continue;
        }
      }
      break;
    }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      Object o = base("int", E);
      llvm::SmallString<32> s; X->getValue().toString(s, 10, X->getType()->isSignedIntegerType());
      o["v"] = std::string(s);
      return o;
    }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      Object o = base("flt", E);
      o["v"] = X->getValueAsApproximateDouble();
      return o;
    }
    if (auto *X = dyn_cast<StringLiteral>(E)) {
      Object o = base("str", E);
      if (X->getCharByteWidth() == 1) o["v"] = llvm::json::fixUTF8(X->getString()); else o["v"] = "";
      return o;
    }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { Object o = base("int", E); o["v"] = std::to_string(X->getValue()); o["char"] = true; return o; }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { Object o = base("bool", E); o["v"] = X->getValue(); return o; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return base("null", E);
    if (isa<CXXThisExpr>(E)) return base("this", E);
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        Object o = base("enum", E);
        o["n"] = qn(EC);
        o["sn"] = EC->getNameAsString();
        llvm::SmallString<32> s; EC->getInitVal().toString(s, 10);
        o["v"] = std::string(s);
        return o;
      }
      if (auto *F = dyn_cast<FunctionDecl>(D)) { Object o = base("fn", E); callee(o, F); return o; }
      Object o = base("var", E);
      o["id"] = id(D);
      o["n"] = D->getNameAsString();
      o["dt"] = ty(D->getType());
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->isStaticDataMember() || V->hasGlobalStorage()) { o["s"] = V->isStaticLocal() ? "static" : "global"; o["q"] = qn(V);
          if (V->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
          if (V->getType().isConstQualified()) o["const"] = true; }
        else o["s"] = isa<ParmVarDecl>(V) ? "param" : "local";
      } else o["s"] = "other";
      return o;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      if (auto *F = dyn_cast<CXXMethodDecl>(X->getMemberDecl())) {
        Object o = base("fn", E); callee(o, F); o["b"] = expr(X->getBase()); return o;
      }
      if (auto *V = dyn_cast<VarDecl>(X->getMemberDecl())) {
        Object o = base("var", E); o["id"] = id(V); o["n"] = V->getNameAsString(); o["s"] = "global"; o["q"] = qn(V); o["dt"] = ty(V->getType());
        return o;
      }
      Object o = base("mem", E);
      o["b"] = expr(X->getBase());
      o["arrow"] = X->isArrow();
      o["f"] = X->getMemberDecl()->getNameAsString();
      if (auto *FD = dyn_cast<FieldDecl>(X->getMemberDecl()))
        if (auto *R = dyn_cast<CXXRecordDecl>(FD->getParent())) o["cls"] = cls(R);
      return o;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      Object o = base("call", E);
      callee(o, X->getDirectCallee());
      o["op"] = getOperatorSpelling(X->getOperator());
      auto *M = dyn_cast_or_null<CXXMethodDecl>(X->getDirectCallee());
      if (M && !M->isStatic()) {
        o["obj"] = expr(X->getArg(0));
        Array a;
        for (unsigned i = 1; i < X->getNumArgs(); i++) a.push_back(expr(X->getArg(i)));
        o["a"] = std::move(a);
      } else o["a"] = args(X->arguments());
      return o;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      Object o = base("call", E);
      auto *M = X->getMethodDecl();
      callee(o, M);
      const Expr *Cal = X->getCallee()->IgnoreParens();
      if (auto *ME = dyn_cast<MemberExpr>(Cal)) {
        o["obj"] = expr(ME->getBase());
        o["arrow"] = ME->isArrow();
        o["virt"] = M && M->isVirtual() && !ME->hasQualifier();
        o["impthis"] = ME->isImplicitAccess();
      } else o["fe"] = expr(Cal);
      o["a"] = args(X->arguments());
      return o;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      Object o = base("call", E);
      if (auto *F = X->getDirectCallee()) callee(o, F);
      else o["fe"] = expr(X->getCallee());
      o["a"] = args(X->arguments());
      return o;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      Object o = base("ctor", E);
      callee(o, X->getConstructor());
      o["cls"] = cls(X->getConstructor()->getParent());
      o["copy"] = X->getConstructor()->isCopyOrMoveConstructor();
      o["elid"] = X->isElidable();
      o["a"] = args(X->arguments());
      return o;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) { Object o = base("ctor", E); callee(o, X->getConstructor()); o["a"] = Array(); o["inh"] = true; return o; }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      Object o = base("new", E);
      o["ty"] = ty(X->getAllocatedType());
      if (X->isArray() && X->getArraySize()) o["arr"] = exprs(*X->getArraySize());
      if (X->hasInitializer()) { o["init"] = exprs(X->getInitializer()); o["hasinit"] = true; }
      else if (X->getConstructExpr()) o["init"] = expr(X->getConstructExpr());
      return o;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      Object o = base("delete", E);
      o["arr"] = X->isArrayForm();
      o["e"] = expr(X->getArgument());
      o["ety"] = ty(X->getDestroyedType());
      return o;
    }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      Object o = base("asg", E);
      o["op"] = X->getOpcodeStr().str();
      o["a"] = expr(X->getLHS()); o["b"] = expr(X->getRHS());
      o["ct"] = ty(X->getComputationResultType());
      return o;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      if (X->getOpcode() == BO_Assign) {
        Object o = base("asg", E);
        o["op"] = "="; o["a"] = expr(X->getLHS()); o["b"] = expr(X->getRHS());
        return o;
      }
      Object o = base("bin", E);
      o["op"] = X->getOpcodeStr().str();
      o["a"] = expr(X->getLHS()); o["b"] = expr(X->getRHS());
      return o;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      Object o = base("un", E);
      std::string op = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isIncrementDecrementOp()) op = (X->isPrefix() ? "pre" : "post") + op;
      o["op"] = op; o["e"] = expr(X->getSubExpr());
      return o;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      Object o = base("idx", E);
      o["a"] = expr(X->getBase()); o["b"] = expr(X->getIdx());
      return o;
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      Object o = base("cond", E);
      o["c"] = expr(X->getCond()); o["a"] = expr(X->getTrueExpr()); o["b"] = expr(X->getFalseExpr());
      return o;
    }
    if (auto *X = dyn_cast<ExplicitCastExpr>(E)) {
      if (auto *FC = dyn_cast<CXXFunctionalCastExpr>(X))
        if (FC->getCastKind() == CK_ConstructorConversion || FC->getCastKind() == CK_NoOp) return expr(X->getSubExpr());
      Object o = base("cast", E);
      o["ck"] = X->getCastKindName();
      o["from"] = ty(X->getSubExpr()->getType());
      o["e"] = expr(X->getSubExpr());
      return o;
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      Object o = base("lambda", E);
      o["m"] = mangled(X->getCallOperator());
      func(X->getCallOperator());
      Array caps;
      for (auto &c : X->captures()) if (c.capturesVariable()) { Object k; k["id"] = id(c.getCapturedVar()); k["byref"] = c.getCaptureKind() == LCK_ByRef; caps.push_back(std::move(k)); }
      o["caps"] = std::move(caps);
      return o;
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) { Object o = base("list", E); o["a"] = args(X->inits()); return o; }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Object o = base("sizeof", E);
      o["of"] = ty(X->getTypeOfArgument());
      Expr::EvalResult R;
      if (X->EvaluateAsInt(R, C)) { llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); o["v"] = std::string(s); }
      return o;
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) { Object o = base("throw", E); o["e"] = exprs(X->getSubExpr()); return o; }
    if (auto *X = dyn_cast<CXXScalarValueInitExpr>(E)) { Object o = base("zero", E); return o; }
    if (isa<ImplicitValueInitExpr>(E)) return base("zero", E);
    if (auto *X = dyn_cast<PredefinedExpr>(E)) { Object o = base("str", E); o["v"] = X->getFunctionName() ? X->getFunctionName()->getString().str() : ""; return o; }
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { if (X->getSourceExpr()) return expr(X->getSourceExpr()); }
    if (auto *X = dyn_cast<TypeTraitExpr>(E)) { Object o = base("bool", E); o["v"] = X->getValue(); return o; }
    Object o = base("other", E);
    o["sc"] = E->getStmtClassName();
    Array ch;
    for (auto *c : E->children()) if (c) if (auto *ce = dyn_cast<Expr>(c)) ch.push_back(expr(ce));
    o["a"] = std::move(ch);
    return o;
  }
  // ---------------------------------------------------------------- statements
  Object sbase(const char *k, const Stmt *S) { Object o; o["k"] = k; o["l"] = loc(S->getBeginLoc()); return o; }
  Object vardecl(const VarDecl *V) {
    Object o;
    o["id"] = id(V); o["n"] = V->getNameAsString(); o["t"] = ty(V->getType());
    o["l"] = loc(V->getLocation());
    if (V->isStaticLocal()) o["static"] = true;
    if (V->getInit()) o["init"] = expr(V->getInit());
    return o;
  }
  Value stmts(const Stmt *S) { return S ? stmt(S) : Value(nullptr); }
  Array ompClauses(const OMPExecutableDirective *D) {
    Array cl;
    for (auto *c : D->clauses()) {
      if (c->isImplicit()) continue;
      Object o;
      o["c"] = llvm::omp::getOpenMPClauseName(c->getClauseKind()).str();
      Array vars;
      auto addv = [&](const Expr *e) { e = e->IgnoreParenImpCasts(); if (auto *d = dyn_cast<DeclRefExpr>(e)) { Object v; v["id"] = id(d->getDecl()); v["n"] = d->getDecl()->getNameAsString(); vars.push_back(std::move(v)); } else vars.push_back(expr(e)); };
      if (auto *x = dyn_cast<OMPSharedClause>(c)) for (auto *e : x->varlists()) addv(e);
      if (auto *x = dyn_cast<OMPPrivateClause>(c)) for (auto *e : x->varlists()) addv(e);
      if (auto *x = dyn_cast<OMPFirstprivateClause>(c)) for (auto *e : x->varlists()) addv(e);
      if (auto *x = dyn_cast<OMPLastprivateClause>(c)) for (auto *e : x->varlists()) addv(e);
      if (auto *x = dyn_cast<OMPReductionClause>(c)) { for (auto *e : x->varlists()) addv(e); o["op"] = x->getNameInfo().getAsString(); }
      if (auto *x = dyn_cast<OMPCollapseClause>(c)) o["n"] = exprs(x->getNumForLoops());
      if (auto *x = dyn_cast<OMPNumThreadsClause>(c)) o["n"] = exprs(x->getNumThreads());
      o["vars"] = std::move(vars);
      cl.push_back(std::move(o));
    }
    return cl;
  }
  Value stmt(const Stmt *S) {
    if (auto *X = dyn_cast<Expr>(S)) { Object o = sbase("expr", S); o["e"] = expr(X); return o; }
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      Object o = sbase("seq", S); Array b;
      for (auto *s : X->body()) b.push_back(stmt(s));
      o["b"] = std::move(b); return o;
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      Object o = sbase("decl", S); Array v;
      for (auto *d : X->decls()) if (auto *V = dyn_cast<VarDecl>(d)) v.push_back(vardecl(V));
      o["v"] = std::move(v); return o;
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      Object o = sbase("if", S);
      if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) o["cv"] = vardecl(X->getConditionVariable());
      o["c"] = expr(X->getCond()); o["t"] = stmt(X->getThen()); o["e"] = stmts(X->getElse());
      return o;
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      Object o = sbase("loop", S); o["kind"] = "for";
      o["init"] = stmts(X->getInit()); o["c"] = exprs(X->getCond()); o["inc"] = exprs(X->getInc()); o["b"] = stmts(X->getBody());
      return o;
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) {
      Object o = sbase("loop", S); o["kind"] = "while";
      o["c"] = exprs(X->getCond()); o["b"] = stmts(X->getBody());
      return o;
    }
    if (auto *X = dyn_cast<DoStmt>(S)) {
      Object o = sbase("loop", S); o["kind"] = "do";
      o["c"] = exprs(X->getCond()); o["b"] = stmts(X->getBody());
      return o;
    }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      Object o = sbase("rfor", S);
      o["v"] = vardecl(X->getLoopVariable());
      o["r"] = exprs(X->getRangeInit()); o["rt"] = ty(X->getRangeInit()->getType());
      o["b"] = stmts(X->getBody());
      return o;
    }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { Object o = sbase("return", S); o["e"] = exprs(X->getRetValue()); return o; }
    if (isa<BreakStmt>(S)) return sbase("break", S);
    if (isa<ContinueStmt>(S)) return sbase("continue", S);
    if (isa<NullStmt>(S)) return sbase("nop", S);
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      Object o = sbase("switch", S); o["c"] = expr(X->getCond());
      Array b;
      std::function<void(const Stmt *)> add = [&](const Stmt *s) {
        if (auto *cs = dyn_cast<CaseStmt>(s)) { Object c = sbase("case", s); c["v"] = expr(cs->getLHS()); b.push_back(std::move(c)); add(cs->getSubStmt()); }
        else if (auto *ds = dyn_cast<DefaultStmt>(s)) { b.push_back(sbase("default", s)); add(ds->getSubStmt()); }
        else b.push_back(stmt(s));
      };
      if (auto *cs = dyn_cast<CompoundStmt>(X->getBody())) for (auto *s : cs->body()) add(s); else add(X->getBody());
      o["b"] = std::move(b); return o;
    }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      Object o = sbase("try", S); o["b"] = stmt(X->getTryBlock()); Array h;
      for (unsigned i = 0; i < X->getNumHandlers(); i++) {
        Object c; auto *H = X->getHandler(i);
        if (H->getExceptionDecl()) c["v"] = vardecl(H->getExceptionDecl());
        c["b"] = stmt(H->getHandlerBlock()); h.push_back(std::move(c));
      }
      o["h"] = std::move(h); return o;
    }
    if (auto *X = dyn_cast<OMPExecutableDirective>(S)) {
      Object o = sbase("omp", S);
      o["d"] = llvm::omp::getOpenMPDirectiveName(X->getDirectiveKind()).str();
      o["cl"] = ompClauses(X);
      if (X->hasAssociatedStmt()) {
        const Stmt *b = X->getAssociatedStmt();
        while (auto *cs = dyn_cast<CapturedStmt>(b)) b = cs->getCapturedStmt();
        o["b"] = stmt(b);
      }
      return o;
    }
    if (auto *X = dyn_cast<CapturedStmt>(S)) return stmt(X->getCapturedStmt());
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S)) { Object o = sbase("label", S); o["n"] = X->getName(); o["b"] = stmt(X->getSubStmt()); return o; }
    if (auto *X = dyn_cast<GotoStmt>(S)) { Object o = sbase("goto", S); o["n"] = X->getLabel()->getNameAsString(); return o; }
    Object o = sbase("otherstmt", S); o["sc"] = S->getStmtClassName();
    return o;
  }
  // ---------------------------------------------------------------- declarations
  void func(const FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() && !(F->isDefaulted() && isa<CXXConstructorDecl>(F) && F->getDefinition() == F)) return;
    if (F->isDependentContext() || F->getDescribedFunctionTemplate()) return;
    if (!inRoot(F->getLocation())) return;
    std::string m = mangled(F);
    if (!SeenF.insert(m).second) return;
    Object o;
    o["m"] = m; o["q"] = qn(F); o["n"] = F->getNameAsString(); o["loc"] = loc(F->getLocation());
    o["end"] = loc(F->getEndLoc());
    o["ret"] = ty(F->getReturnType());
    if (F->isInAnonymousNamespace() || F->getFormalLinkage() == Linkage::Internal) o["internal"] = true;
    Array ps;
    for (auto *P : F->parameters()) { Object p; p["id"] = id(P); p["n"] = P->getNameAsString(); p["t"] = ty(P->getType()); ps.push_back(std::move(p)); }
    o["params"] = std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = cls(M->getParent());
      o["virt"] = M->isVirtual(); o["static"] = M->isStatic(); o["const"] = M->isConst();
      Array ov; std::function<void(const CXXMethodDecl *)> add = [&](const CXXMethodDecl *m) { for (auto *x : m->overridden_methods()) { ov.push_back(mangled(x)); add(x); } };
      add(M); o["ovr"] = std::move(ov);
      if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
      if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
        o["ctor"] = true; Array in;
        for (auto *I : CD->inits()) {
          Object i;
          if (I->isAnyMemberInitializer()) i["f"] = I->getAnyMember()->getNameAsString();
          else if (I->isBaseInitializer()) i["base"] = ty(QualType(I->getBaseClass(), 0));
          else i["deleg"] = true;
          i["w"] = I->isWritten();
          i["e"] = expr(I->getInit()); i["l"] = loc(I->getSourceLocation());
          in.push_back(std::move(i));
        }
        o["inits"] = std::move(in);
      }
    }
    o["body"] = stmts(F->getBody());
    Functions.push_back(std::move(o));
  }
  void record(const CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || !inRoot(R->getLocation())) return;
    if (R->isLambda()) return;
    std::string n = cls(R);
    if (!SeenC.insert(n).second) return;
    Object o; o["q"] = n; o["loc"] = loc(R->getLocation());
    Array b; for (auto &x : R->bases()) b.push_back(ty(x.getType())); o["bases"] = std::move(b);
    Array f; for (auto *x : R->fields()) { Object y; y["n"] = x->getNameAsString(); y["t"] = ty(x->getType()); if (x->getInClassInitializer()) y["init"] = expr(x->getInClassInitializer()); y["l"] = loc(x->getLocation()); f.push_back(std::move(y)); }
    o["fields"] = std::move(f);
    Array ms; for (auto *x : R->methods()) { Object y; y["m"] = mangled(x); y["q"] = qn(x); y["n"] = x->getNameAsString(); y["virt"] = x->isVirtual(); y["pure"] = x->isPureVirtual(); y["const"] = x->isConst(); y["acc"] = (int)x->getAccess(); y["static"] = x->isStatic(); y["impl"] = x->isImplicit();
      Array ov; for (auto *z : x->overridden_methods()) ov.push_back(mangled(z)); y["ovr"] = std::move(ov); ms.push_back(std::move(y)); }
    o["methods"] = std::move(ms);
    o["abstract"] = R->isAbstract();
    Classes.push_back(std::move(o));
  }
};

class V : public RecursiveASTVisitor<V> {
public:
  Ser &S;
  V(Ser &S) : S(S) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) { S.func(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { S.record(R); return true; }
  bool VisitVarDecl(VarDecl *D) {
    if (D->hasGlobalStorage() && !D->isStaticLocal() && S.inRoot(D->getLocation()) && !D->getDeclContext()->isDependentContext()) {
      Object o = S.vardecl(D); o["q"] = S.qn(D); o["const"] = D->getType().isConstQualified(); S.Globals.push_back(std::move(o));
    }
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!S.inRoot(E->getLocation())) return true;
    Object o; o["q"] = S.qn(E); Array c; for (auto *x : E->enumerators()) c.push_back(S.qn(x)); o["c"] = std::move(c); S.Enums.push_back(std::move(o));
    return true;
  }
};
class Cons : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    Ser S(C);
    V v(S);
    v.TraverseDecl(C.getTranslationUnitDecl());
    Object o; o["functions"] = std::move(S.Functions); o["classes"] = std::move(S.Classes); o["globals"] = std::move(S.Globals); o["enums"] = std::move(S.Enums);
    std::error_code ec;
    llvm::raw_fd_ostream os(OutFile, ec);
    os << Value(std::move(o));
  }
};
class Act : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); }
};
struct Fac : public tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); } };
} // namespace

int main(int argc, const char **argv) {
  if (argc < 5) { llvm::errs() << "usage: knor-extract ROOT OUT FILE -- flags\n"; return 2; }
  Root = argv[1]; OutFile = argv[2];
  std::string File = argv[3];
  std::vector<std::string> flags(argv + 5, argv + argc);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, {File});
  Fac f;
  return T.run(&f);
}
