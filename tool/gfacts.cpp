// gfacts: dump resolved, desugared function bodies, records, enums and globals of
// GrinPlusPlus translation units as JSON lines. Used by the Python analyses in
// /verif/lib. Purely syntactic/semantic facts: nothing is executed.
#include "clang/Sema/Sema.h"
#include "clang/Sema/SemaConsumer.h"
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/ADT/SmallString.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string g_root = "/repo/";
static llvm::raw_ostream* g_out = nullptr;

namespace {

struct Dumper {
  ASTContext& C;
  SourceManager& SM;
  PrintingPolicy PP;
  std::map<const Decl*, int> ids;
  Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.Bool = true;
  }

  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    PresumedLoc p = SM.getPresumedLoc(L, false);
    if (p.isInvalid()) return "";
    std::string f = p.getFilename();
    llvm::SmallString<256> s(f);
    SM.getFileManager().makeAbsolutePath(s);
    llvm::sys::path::remove_dots(s, true);
    return std::string(s.str());
  }
  unsigned line(SourceLocation L) {
    return SM.getExpansionLineNumber(L);
  }
  bool inScope(SourceLocation L) {
    if (L.isInvalid()) return false;
    L = SM.getExpansionLoc(L);
    if (SM.isInSystemHeader(L)) return false;
    std::string f = file(L);
    return f.compare(0, g_root.size() + 4, g_root + "src/") == 0 ||
           f.compare(0, g_root.size() + 8, g_root + "include/") == 0 ||
           f.find("/gselftest/") != std::string::npos;
  }
  std::string usr(const Decl* D) {
    llvm::SmallString<128> b;
    if (index::generateUSRForDecl(D, b)) return "";
    return std::string(b.str());
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string qn(const NamedDecl* D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->getNameForDiagnostic(os, PP, true);
    return os.str();
  }
  int id(const Decl* D) {
    D = D->getCanonicalDecl();
    auto it = ids.find(D);
    if (it != ids.end()) return it->second;
    int n = (int)ids.size() + 1;
    ids[D] = n;
    return n;
  }

  Value constVal(const Expr* E) {
    // integer constant value of E, or null
    if (!E || E->isValueDependent() || E->isTypeDependent()) return nullptr;
    QualType T = E->getType();
    if (T.isNull() || !T->isIntegralOrEnumerationType()) return nullptr;
    Expr::EvalResult R;
    if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
      llvm::APSInt v = R.Val.getInt();
      llvm::SmallString<40> s;
      v.toString(s, 10);
      return std::string(s.str());
    }
    return nullptr;
  }

  bool noThrow(const FunctionProtoType* T) {
    ExceptionSpecificationType e = T->getExceptionSpecType();
    if (e == EST_Unevaluated || e == EST_Uninstantiated || e == EST_Unparsed) return false;
    return T->canThrow() == CT_Cannot;
  }
  Value fnRef(const FunctionDecl* F, Object& o) {
    o["fn"] = qn(F);
    o["u"] = usr(F);
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isVirtual()) o["virt"] = 1;
      if (M->isStatic()) o["stat"] = 1;
      if (M->isConst()) o["cst"] = 1;
    }
    if (inScope(F->getLocation())) o["repo"] = 1;
    if (F->isNoReturn()) o["noret"] = 1;
    std::string nx;
    if (auto* FPT = F->getType()->getAs<FunctionProtoType>()) {
      if (noThrow(FPT)) o["nx"] = 1;
      // mutability of reference/pointer params: string of m/c/v per param
      std::string pm;
      for (auto pt : FPT->param_types()) {
        if (pt->isReferenceType() || pt->isPointerType()) {
          QualType p = pt->getPointeeType();
          pm += p.isConstQualified() ? 'c' : (pt->isRValueReferenceType() ? 'x' : 'm');
        } else pm += 'v';
      }
      o["pm"] = pm;
    }
    return nullptr;
  }

  // ---------------------------------------------------------------- exprs
  Value ex(const Expr* E) {
    if (!E) return nullptr;
    // strip
    for (;;) {
      if (auto* x = dyn_cast<ParenExpr>(E)) { E = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<ExprWithCleanups>(E)) { E = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<MaterializeTemporaryExpr>(E)) { E = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<CXXBindTemporaryExpr>(E)) { E = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<ConstantExpr>(E)) { E = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = x->getReplacement(); continue; }
      if (auto* x = dyn_cast<CXXDefaultArgExpr>(E)) { E = x->getExpr(); continue; }
      if (auto* x = dyn_cast<CXXDefaultInitExpr>(E)) { E = x->getExpr(); continue; }
      if (auto* x = dyn_cast<CXXStdInitializerListExpr>(E)) { E = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<OpaqueValueExpr>(E)) { if (x->getSourceExpr()) { E = x->getSourceExpr(); continue; } }
      if (auto* x = dyn_cast<ImplicitCastExpr>(E)) {
        CastKind k = x->getCastKind();
        if (k == CK_IntegralCast) {
          // keep if it changes width or sign and operand is not constant
          QualType f = x->getSubExpr()->getType(), t = x->getType();
          if (f->isIntegralOrEnumerationType() && t->isIntegralOrEnumerationType() && !t->isDependentType()) {
            uint64_t fw = C.getTypeSize(f), tw = C.getTypeSize(t);
            if (tw < fw && constVal(x).kind() == Value::Null) break; // narrowing: keep
          }
          E = x->getSubExpr(); continue;
        }
        E = x->getSubExpr(); continue;
      }
      break;
    }
    Object o;
    o["l"] = (int64_t)line(E->getExprLoc());
    o["t"] = ty(E->getType());
    Value cv = constVal(E);
    if (cv.kind() != Value::Null) o["cv"] = cv;

    if (auto* x = dyn_cast<IntegerLiteral>(E)) { o["k"] = "lit"; (void)x; return o; }
    if (isa<CXXBoolLiteralExpr>(E) || isa<CharacterLiteral>(E)) { o["k"] = "lit"; return o; }
    if (auto* x = dyn_cast<FloatingLiteral>(E)) { o["k"] = "flt"; llvm::SmallString<32> s; x->getValue().toString(s); o["v"] = std::string(s.str()); return o; }
    if (auto* x = dyn_cast<clang::StringLiteral>(E)) {
      o["k"] = "str"; std::string s = x->isOrdinary() || x->isUTF8() ? x->getString().str() : std::string("<wide>");
      if (!llvm::json::isUTF8(s)) s = llvm::json::fixUTF8(s);
      o["v"] = s; return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { o["k"] = "null"; return o; }
    if (isa<CXXThisExpr>(E)) { o["k"] = "this"; return o; }
    if (auto* x = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl* D = x->getDecl();
      o["n"] = D->getNameAsString();
      if (auto* P = dyn_cast<ParmVarDecl>(D)) { o["k"] = "ref"; o["d"] = "param"; o["id"] = id(P); }
      else if (auto* V = dyn_cast<VarDecl>(D)) {
        o["k"] = "ref";
        if (V->isLocalVarDecl()) { o["d"] = V->isStaticLocal() ? "slocal" : "local"; o["id"] = id(V); }
        else { o["d"] = "global"; o["q"] = qn(V); o["u"] = usr(V); }
      }
      else if (auto* EC = dyn_cast<EnumConstantDecl>(D)) { o["k"] = "enumc"; o["q"] = qn(EC); }
      else if (auto* F = dyn_cast<FunctionDecl>(D)) { o["k"] = "fref"; fnRef(F, o); }
      else if (auto* B = dyn_cast<BindingDecl>(D)) { o["k"] = "ref"; o["d"] = "binding"; o["id"] = id(B); }
      else { o["k"] = "ref"; o["d"] = "other"; o["q"] = qn(D); }
      return o;
    }
    if (auto* x = dyn_cast<MemberExpr>(E)) {
      const ValueDecl* D = x->getMemberDecl();
      o["n"] = D->getNameAsString();
      if (auto* M = dyn_cast<CXXMethodDecl>(D)) { o["k"] = "mref"; fnRef(M, o); }
      else {
        o["k"] = "mem"; o["q"] = qn(D);
        if (auto* FD = dyn_cast<FieldDecl>(D)) o["u"] = usr(FD);
      }
      o["b"] = ex(x->getBase());
      if (x->isArrow()) o["arrow"] = 1;
      return o;
    }
    if (auto* x = dyn_cast<CXXOperatorCallExpr>(E)) {
      o["k"] = "op"; o["op"] = getOperatorSpelling(x->getOperator());
      if (x->getOperator() == OO_PlusPlus || x->getOperator() == OO_MinusMinus)
        if (x->getNumArgs() == 2) o["post"] = 1;
      if (auto* F = x->getDirectCallee()) fnRef(F, o);
      Array a;
      unsigned n = x->getNumArgs();
      if (o.get("post")) n = 1;
      for (unsigned i = 0; i < n; i++) a.push_back(ex(x->getArg(i)));
      o["a"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<CXXMemberCallExpr>(E)) {
      if (auto* Conv = dyn_cast_or_null<CXXConversionDecl>(x->getMethodDecl())) {
        o["k"] = "conv"; fnRef(Conv, o); o["o"] = ex(x->getImplicitObjectArgument()); return o;
      }
      o["k"] = "call";
      if (auto* F = x->getMethodDecl()) { fnRef(F, o); o["n"] = F->getNameAsString(); }
      o["o"] = ex(x->getImplicitObjectArgument());
      if (auto* ME = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens()))
        if (ME->hasQualifier()) o["nonvirt"] = 1;
      Array a;
      for (auto* s : x->arguments()) a.push_back(ex(s));
      o["a"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<CallExpr>(E)) {
      o["k"] = "call";
      if (auto* F = x->getDirectCallee()) { fnRef(F, o); o["n"] = F->getNameAsString(); }
      else o["ce"] = ex(x->getCallee());
      Array a;
      for (auto* s : x->arguments()) a.push_back(ex(s));
      o["a"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<CXXConstructExpr>(E)) {
      o["k"] = "ctor"; fnRef(x->getConstructor(), o);
      o["cls"] = qn(x->getConstructor()->getParent());
      if (x->getConstructor()->isCopyConstructor()) o["cm"] = "c";
      else if (x->getConstructor()->isMoveConstructor()) o["cm"] = "m";
      if (x->getConstructor()->isDefaultConstructor() && x->getNumArgs() == 0) o["def"] = 1;
      if (x->isListInitialization()) o["li"] = 1;
      Array a;
      for (auto* s : x->arguments()) a.push_back(ex(s));
      o["a"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<CXXNewExpr>(E)) {
      o["k"] = "new"; o["at"] = ty(x->getAllocatedType());
      if (x->isArray() && x->getArraySize()) o["sz"] = ex(*x->getArraySize());
      if (x->getInitializer()) o["i"] = ex(x->getInitializer());
      return o;
    }
    if (auto* x = dyn_cast<CXXDeleteExpr>(E)) { o["k"] = "del"; o["e"] = ex(x->getArgument()); return o; }
    if (auto* x = dyn_cast<UnaryOperator>(E)) {
      o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->isPostfix()) o["post"] = 1;
      o["e"] = ex(x->getSubExpr()); return o;
    }
    if (auto* x = dyn_cast<BinaryOperator>(E)) {
      o["k"] = "bin"; o["op"] = x->getOpcodeStr().str();
      o["a"] = Array{ex(x->getLHS()), ex(x->getRHS())};
      return o;
    }
    if (auto* x = dyn_cast<AbstractConditionalOperator>(E)) {
      o["k"] = "cond"; o["a"] = Array{ex(x->getCond()), ex(x->getTrueExpr()), ex(x->getFalseExpr())};
      return o;
    }
    if (auto* x = dyn_cast<CastExpr>(E)) { // explicit or retained implicit
      o["k"] = "cast"; o["ck"] = x->getCastKindName();
      if (isa<ExplicitCastExpr>(x)) o["ex"] = 1;
      if (isa<CXXReinterpretCastExpr>(x)) o["reint"] = 1;
      if (isa<CXXDynamicCastExpr>(x)) o["dyn"] = 1;
      QualType f = x->getSubExpr()->getType(), t = x->getType();
      if (!f.isNull() && !t->isDependentType() && !f->isDependentType() && f->isIntegralOrEnumerationType() && t->isIntegralOrEnumerationType()) {
        o["fw"] = (int64_t)C.getTypeSize(f); o["tw"] = (int64_t)C.getTypeSize(t);
        o["fs"] = f->isSignedIntegerOrEnumerationType() ? 1 : 0; o["ts"] = t->isSignedIntegerOrEnumerationType() ? 1 : 0;
      }
      o["e"] = ex(x->getSubExpr());
      return o;
    }
    if (auto* x = dyn_cast<ArraySubscriptExpr>(E)) {
      o["k"] = "sub"; o["a"] = Array{ex(x->getBase()), ex(x->getIdx())}; return o;
    }
    if (auto* x = dyn_cast<InitListExpr>(E)) {
      if (x->isSemanticForm() == false && x->getSemanticForm()) x = x->getSemanticForm();
      o["k"] = "ilist"; Array a;
      for (auto* s : x->inits()) a.push_back(ex(s));
      o["a"] = std::move(a); return o;
    }
    if (auto* x = dyn_cast<CXXThrowExpr>(E)) { o["k"] = "throw"; if (x->getSubExpr()) o["e"] = ex(x->getSubExpr()); return o; }
    if (auto* x = dyn_cast<LambdaExpr>(E)) {
      o["k"] = "lambda";
      Array caps;
      for (auto& c : x->captures()) {
        Object co;
        if (c.capturesThis()) co["n"] = "this";
        else if (c.capturesVariable()) {
          co["n"] = c.getCapturedVar()->getNameAsString(); co["id"] = id(c.getCapturedVar());
          co["byref"] = c.getCaptureKind() == LCK_ByRef ? 1 : 0;
          if (auto* vd = dyn_cast<VarDecl>(c.getCapturedVar())) if (vd->isInitCapture()) co["i"] = ex(vd->getInit());
        }
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      const CXXMethodDecl* M = x->getCallOperator();
      Array ps;
      bool dep = M->isDependentContext();
      const FunctionDecl* Body = M;
      if (dep) {
        // generic lambda: use an instantiation if there is one
        if (auto* FT = M->getDescribedFunctionTemplate())
          for (auto* S : FT->specializations()) if (S->hasBody()) { Body = S; dep = false; break; }
      }
      for (auto* P : Body->parameters()) { Object po; po["n"] = P->getNameAsString(); po["id"] = id(P); po["t"] = ty(P->getType()); ps.push_back(std::move(po)); }
      o["ps"] = std::move(ps);
      if (!dep && Body->getBody()) o["body"] = st(Body->getBody());
      return o;
    }
    if (isa<UnaryExprOrTypeTraitExpr>(E)) { o["k"] = "lit"; return o; }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) { o["k"] = "zero"; return o; }
    if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(E)) { o["k"] = "ctor"; fnRef(x->getConstructor(), o); o["a"] = Array{}; return o; }
    if (auto* x = dyn_cast<CXXTypeidExpr>(E)) { (void)x; o["k"] = "typeid"; return o; }
    if (auto* x = dyn_cast<CXXForRangeStmt>(static_cast<const Stmt*>(E))) { (void)x; }
    if (auto* x = dyn_cast<ArrayInitLoopExpr>(E)) { return ex(x->getCommonExpr()); }
    if (auto* x = dyn_cast<PredefinedExpr>(E)) { (void)x; o["k"] = "str"; o["v"] = "__func__"; return o; }
    o["k"] = "other"; o["c"] = E->getStmtClassName();
    Array a;
    for (auto* s : E->children()) if (auto* e = dyn_cast_or_null<Expr>(s)) a.push_back(ex(e));
    o["a"] = std::move(a);
    return o;
  }

  Value var(const VarDecl* V) {
    Object o;
    o["id"] = id(V); o["n"] = V->getNameAsString(); o["t"] = ty(V->getType());
    if (V->isStaticLocal()) o["static"] = 1;
    if (V->getType()->isReferenceType()) o["isref"] = 1;
    if (V->getType().isConstQualified() || (V->getType()->isReferenceType() && V->getType()->getPointeeType().isConstQualified())) o["const"] = 1;
    if (V->getInit()) o["i"] = ex(V->getInit());
    o["l"] = (int64_t)line(V->getLocation());
    if (auto* D = dyn_cast<DecompositionDecl>(V)) {
      Array a;
      for (auto* B : D->bindings()) { Object b; b["id"] = id(B); b["n"] = B->getNameAsString(); a.push_back(std::move(b)); }
      o["bind"] = std::move(a);
    }
    return o;
  }

  // ---------------------------------------------------------------- stmts
  Value st(const Stmt* S) {
    if (!S) return nullptr;
    if (auto* E = dyn_cast<Expr>(S)) { Object o; o["k"] = "E"; o["l"] = (int64_t)line(E->getExprLoc()); o["e"] = ex(E); return o; }
    Object o;
    o["l"] = (int64_t)line(S->getBeginLoc());
    if (auto* x = dyn_cast<CompoundStmt>(S)) {
      o["k"] = "C"; Array a; for (auto* s : x->body()) a.push_back(st(s)); o["s"] = std::move(a);
      o["el"] = (int64_t)line(x->getRBracLoc()); return o;
    }
    if (auto* x = dyn_cast<IfStmt>(S)) {
      o["k"] = "If"; if (x->getInit()) o["init"] = st(x->getInit());
      if (x->getConditionVariable()) o["cvar"] = var(x->getConditionVariable());
      o["c"] = ex(x->getCond()); o["t"] = st(x->getThen()); if (x->getElse()) o["e"] = st(x->getElse());
      return o;
    }
    if (auto* x = dyn_cast<ForStmt>(S)) {
      o["k"] = "For"; if (x->getInit()) o["init"] = st(x->getInit());
      if (x->getCond()) o["c"] = ex(x->getCond()); if (x->getInc()) o["inc"] = ex(x->getInc());
      o["b"] = st(x->getBody()); return o;
    }
    if (auto* x = dyn_cast<CXXForRangeStmt>(S)) {
      o["k"] = "FR"; o["v"] = var(x->getLoopVariable()); o["r"] = ex(x->getRangeInit()); o["b"] = st(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<WhileStmt>(S)) {
      o["k"] = "While"; if (x->getConditionVariable()) o["cvar"] = var(x->getConditionVariable());
      o["c"] = ex(x->getCond()); o["b"] = st(x->getBody()); return o;
    }
    if (auto* x = dyn_cast<DoStmt>(S)) { o["k"] = "Do"; o["c"] = ex(x->getCond()); o["b"] = st(x->getBody()); return o; }
    if (auto* x = dyn_cast<SwitchStmt>(S)) {
      o["k"] = "Switch"; if (x->getInit()) o["init"] = st(x->getInit()); o["c"] = ex(x->getCond()); o["b"] = st(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<CaseStmt>(S)) {
      o["k"] = "Case"; o["v"] = ex(x->getLHS()); o["s"] = st(x->getSubStmt()); return o;
    }
    if (auto* x = dyn_cast<DefaultStmt>(S)) { o["k"] = "Default"; o["s"] = st(x->getSubStmt()); return o; }
    if (isa<BreakStmt>(S)) { o["k"] = "Break"; return o; }
    if (isa<ContinueStmt>(S)) { o["k"] = "Continue"; return o; }
    if (auto* x = dyn_cast<ReturnStmt>(S)) { o["k"] = "Ret"; if (x->getRetValue()) o["e"] = ex(x->getRetValue()); return o; }
    if (auto* x = dyn_cast<CXXTryStmt>(S)) {
      o["k"] = "Try"; o["b"] = st(x->getTryBlock());
      Array hs;
      for (unsigned i = 0; i < x->getNumHandlers(); i++) {
        auto* H = x->getHandler(i); Object h;
        h["l"] = (int64_t)line(H->getBeginLoc());
        if (H->getExceptionDecl()) { h["t"] = ty(H->getCaughtType()); h["v"] = var(H->getExceptionDecl()); } else h["t"] = "...";
        h["b"] = st(H->getHandlerBlock());
        hs.push_back(std::move(h));
      }
      o["h"] = std::move(hs); return o;
    }
    if (auto* x = dyn_cast<DeclStmt>(S)) {
      o["k"] = "D"; Array a;
      for (auto* d : x->decls()) if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(var(v));
      o["v"] = std::move(a); return o;
    }
    if (isa<NullStmt>(S)) { o["k"] = "N"; return o; }
    if (auto* x = dyn_cast<LabelStmt>(S)) { o["k"] = "Label"; o["s"] = st(x->getSubStmt()); return o; }
    if (auto* x = dyn_cast<AttributedStmt>(S)) { return st(x->getSubStmt()); }
    o["k"] = "Other"; o["c"] = S->getStmtClassName();
    return o;
  }
};

static std::set<std::string> g_seen;

struct V : RecursiveASTVisitor<V> {
  Dumper D;
  ASTContext& C;
  explicit V(ASTContext& c) : D(c), C(c) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  void emit(Object o) { *g_out << Value(std::move(o)) << "\n"; }

  bool VisitFunctionDecl(FunctionDecl* F) {
    if (!D.inScope(F->getLocation())) return true;
    if (F->isDependentContext()) return true;
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    bool isDef = F->doesThisDeclarationHaveABody() || (F->isThisDeclarationADefinition() && F->isDefaulted());
    if (F->isImplicit()) return true;
    std::string u = D.usr(F);
    std::string key = (isDef ? "F" : "f") + u;
    if (!isDef) {
      // pure virtual / declaration only: emitted through record methods
      return true;
    }
    if (!g_seen.insert(key).second) return true;
    D.ids.clear();
    Object o;
    o["r"] = "fn"; o["q"] = D.qn(F); o["u"] = u; o["n"] = F->getNameAsString();
    o["file"] = D.file(F->getLocation()); o["l"] = (int64_t)D.line(F->getLocation());
    o["el"] = (int64_t)D.line(F->getEndLoc());
    o["ret"] = D.ty(F->getReturnType());
    if (F->isTemplateInstantiation()) o["inst"] = 1;
    if (F->isStatic()) o["static"] = 1;
    if (F->isVariadic()) o["variadic"] = 1;
    if (auto* FPT = F->getType()->getAs<FunctionProtoType>()) if (D.noThrow(FPT)) o["nx"] = 1;
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = D.qn(M->getParent());
      if (M->isVirtual()) o["virt"] = 1;
      if (M->isConst()) o["const"] = 1;
      if (M->isStatic()) o["static"] = 1;
      if (M->isDefaulted()) o["dflt"] = 1;
      o["acc"] = (int64_t)M->getAccess();
      Array ov; for (auto* B : M->overridden_methods()) ov.push_back(D.usr(B)); o["ov"] = std::move(ov);
      if (isa<CXXConstructorDecl>(F)) o["kind"] = "ctor";
      else if (isa<CXXDestructorDecl>(F)) o["kind"] = "dtor";
      else if (isa<CXXConversionDecl>(F)) o["kind"] = "conv";
    }
    Array ps;
    for (auto* P : F->parameters()) {
      Object po; po["n"] = P->getNameAsString(); po["id"] = D.id(P); po["t"] = D.ty(P->getType());
      ps.push_back(std::move(po));
    }
    o["ps"] = std::move(ps);
    if (auto* K = dyn_cast<CXXConstructorDecl>(F)) {
      Array is;
      for (auto* I : K->inits()) {
        Object io;
        if (I->isAnyMemberInitializer()) { io["f"] = D.qn(I->getAnyMember()); }
        else if (I->isBaseInitializer()) { io["base"] = D.ty(QualType(I->getBaseClass(), 0)); }
        else io["deleg"] = 1;
        if (!I->isWritten()) io["impl"] = 1;
        io["e"] = D.ex(I->getInit());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    if (F->getBody()) o["body"] = D.st(F->getBody());
    emit(std::move(o));
    return true;
  }

  bool VisitCXXRecordDecl(CXXRecordDecl* R) {
    if (!R->isThisDeclarationADefinition() || R->isLambda()) return true;
    if (!D.inScope(R->getLocation()) || R->isDependentContext()) return true;
    std::string u = D.usr(R);
    if (!g_seen.insert("R" + u).second) return true;
    Object o;
    o["r"] = "rec"; o["q"] = D.qn(R); o["u"] = u; o["file"] = D.file(R->getLocation()); o["l"] = (int64_t)D.line(R->getLocation());
    Array bs; for (auto& b : R->bases()) bs.push_back(D.ty(b.getType())); o["bases"] = std::move(bs);
    Array fs;
    for (auto* f : R->fields()) {
      Object fo; fo["n"] = f->getNameAsString(); fo["q"] = D.qn(f); fo["t"] = D.ty(f->getType());
      if (f->isMutable()) fo["mut"] = 1;
      fo["acc"] = (int64_t)f->getAccess();
      if (f->getType()->isReferenceType()) fo["isref"] = 1;
      if (f->hasInClassInitializer() && f->getInClassInitializer()) { fo["init"] = 1; fo["i"] = D.ex(f->getInClassInitializer()); }
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    Array ms;
    for (auto* m : R->methods()) {
      if (m->isImplicit()) continue;
      Object mo; mo["q"] = D.qn(m); mo["n"] = m->getNameAsString(); mo["u"] = D.usr(m);
      if (m->isVirtual()) mo["virt"] = 1; if (m->isPureVirtual()) mo["pure"] = 1; if (m->isConst()) mo["const"] = 1; if (m->isStatic()) mo["static"] = 1;
      if (m->isDeleted()) mo["deleted"] = 1; if (m->isDefaulted()) mo["dflt"] = 1;
      mo["acc"] = (int64_t)m->getAccess(); mo["ret"] = D.ty(m->getReturnType());
      Array pt; for (auto* p : m->parameters()) pt.push_back(D.ty(p->getType())); mo["pt"] = std::move(pt);
      Array ov; for (auto* B : m->overridden_methods()) ov.push_back(D.usr(B)); mo["ov"] = std::move(ov);
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    emit(std::move(o));
    return true;
  }
  bool VisitEnumDecl(EnumDecl* E) {
    if (!E->isThisDeclarationADefinition() || !D.inScope(E->getLocation()) || E->isDependentContext()) return true;
    std::string u = D.usr(E);
    if (!g_seen.insert("E" + u).second) return true;
    Object o; o["r"] = "enum"; o["q"] = D.qn(E); o["file"] = D.file(E->getLocation()); o["l"] = (int64_t)D.line(E->getLocation());
    o["it"] = D.ty(E->getIntegerType());
    Array cs;
    for (auto* c : E->enumerators()) { Object co; co["n"] = c->getNameAsString(); co["q"] = D.qn(c); llvm::SmallString<40> s; c->getInitVal().toString(s, 10); co["v"] = std::string(s.str()); cs.push_back(std::move(co)); }
    o["c"] = std::move(cs);
    emit(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl* VD) {
    if (VD->isLocalVarDeclOrParm() || !D.inScope(VD->getLocation()) || VD->getDeclContext()->isDependentContext()) return true;
    if (!VD->getInit()) return true;
    if (isa<VarTemplateSpecializationDecl>(VD) || VD->getType()->isDependentType()) return true;
    std::string u = D.usr(VD);
    std::string k = "V" + u + "@" + D.file(VD->getLocation());
    if (!g_seen.insert(k).second) return true;
    D.ids.clear();
    Object o; o["r"] = "var"; o["q"] = D.qn(VD); o["u"] = u; o["t"] = D.ty(VD->getType()); o["file"] = D.file(VD->getLocation()); o["l"] = (int64_t)D.line(VD->getLocation());
    o["i"] = D.ex(VD->getInit());
    if (VD->getType().isConstQualified()) o["const"] = 1;
    emit(std::move(o));
    return true;
  }
};

// Destructors the standard library would instantiate (its bodies are skipped, so nothing asks for them).
struct DtorFinder : RecursiveASTVisitor<DtorFinder> {
  Dumper D;
  std::vector<CXXMethodDecl*> found;
  explicit DtorFinder(ASTContext& c) : D(c) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool VisitClassTemplateSpecializationDecl(ClassTemplateSpecializationDecl* R) {
    if (!R->isCompleteDefinition() || R->isDependentContext() || !D.inScope(R->getLocation())) return true;
    if (auto* X = R->getDestructor()) if (!X->isImplicit() && !X->doesThisDeclarationHaveABody() && X->isTemplateInstantiation()) found.push_back(X);
    // what only the standard library calls is not instantiated when its bodies are skipped
    if (isa<CXXRecordDecl>(R->getDeclContext()))
      for (auto* X : R->ctors())
        if (!X->isImplicit() && !X->doesThisDeclarationHaveABody() && X->isTemplateInstantiation()) found.push_back(X);
    for (auto* M : R->methods())
      if (auto* I = M->getIdentifier())
        if ((I->getName() == "deallocate" || I->getName() == "allocate") && !M->doesThisDeclarationHaveABody() && M->isTemplateInstantiation()) found.push_back(M);
    return true;
  }
};

struct Cons : SemaConsumer {
  Sema* S = nullptr;
  void InitializeSema(Sema& s) override { S = &s; }
  void ForgetSema() override { S = nullptr; }
  std::vector<Decl*> tops;
  std::set<const Decl*> have;
  bool HandleTopLevelDecl(DeclGroupRef G) override {
    // only what this translation unit parsed itself (not what a precompiled header provides)
    for (Decl* D : G) if (have.insert(D).second) tops.push_back(D);
    return true;
  }
  void HandleTranslationUnit(ASTContext& C) override {
    if (S) {
      DtorFinder f(C);
      for (Decl* D : tops) if (f.D.inScope(D->getLocation())) f.TraverseDecl(D);
      for (auto* X : f.found) S->InstantiateFunctionDefinition(X->getLocation(), X, true);
      S->PerformPendingInstantiations();
    }
    V v(C);
    for (Decl* D : tops) {
      if (!v.D.inScope(D->getLocation()) && !isa<NamespaceDecl>(D) && !isa<LinkageSpecDecl>(D)) continue;
      if (C.getSourceManager().isInSystemHeader(C.getSourceManager().getExpansionLoc(D->getLocation()))) continue;
      v.TraverseDecl(D);
    }
  }
  bool shouldSkipFunctionBody(Decl* D) override {
    auto& SM = D->getASTContext().getSourceManager();
    SourceLocation L = SM.getExpansionLoc(D->getLocation());
    if (SM.isInSystemHeader(L)) return true;
    llvm::StringRef f = SM.getFilename(L);
    if (f.contains("/repo/deps/") || f.contains("/usr/")) return true;
    return false;
  }
};

static bool g_err = false;
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, llvm::StringRef) override {
    CI.getFrontendOpts().SkipFunctionBodies = true;
    return std::make_unique<Cons>();
  }
};
} // namespace

// usage: gfacts OUT.jsonl ROOT FILE -- clang-args...
int main(int argc, const char** argv) {
  if (argc < 5) { llvm::errs() << "usage: gfacts OUT ROOT FILE... -- args\n"; return 2; }
  std::error_code ec;
  llvm::raw_fd_ostream os(argv[1], ec);
  if (ec) { llvm::errs() << ec.message() << "\n"; return 2; }
  g_out = &os;
  g_root = argv[2];
  if (g_root.back() != '/') g_root += '/';
  std::vector<std::string> files, args;
  int i = 3;
  for (; i < argc && std::string(argv[i]) != "--"; i++) files.push_back(argv[i]);
  for (i++; i < argc; i++) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool tool(db, files);
  int rc = tool.run(tooling::newFrontendActionFactory<Act>().get());
  os.flush();
  return rc;
}
