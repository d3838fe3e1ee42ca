// Fact extractor: emits, for every function defined in the analysed tree, its
// type-resolved body as a compact JSON tree (one JSON object per line).
// Nothing is executed; clang parses the translation unit with the project's
// own flags and this tool walks the resulting AST (template instantiations
// included, uninstantiated patterns skipped).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Index/USRGeneration.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
#include <fstream>

using namespace clang;
namespace json = llvm::json;

static std::string Root;

namespace {

class Emitter {
public:
  Emitter(ASTContext &C, std::ostream &O) : Ctx(C), SM(C.getSourceManager()), Out(O), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.SuppressUnwrittenScope = true;
    PP.Bool = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressDefaultTemplateArgs = true;
    PP.AnonymousTagLocations = false;
  }
  ASTContext &Ctx;
  SourceManager &SM;
  std::ostream &Out;
  PrintingPolicy PP;
  std::map<const Decl *, int> Ids;
  std::set<std::string> Done;
  std::vector<const CXXMethodDecl *> Lambdas;
  int LambdaN = 0;

  std::string fileOf(SourceLocation L) {
    if (L.isInvalid()) return "";
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    llvm::SmallString<256> P(F);
    if (auto FE = SM.getFileEntryForID(SM.getFileID(L))) {
      auto R = FE->tryGetRealPathName();
      if (!R.empty()) P = R;
    }
    return std::string(P);
  }
  bool inRoot(SourceLocation L) {
    std::string F = fileOf(L);
    return F.size() > Root.size() && F.compare(0, Root.size(), Root) == 0;
  }
  int line(SourceLocation L) { return L.isValid() ? (int)SM.getExpansionLineNumber(L) : 0; }
  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = Ids.find(D);
    if (it != Ids.end()) return it->second;
    int n = (int)Ids.size() + 1;
    Ids[D] = n;
    return n;
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string qn(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->printQualifiedName(OS, PP);
    return OS.str();
  }
  std::string usr(const Decl *D) {
    llvm::SmallString<128> B;
    if (index::generateUSRForDecl(D->getCanonicalDecl(), B)) return "";
    return std::string(B);
  }
  json::Object mk(const char *k, SourceLocation L) {
    json::Object O;
    O["k"] = k;
    O["l"] = line(L);
    return O;
  }

  json::Value exprs(llvm::ArrayRef<const Expr *> A) {
    json::Array R;
    for (auto *E : A) R.push_back(expr(E));
    return R;
  }
  template <class It> json::Array exprRange(It b, It e) {
    json::Array R;
    for (; b != e; ++b) R.push_back(expr(*b));
    return R;
  }
  json::Array callArgs(const CallExpr *C, unsigned from = 0) {
    json::Array R;
    for (unsigned i = from; i < C->getNumArgs(); ++i) {
      const Expr *A = C->getArg(i);
      if (auto *DA = dyn_cast<CXXDefaultArgExpr>(A)) {
        json::Object O = mk("defarg", C->getExprLoc());
        O["e"] = expr(DA->getExpr());
        R.push_back(std::move(O));
      } else R.push_back(expr(A));
    }
    return R;
  }
  void callee(json::Object &O, const FunctionDecl *FD) {
    O["f"] = qn(FD);
    if (inRoot(FD->getLocation())) O["u"] = usr(FD);
    json::Array P;
    for (auto *PD : FD->parameters()) P.push_back(ty(PD->getType()));
    O["pt"] = std::move(P);
    if (auto *M = dyn_cast<CXXMethodDecl>(FD)) {
      O["m"] = M->isStatic() ? "static" : (M->isConst() ? "const" : "mut");
    }
    if (auto *TA = FD->getTemplateSpecializationArgs()) {
      json::Array T;
      for (auto &A : TA->asArray())
        if (A.getKind() == TemplateArgument::Type) T.push_back(ty(A.getAsType()));
        else if (A.getKind() == TemplateArgument::Integral) T.push_back(llvm::toString(A.getAsIntegral(), 10));
      if (!T.empty()) O["ta"] = std::move(T);
    }
  }

  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    SourceLocation L = E->getExprLoc();
    if (auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ExprWithCleanups>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) {
      json::Object O = mk("definit", L); O["e"] = expr(X->getExpr()); return O;
    }
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) {
      json::Object O = mk("defarg", L); O["e"] = expr(X->getExpr()); return O;
    }
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) return expr(X->getSourceExpr());
    if (auto *X = dyn_cast<CastExpr>(E)) {
      const Expr *S = X->getSubExpr();
      switch (X->getCastKind()) {
      case CK_FloatingToIntegral:
      case CK_FloatingCast:
      case CK_IntegralCast:
      case CK_IntegralToFloating:
      case CK_FloatingToBoolean:
      case CK_IntegralToBoolean:
      case CK_PointerToBoolean: {
        json::Object O = mk("cast", L);
        O["ck"] = X->getCastKindName();
        O["e"] = expr(S); O["t"] = ty(X->getType()); O["ft"] = ty(S->getType());
        O["x"] = isa<ExplicitCastExpr>(X);
        return O;
      }
      case CK_UserDefinedConversion:
      case CK_ConstructorConversion:
        return expr(S);
      default:
        return expr(S);
      }
    }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        json::Object O = mk("int", L);
        O["v"] = EC->getInitVal().getExtValue(); O["enum"] = qn(EC); O["t"] = ty(E->getType());
        return O;
      }
      if (auto *FD = dyn_cast<FunctionDecl>(D)) {
        json::Object O = mk("fref", L); callee(O, FD); return O;
      }
      json::Object O = mk("ref", L);
      O["n"] = D->getNameAsString(); O["id"] = id(D); O["t"] = ty(D->getType());
      if (auto *VD = dyn_cast<VarDecl>(D)) {
        if (!VD->isLocalVarDeclOrParm()) { O["g"] = qn(VD); O["id"] = 0; }
      }
      if (auto *BD = dyn_cast<BindingDecl>(D)) {
        if (auto *HV = BD->getHoldingVar()) { (void)HV; }
        O["binding"] = true;
        if (BD->getBinding()) {
          // resolve structured binding to an expression where clang provides one
          if (auto *HV = BD->getHoldingVar()) O["hold"] = expr(HV->getInit());
          else O["hold"] = expr(BD->getBinding());
        }
      }
      return O;
    }
    if (isa<CXXThisExpr>(E)) { json::Object O = mk("this", L); O["t"] = ty(E->getType()->getPointeeType()); return O; }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl();
      if (auto *FD = dyn_cast<FunctionDecl>(D)) {
        json::Object O = mk("mref", L); callee(O, FD); O["o"] = expr(X->getBase()); return O;
      }
      json::Object O = mk("mem", L);
      O["n"] = D->getNameAsString(); O["t"] = ty(D->getType());
      if (auto *R = dyn_cast<RecordDecl>(D->getDeclContext())) O["c"] = qn(R);
      if (auto *VD = dyn_cast<VarDecl>(D)) { O["k"] = "ref"; O["g"] = qn(VD); O["id"] = 0; return O; }
      O["o"] = expr(X->getBase());
      return O;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      json::Object O = mk("call", X->getOperatorLoc());
      O["t"] = ty(E->getType());
      O["op"] = getOperatorSpelling(X->getOperator());
      if (auto *FD = X->getDirectCallee()) callee(O, FD);
      const FunctionDecl *FD = X->getDirectCallee();
      if (FD && isa<CXXMethodDecl>(FD) && !cast<CXXMethodDecl>(FD)->isStatic()) {
        O["o"] = expr(X->getArg(0));
        O["a"] = callArgs(X, 1);
      } else O["a"] = callArgs(X);
      return O;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      json::Object O = mk("call", L);
      O["t"] = ty(E->getType());
      if (auto *FD = X->getMethodDecl()) {
        callee(O, FD);
        if (isa<CXXConversionDecl>(FD)) O["conv"] = true;
      }
      O["o"] = expr(X->getImplicitObjectArgument());
      O["a"] = callArgs(X);
      return O;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      json::Object O = mk("call", L);
      O["t"] = ty(E->getType());
      if (auto *FD = X->getDirectCallee()) callee(O, FD);
      else O["fe"] = expr(X->getCallee());
      O["a"] = callArgs(X);
      return O;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      json::Object O = mk("ctor", L);
      O["t"] = ty(E->getType());
      auto *CD = X->getConstructor();
      if (CD->isCopyConstructor()) O["cp"] = "copy";
      else if (CD->isMoveConstructor()) O["cp"] = "move";
      else if (CD->isDefaultConstructor()) O["cp"] = "default";
      if (inRoot(CD->getLocation())) O["u"] = usr(CD);
      if (X->requiresZeroInitialization()) O["zero"] = true;
      json::Array P;
      for (auto *PD : CD->parameters()) P.push_back(ty(PD->getType()));
      O["pt"] = std::move(P);
      json::Array A;
      for (auto *a : X->arguments()) A.push_back(expr(a));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      json::Object O = mk("int", L); O["v"] = (int64_t)X->getValue().getLimitedValue(); O["t"] = ty(E->getType()); return O;
    }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) {
      json::Object O = mk("int", L); O["v"] = (int64_t)X->getValue(); O["t"] = "char"; return O;
    }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      json::Object O = mk("flt", L); O["v"] = X->getValueAsApproximateDouble(); O["t"] = ty(E->getType()); return O;
    }
    if (auto *X = dyn_cast<StringLiteral>(E)) {
      json::Object O = mk("str", L); O["v"] = X->isOrdinary() ? json::fixUTF8(X->getString()) : ""; return O;
    }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      json::Object O = mk("bool", L); O["v"] = X->getValue(); return O;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return mk("null", L);
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {
      json::Object O = mk("zeroinit", L); O["t"] = ty(E->getType()); return O;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      json::Object O = mk("un", L);
      std::string op = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) op = "p" + op;
      O["op"] = op; O["e"] = expr(X->getSubExpr()); O["t"] = ty(E->getType());
      return O;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      json::Object O = mk("bin", X->getOperatorLoc());
      O["op"] = X->getOpcodeStr().str();
      O["a"] = expr(X->getLHS()); O["b"] = expr(X->getRHS()); O["t"] = ty(E->getType());
      if (auto *CA = dyn_cast<CompoundAssignOperator>(X)) O["ct"] = ty(CA->getComputationResultType());
      return O;
    }
    if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
      json::Object O = mk("cond", L);
      O["c"] = expr(X->getCond()); O["a"] = expr(X->getTrueExpr()); O["b"] = expr(X->getFalseExpr());
      O["t"] = ty(E->getType());
      return O;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      json::Object O = mk("idx", L);
      O["a"] = expr(X->getBase()); O["i"] = expr(X->getIdx()); O["t"] = ty(E->getType());
      return O;
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      json::Object O = mk("list", L);
      json::Array A;
      const InitListExpr *S = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X);
      for (auto *e : S->inits()) A.push_back(expr(e));
      O["a"] = std::move(A); O["t"] = ty(E->getType());
      if (S->hasArrayFiller()) O["fill"] = true;
      return O;
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      json::Object O = mk("new", L);
      O["t"] = ty(X->getAllocatedType());
      if (X->isArray()) { O["arr"] = true; if (auto s = X->getArraySize()) O["sz"] = expr(*s); }
      O["e"] = expr(X->getInitializer());
      return O;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { json::Object O = mk("delete", L); O["e"] = expr(X->getArgument()); return O; }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) { json::Object O = mk("throw", L); O["e"] = expr(X->getSubExpr()); return O; }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      json::Object O = mk("int", L);
      Expr::EvalResult R;
      if (!X->isValueDependent() && X->EvaluateAsInt(R, Ctx)) O["v"] = R.Val.getInt().getExtValue(); else O["v"] = 0;
      O["t"] = ty(E->getType()); O["sizeof"] = true;
      return O;
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      json::Object O = mk("lambda", L);
      const CXXMethodDecl *M = X->getCallOperator();
      O["id"] = id(M);
      json::Array C;
      auto ci = X->capture_init_begin();
      for (auto &cap : X->captures()) {
        json::Object o;
        if (cap.capturesThis()) o["this"] = true;
        else if (cap.capturesVariable()) {
          auto *V = cap.getCapturedVar();
          o["n"] = V->getNameAsString(); o["id"] = id(V);
          o["by"] = cap.getCaptureKind() == LCK_ByRef ? "ref" : "copy";
          if (auto *VD = dyn_cast<VarDecl>(V)) if (VD->isInitCapture()) o["init"] = expr(VD->getInit());
        }
        ++ci;
        C.push_back(std::move(o));
      }
      O["caps"] = std::move(C);
      json::Array P;
      const Stmt *B = X->getBody();
      // a generic lambda: what it does is in its instantiation
      if (auto *TD = X->getDependentCallOperator()) {
        int n = 0;
        json::Array I;
        for (auto *S : TD->specializations())
          if (S->getBody()) {
            if (!n++) { M = cast<CXXMethodDecl>(S); B = S->getBody(); continue; }
            json::Object o;
            json::Array Q;
            for (auto *PD : S->parameters()) Q.push_back(param(PD));
            o["u"] = usr(S); o["params"] = std::move(Q); o["body"] = stmt(S->getBody());
            I.push_back(std::move(o));
          }
        O["inst"] = n;
        if (n > 1) O["insts"] = std::move(I);
      }
      for (auto *PD : M->parameters()) P.push_back(param(PD));
      O["params"] = std::move(P);
      O["body"] = stmt(B);
      return O;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) { (void)X; return mk("inhctor", L); }
    if (auto *X = dyn_cast<CXXTypeidExpr>(E)) { (void)X; return mk("typeid", L); }
    if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) {
      json::Object O = mk("arrcopy", L); O["e"] = expr(X->getCommonExpr()->getSourceExpr()); return O;
    }
    json::Object O = mk("other", L);
    O["cls"] = E->getStmtClassName(); O["t"] = ty(E->getType());
    json::Array A;
    for (auto *c : E->children()) if (c) if (auto *ce = dyn_cast<Expr>(c)) A.push_back(expr(ce));
    O["a"] = std::move(A);
    return O;
  }

  json::Value param(const ParmVarDecl *PD) {
    json::Object o;
    o["n"] = PD->getNameAsString(); o["id"] = id(PD); o["t"] = ty(PD->getType());
    return o;
  }

  json::Value varDecl(const VarDecl *V) {
    json::Object o = mk("var", V->getLocation());
    o["n"] = V->getNameAsString(); o["id"] = id(V); o["t"] = ty(V->getType());
    if (V->isStaticLocal()) o["static"] = true;
    if (V->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
    if (V->hasInit()) o["init"] = expr(V->getInit()); else o["init"] = nullptr;
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      json::Array B;
      for (auto *b : DD->bindings()) {
        json::Object x; x["n"] = b->getNameAsString(); x["id"] = id(b); B.push_back(std::move(x));
      }
      o["bindings"] = std::move(B);
    }
    return o;
  }

  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    SourceLocation L = S->getBeginLoc();
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      json::Object O = mk("block", L);
      json::Array A;
      for (auto *c : X->body()) A.push_back(stmt(c));
      O["s"] = std::move(A); O["e"] = line(S->getEndLoc());
      return O;
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      json::Object O = mk("decls", L);
      json::Array A;
      for (auto *D : X->decls())
        if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(varDecl(V));
      O["d"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      if (auto NDC = X->getNondiscardedCase(Ctx)) {
        json::Object O = mk("block", L); json::Array A; if (*NDC) A.push_back(stmt(*NDC)); O["s"] = std::move(A); return O;
      }
      json::Object O = mk("if", L);
      if (X->getInit()) O["init"] = stmt(X->getInit());
      if (auto *V = X->getConditionVariable()) O["cv"] = varDecl(V);
      O["c"] = expr(X->getCond()); O["a"] = stmt(X->getThen()); O["b"] = stmt(X->getElse());
      return O;
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      json::Object O = mk("for", L);
      O["init"] = stmt(X->getInit()); O["c"] = expr(X->getCond()); O["inc"] = expr(X->getInc()); O["body"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) {
      json::Object O = mk("while", L); O["c"] = expr(X->getCond()); O["body"] = stmt(X->getBody());
      if (auto *V = X->getConditionVariable()) O["cv"] = varDecl(V);
      return O;
    }
    if (auto *X = dyn_cast<DoStmt>(S)) {
      json::Object O = mk("do", L); O["c"] = expr(X->getCond()); O["body"] = stmt(X->getBody()); return O;
    }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      json::Object O = mk("rfor", L);
      O["var"] = varDecl(X->getLoopVariable());
      O["range"] = expr(X->getRangeInit());
      O["body"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { json::Object O = mk("ret", L); O["e"] = expr(X->getRetValue()); return O; }
    if (isa<BreakStmt>(S)) return mk("break", L);
    if (isa<ContinueStmt>(S)) return mk("cont", L);
    if (isa<NullStmt>(S)) return mk("nop", L);
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      json::Object O = mk("switch", L); O["c"] = expr(X->getCond()); O["body"] = stmt(X->getBody()); return O;
    }
    if (auto *X = dyn_cast<CaseStmt>(S)) {
      json::Object O = mk("case", L); O["v"] = expr(X->getLHS()); O["body"] = stmt(X->getSubStmt()); return O;
    }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { json::Object O = mk("default", L); O["body"] = stmt(X->getSubStmt()); return O; }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      json::Object O = mk("try", L); O["body"] = stmt(X->getTryBlock());
      json::Array H;
      for (unsigned i = 0; i < X->getNumHandlers(); ++i) H.push_back(stmt(X->getHandler(i)->getHandlerBlock()));
      O["h"] = std::move(H);
      return O;
    }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S)) { json::Object O = mk("label", L); O["body"] = stmt(X->getSubStmt()); return O; }
    if (isa<GotoStmt>(S)) return mk("goto", L);
    if (auto *X = dyn_cast<Expr>(S)) { json::Object O = mk("expr", L); O["e"] = expr(X); return O; }
    json::Object O = mk("otherstmt", L);
    O["cls"] = S->getStmtClassName();
    return O;
  }

  void write(json::Object O) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    OS << json::Value(std::move(O));
    Out << OS.str() << "\n";
  }

  void function(const FunctionDecl *FD) {
    if (!FD->doesThisDeclarationHaveABody() && !FD->isDefaulted()) return;
    if (FD->isDependentContext() || FD->isTemplated()) return;
    if (!FD->getBody()) return;
    if (!inRoot(FD->getLocation())) return;
    if (auto *M = dyn_cast<CXXMethodDecl>(FD))
      if (M->getParent()->isLambda()) return; // emitted inline
    std::string U = usr(FD);
    if (!Done.insert(U).second) return;
    json::Object O;
    O["kind"] = "func";
    O["name"] = qn(FD); O["u"] = U; O["file"] = fileOf(FD->getLocation()); O["l"] = line(FD->getLocation());
    O["el"] = line(FD->getBody()->getEndLoc());
    O["ret"] = ty(FD->getReturnType());
    if (FD->isImplicit() || FD->isDefaulted()) O["implicit"] = true;
    if (auto *TA = FD->getTemplateSpecializationArgs()) {
      json::Array T;
      for (auto &A : TA->asArray()) if (A.getKind() == TemplateArgument::Type) T.push_back(ty(A.getAsType()));
      O["ta"] = std::move(T);
    }
    if (auto *M = dyn_cast<CXXMethodDecl>(FD)) {
      O["cls"] = qn(M->getParent());
      O["m"] = M->isStatic() ? "static" : (M->isConst() ? "const" : "mut");
    }
    json::Array P;
    for (auto *PD : FD->parameters()) P.push_back(param(PD));
    O["params"] = std::move(P);
    if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) {
      O["ctor"] = true;
      json::Array I;
      for (auto *ci : CD->inits()) {
        json::Object o;
        if (ci->isAnyMemberInitializer()) { o["field"] = ci->getAnyMember()->getNameAsString(); o["t"] = ty(ci->getAnyMember()->getType()); }
        else if (ci->isDelegatingInitializer()) o["delegating"] = true;
        else o["base"] = true;
        o["written"] = ci->isWritten();
        o["l"] = line(ci->getSourceLocation());
        o["e"] = expr(ci->getInit());
        I.push_back(std::move(o));
      }
      O["inits"] = std::move(I);
    }
    O["body"] = stmt(FD->getBody());
    write(std::move(O));
  }

  void record(const CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return;
    if (!inRoot(R->getLocation())) return;
    std::string U = usr(R);
    if (!Done.insert(U).second) return;
    json::Object O;
    O["kind"] = "record"; O["name"] = qn(R); O["file"] = fileOf(R->getLocation()); O["l"] = line(R->getLocation());
    json::Array F;
    for (auto *f : R->fields()) {
      json::Object o;
      o["n"] = f->getNameAsString(); o["t"] = ty(f->getType()); o["l"] = line(f->getLocation());
      o["access"] = f->getAccess() == AS_public ? "public" : f->getAccess() == AS_private ? "private" : "protected";
      o["ini"] = f->hasInClassInitializer();
      if (f->hasInClassInitializer() && f->getInClassInitializer()) o["e"] = expr(f->getInClassInitializer());
      F.push_back(std::move(o));
    }
    O["fields"] = std::move(F);
    json::Array M;
    for (auto *m : R->methods()) {
      json::Object o; o["n"] = m->getNameAsString(); o["u"] = usr(m); o["deleted"] = m->isDeleted();
      o["implicit"] = m->isImplicit(); o["ctor"] = isa<CXXConstructorDecl>(m);
      o["defaulted"] = m->isDefaulted();
      M.push_back(std::move(o));
    }
    O["methods"] = std::move(M);
    write(std::move(O));
  }
  void global(const VarDecl *V) {
    if (V->isLocalVarDeclOrParm() || !inRoot(V->getLocation()) || V->isTemplated()) return;
    if (!V->hasInit()) return;
    std::string U = usr(V);
    if (!Done.insert("G" + U).second) return;
    json::Object O;
    O["kind"] = "global"; O["name"] = qn(V); O["t"] = ty(V->getType()); O["l"] = line(V->getLocation());
    O["file"] = fileOf(V->getLocation());
    O["e"] = expr(V->getInit());
    write(std::move(O));
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  Emitter &Em;
  explicit Visitor(Emitter &E) : Em(E) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *FD) { Em.function(FD); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { Em.record(R); return true; }
  bool VisitVarDecl(VarDecl *V) { Em.global(V); return true; }
  // skip declarations of system headers entirely except template
  // instantiations reachable from namespaces of the project
  bool TraverseDecl(Decl *D) {
    if (D && !isa<TranslationUnitDecl>(D) && D->getLocation().isValid()) {
      if (!Em.inRoot(D->getLocation()) && !isa<NamespaceDecl>(D)) return true;
      if (isa<NamespaceDecl>(D) && !Em.inRoot(D->getLocation())) return true;
    }
    return RecursiveASTVisitor::TraverseDecl(D);
  }
};

class Consumer : public ASTConsumer {
public:
  std::ostream &O;
  std::string File;
  Consumer(std::ostream &o, std::string F) : O(o), File(F) {}
  void HandleTranslationUnit(ASTContext &C) override {
    Emitter E(C, O);
    Visitor V(E);
    V.TraverseDecl(C.getTranslationUnitDecl());
    json::Object R; R["kind"] = "tu"; R["file"] = File;
    R["errors"] = (int64_t)C.getDiagnostics().hasErrorOccurred();
    E.write(std::move(R));
  }
};
class Action : public ASTFrontendAction {
public:
  std::ostream &O;
  explicit Action(std::ostream &o) : O(o) {}
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef F) override {
    return std::make_unique<Consumer>(O, F.str());
  }
};
class Factory : public tooling::FrontendActionFactory {
public:
  std::ostream &O;
  explicit Factory(std::ostream &o) : O(o) {}
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(O); }
};
} // namespace

// usage: extract ROOT SOURCE OUT DIRECTORY -- flags...
int main(int argc, char **argv) {
  if (argc < 6) return 2;
  Root = argv[1];
  if (Root.back() != '/') Root += '/';
  std::string Src = argv[2], OutF = argv[3], Dir = argv[4];
  std::vector<std::string> Flags;
  for (int i = 6; i < argc; ++i) Flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(Dir, Flags);
  tooling::ClangTool Tool(DB, {Src});
  std::ofstream O(OutF);
  Factory F(O);
  int rc = Tool.run(&F);
  O.close();
  return rc;
}
