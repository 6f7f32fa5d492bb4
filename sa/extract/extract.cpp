// Fact extractor: serialises the resolved (type-checked) AST of every function,
// class, enum and global defined under a source root into JSON.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string Root;
static int NumErrors = 0;

struct Ex {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> Ids;
  explicit Ex(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.SuppressInlineNamespace = true;
  }
  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    const FileEntry *FE = SM.getFileEntryForID(SM.getFileID(L));
    if (!FE) return "";
    std::string S = FE->tryGetRealPathName().str();
    return S;
  }
  bool inRoot(SourceLocation L) {
    std::string F = fileOf(L);
    return F.rfind(Root, 0) == 0;
  }
  int line(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return 0;
    return (int)SM.getExpansionLineNumber(L);
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    return T.getCanonicalType().getUnqualifiedType().getAsString(PP);
  }
  std::string tyq(QualType T) {
    if (T.isNull()) return "?";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string qn(const NamedDecl *D) {
    std::string S;
    std::vector<std::string> Parts;
    auto nm = [&](const NamedDecl *N) -> std::string {
      if (auto *FD = dyn_cast<FunctionDecl>(N)) {
        if (isa<CXXConstructorDecl>(FD)) return cast<NamedDecl>(FD->getDeclContext())->getNameAsString();
        if (isa<CXXDestructorDecl>(FD)) return "~" + cast<NamedDecl>(FD->getDeclContext())->getNameAsString();
        if (isa<CXXConversionDecl>(FD)) return "operator conv";
      }
      return N->getDeclName().isEmpty() ? std::string("(anon)") : N->getNameAsString();
    };
    Parts.push_back(nm(D));
    const DeclContext *DC = D->getDeclContext();
    while (DC && !DC->isTranslationUnit()) {
      if (auto *NS = dyn_cast<NamespaceDecl>(DC)) {
        if (!NS->isInline()) Parts.push_back(NS->isAnonymousNamespace() ? "(anon)" : NS->getNameAsString());
      } else if (auto *RD = dyn_cast<RecordDecl>(DC)) {
        Parts.push_back(RD->getNameAsString().empty() ? "(anon)" : RD->getNameAsString());
      } else if (auto *FD = dyn_cast<FunctionDecl>(DC)) {
        Parts.push_back(nm(FD));
      }
      DC = DC->getParent();
    }
    for (auto It = Parts.rbegin(); It != Parts.rend(); ++It) { if (!S.empty()) S += "::"; S += *It; }
    return S;
  }
  std::string fid(const FunctionDecl *F) {
    std::string S = qn(F) + "(";
    bool first = true;
    for (auto *P : F->parameters()) { if (!first) S += ","; first = false; S += tyq(P->getType()); }
    S += ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->isConst()) S += "const";
    return S;
  }
  int lid(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = Ids.find(D);
    if (It != Ids.end()) return It->second;
    int N = (int)Ids.size() + 1;
    Ids[D] = N;
    return N;
  }
  std::string passMode(const FunctionDecl *F, unsigned I) {
    if (!F || I >= F->getNumParams()) return "v";
    QualType T = F->getParamDecl(I)->getType();
    if (T->isReferenceType()) return T->getPointeeType().isConstQualified() ? "r" : (T->isRValueReferenceType() ? "x" : "m");
    if (T->isPointerType()) return T->getPointeeType().isConstQualified() ? "r" : "m";
    return "v";
  }
  Value exprs(llvm::ArrayRef<const Expr *> Es) { Array A; for (auto *E : Es) A.push_back(expr(E)); return A; }

  const Expr *strip(const Expr *E) {
    while (E) {
      if (auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *X = dyn_cast<FullExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = X->getReplacement(); continue; }
      if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
        if (X->getCastKind() == CK_UserDefinedConversion) { E = X->getSubExpr(); continue; }
        // keep numeric conversions that may change the value
        CastKind K = X->getCastKind();
        if (K == CK_FloatingToIntegral || K == CK_FloatingCast) return E;
        if (K == CK_IntegralCast) {
          QualType F = X->getSubExpr()->getType(), T = X->getType();
          if (!F->isBooleanType() && C.getTypeSize(F) > C.getTypeSize(T) && !isa<IntegerLiteral>(X->getSubExpr()->IgnoreParenImpCasts())) return E;
          E = X->getSubExpr(); continue;
        }
        E = X->getSubExpr(); continue;
      }
      if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
        if (!isa<CXXTemporaryObjectExpr>(X) && X->getNumArgs() >= 1 && X->getConstructor()->isCopyOrMoveConstructor()) {
          E = X->getArg(0); continue;
        }
        return E;
      }
      if (auto *X = dyn_cast<CXXFunctionalCastExpr>(E)) {
        if (X->getCastKind() == CK_ConstructorConversion || X->getCastKind() == CK_NoOp) { E = X->getSubExpr(); continue; }
        return E;
      }
      if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) { E = X->getSubExpr(); continue; }
      return E;
    }
    return E;
  }

  Object mk(const char *K, const Expr *E) {
    Object O;
    O["k"] = K;
    O["l"] = line(E->getBeginLoc());
    O["t"] = ty(E->getType());
    return O;
  }

  Value expr(const Expr *E0) {
    if (!E0) return nullptr;
    const Expr *E = strip(E0);
    if (!E) return nullptr;
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) { Object O = mk("DefArg", E); O["e"] = expr(X->getExpr()); return O; }
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) { Object O = mk("DefInit", E); O["e"] = expr(X->getExpr()); return O; }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      if (auto *B = dyn_cast<BindingDecl>(X->getDecl())) {
        // a name for a part of the value that is taken apart
        auto *DD = dyn_cast_or_null<DecompositionDecl>(B->getDecomposedDecl());
        if (DD && B->getHoldingVar()) {
          unsigned i = 0;
          for (auto *Y : DD->bindings()) { if (Y == B) break; i++; }
          auto *RD = DD->getType().getNonReferenceType()->getAsCXXRecordDecl();
          if (RD && RD->getName() == "pair" && RD->isInStdNamespace()) {
            Object R = mk("Ref", E);
            R["n"] = ""; R["d"] = "var"; R["id"] = lid(DD); R["dt"] = tyq(DD->getType());
            Object O = mk("Mem", E);
            O["b"] = std::move(R); O["n"] = i ? "second" : "first"; O["q"] = i ? "std::pair::second" : "std::pair::first";
            O["arrow"] = false; O["repo"] = false;
            return O;
          }
        }
        else if (DD && B->getBinding()) return expr(B->getBinding());
      }
      Object O = mk("Ref", E);
      const ValueDecl *D = X->getDecl();
      O["n"] = D->getNameAsString();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { O["d"] = "func"; O["f"] = fid(F); O["q"] = qn(F); }
      else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        O["d"] = "enum"; O["q"] = qn(EC); O["v"] = (int64_t)EC->getInitVal().getExtValue();
        if (auto *ED = dyn_cast<EnumDecl>(EC->getDeclContext())) O["et"] = qn(ED);
      }
      else if (auto *V = dyn_cast<VarDecl>(D)) {
        if (isa<ParmVarDecl>(V)) { O["d"] = "param"; O["id"] = lid(V); O["dt"]=tyq(V->getType()); }
        else if (V->isLocalVarDecl() ) { O["d"] = V->isStaticLocal() ? "slocal" : "var"; O["id"] = lid(V); O["dt"]=tyq(V->getType()); if (V->isStaticLocal()) O["q"] = qn(V); }
        else if (V->isLocalVarDeclOrParm()) { O["d"] = "var"; O["id"] = lid(V); O["dt"]=tyq(V->getType()); }
        else { O["d"] = V->isStaticDataMember() ? "sfield" : "global"; O["q"] = qn(V); O["repo"] = inRoot(V->getLocation()); O["tls"] = V->getTLSKind() != VarDecl::TLS_None; }
      } else if (isa<BindingDecl>(D)) { O["d"] = "var"; O["id"] = lid(D); }
      else { O["d"] = "other"; O["q"] = qn(D); }
      return O;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) { Object O = mk("Ref", E); O["n"] = V->getNameAsString(); O["d"] = "sfield"; O["q"] = qn(V); O["repo"] = inRoot(V->getLocation()); O["tls"] = V->getTLSKind() != VarDecl::TLS_None; return O; }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { Object O = mk("Ref", E); O["n"] = EC->getNameAsString(); O["d"] = "enum"; O["q"] = qn(EC); O["v"] = (int64_t)EC->getInitVal().getExtValue(); return O; }
      Object O = mk("Mem", E);
      O["b"] = expr(X->getBase());
      O["n"] = D->getNameAsString();
      O["q"] = qn(D);
      O["arrow"] = X->isArrow();
      O["repo"] = inRoot(D->getLocation());
      if (auto *F = dyn_cast<FunctionDecl>(D)) { O["f"] = fid(F); }
      return O;
    }
    if (isa<CXXThisExpr>(E)) return mk("This", E);
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      Object O = mk("Call", E);
      call(O, X->getDirectCallee(), X);
      const FunctionDecl *F = X->getDirectCallee();
      O["op"] = getOperatorSpelling(X->getOperator());
      std::vector<const Expr *> As(X->arg_begin(), X->arg_end());
      if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) {
        O["o"] = expr(As[0]);
        As.erase(As.begin());
      }
      args(O, F, As);
      return O;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      Object O = mk("Call", E);
      const CXXMethodDecl *M = X->getMethodDecl();
      call(O, M, X);
      const Expr *Obj = X->getImplicitObjectArgument();
      if (Obj) O["o"] = expr(Obj);
      if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) {
        O["arrow"] = ME->isArrow();
        if (ME->hasQualifier()) O["nonvirt"] = true;
      }
      std::vector<const Expr *> As(X->arg_begin(), X->arg_end());
      args(O, M, As);
      if (!M) O["fe"] = expr(X->getCallee());
      return O;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      Object O = mk("Call", E);
      const FunctionDecl *F = X->getDirectCallee();
      call(O, F, X);
      std::vector<const Expr *> As(X->arg_begin(), X->arg_end());
      args(O, F, As);
      if (!F) {
        // member of an object whose type is a template parameter (generic lambdas)
        auto *DM = dyn_cast<CXXDependentScopeMemberExpr>(X->getCallee()->IgnoreParens());
        if (DM && !DM->isImplicitAccess()) {
          O["q"] = "std::?::" + DM->getMember().getAsString();
          O["o"] = expr(DM->getBase());
          O["arrow"] = DM->isArrow();
        } else
          O["fe"] = expr(X->getCallee());
      }
      return O;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      Object O = mk("Ctor", E);
      const CXXConstructorDecl *D = X->getConstructor();
      O["f"] = fid(D);
      O["q"] = qn(D->getParent());
      O["repo"] = inRoot(D->getLocation());
      O["def"] = D->isDefaultConstructor();
      O["triv"] = D->isTrivial();
      O["userp"] = D->isUserProvided();
      O["line"] = X->isListInitialization();
      std::vector<const Expr *> As(X->arg_begin(), X->arg_end());
      args(O, D, As);
      return O;
    }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      Object O = mk("Assign", E); O["op"] = X->getOpcodeStr().str(); O["a"] = expr(X->getLHS()); O["b"] = expr(X->getRHS()); return O;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      Object O = mk(X->isAssignmentOp() ? "Assign" : "Bin", E);
      O["op"] = X->getOpcodeStr().str(); O["a"] = expr(X->getLHS()); O["b"] = expr(X->getRHS()); return O;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      Object O = mk("Un", E);
      O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      O["post"] = X->isPostfix();
      O["e"] = expr(X->getSubExpr());
      return O;
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      Object O = mk("Cond", E); O["c"] = expr(X->getCond()); O["a"] = expr(X->getTrueExpr()); O["b"] = expr(X->getFalseExpr()); return O;
    }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) { Object O = mk("Lit", E); O["lk"] = "int"; llvm::SmallString<32> S; X->getValue().toString(S, 10, X->getType()->isSignedIntegerType()); O["v"] = S.str().str(); return O; }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) { Object O = mk("Lit", E); O["lk"] = "float"; llvm::SmallString<32> S; X->getValue().toString(S); O["v"] = S.str().str(); return O; }
    if (auto *X = dyn_cast<StringLiteral>(E)) { Object O = mk("Lit", E); O["lk"] = "str"; std::string S = X->isOrdinary() ? X->getString().str() : ""; if (!llvm::json::isUTF8(S)) S = llvm::json::fixUTF8(S); O["v"] = S; return O; }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { Object O = mk("Lit", E); O["lk"] = "bool"; O["v"] = X->getValue() ? "1" : "0"; return O; }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { Object O = mk("Lit", E); O["lk"] = "char"; O["v"] = std::to_string(X->getValue()); return O; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { Object O = mk("Lit", E); O["lk"] = "null"; O["v"] = "0"; return O; }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { Object O = mk("Index", E); O["b"] = expr(X->getBase()); O["i"] = expr(X->getIdx()); return O; }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      Object O = mk("New", E); O["at"] = ty(X->getAllocatedType()); O["arr"] = X->isArray();
      if (X->isArray() && X->getArraySize()) O["sz"] = expr(*X->getArraySize());
      if (X->getInitializer()) O["init"] = expr(X->getInitializer());
      return O;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { Object O = mk("Delete", E); O["arr"] = X->isArrayForm(); O["e"] = expr(X->getArgument()); return O; }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      Object O = mk("Cast", E); O["ck"] = X->getCastKindName(); O["e"] = expr(X->getSubExpr());
      O["exp"] = isa<ExplicitCastExpr>(X); return O;
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      Object O = mk("Throw", E);
      if (X->getSubExpr()) { O["e"] = expr(X->getSubExpr()); O["xt"] = ty(X->getSubExpr()->getType()); }
      return O;
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      Object O = mk("Lambda", E);
      Array Ps;
      for (auto *P : X->getCallOperator()->parameters()) Ps.push_back(var(P));
      O["p"] = std::move(Ps);
      Array Cs;
      for (auto &Cp : X->captures()) { Object c; c["this"] = Cp.capturesThis(); c["ref"] = Cp.getCaptureKind() == LCK_ByRef; if (Cp.capturesVariable()) { c["id"] = lid(Cp.getCapturedVar()); c["n"] = Cp.getCapturedVar()->getNameAsString(); } Cs.push_back(std::move(c)); }
      O["cap"] = std::move(Cs);
      O["body"] = stmt(X->getCallOperator()->getBody());
      return O;
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      Object O = mk("InitList", E); Array A; for (auto *I : X->inits()) A.push_back(expr(I)); O["a"] = std::move(A); return O;
    }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { Object O = mk("Sizeof", E); if (!X->isArgumentType()) O["e"] = expr(X->getArgumentExpr()); return O; }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) { Object O = mk("Lit", E); O["lk"] = "zero"; O["v"] = "0"; return O; }
    // fallback: generic node with children
    Object O = mk("Other", E);
    O["cls"] = E->getStmtClassName();
    Array A;
    for (const Stmt *S : E->children()) if (S) { if (auto *SE = dyn_cast<Expr>(S)) A.push_back(expr(SE)); }
    O["a"] = std::move(A);
    return O;
  }
  void call(Object &O, const FunctionDecl *F, const CallExpr *X) {
    if (!F) { O["f"] = ""; O["q"] = ""; O["repo"] = false; return; }
    O["f"] = fid(F);
    O["q"] = qn(F);
    O["repo"] = inRoot(F->getLocation());
    if (F->isNoReturn()) O["noret"] = true;
    if (auto *P = F->getType()->getAs<FunctionProtoType>()) if (P->isNothrow()) O["nothrow"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isVirtual()) O["virt"] = true;
      if (M->isConst()) O["mc"] = true;
      if (M->isStatic()) O["st"] = true;
    }
    QualType RT = F->getReturnType();
    if (RT->isReferenceType() || RT->isPointerType()) O["rr"] = RT->getPointeeType().isConstQualified() ? "r" : "m";
  }
  void args(Object &O, const FunctionDecl *F, const std::vector<const Expr *> &As) {
    Array A; std::string PM;
    unsigned I = 0;
    for (auto *E : As) { A.push_back(expr(E)); PM += passMode(F, I); ++I; }
    O["a"] = std::move(A);
    O["pm"] = PM;
  }
  Value var(const VarDecl *V) {
    Object O;
    O["id"] = lid(V);
    O["n"] = V->getNameAsString();
    O["t"] = tyq(V->getType());
    O["l"] = line(V->getLocation());
    if (V->isStaticLocal()) O["static"] = true;
    if (V->getTLSKind() != VarDecl::TLS_None) O["tls"] = true;
    if (V->hasInit() && !isa<ParmVarDecl>(V)) O["init"] = expr(V->getInit());
    if (auto *P = dyn_cast<ParmVarDecl>(V)) { if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg()) O["def"] = expr(P->getDefaultArg()); }
    return O;
  }
  Object ms(const char *K, const Stmt *S) { Object O; O["k"] = K; O["l"] = line(S->getBeginLoc()); return O; }
  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) { Object O = ms("Expr", S); O["e"] = expr(E); return O; }
    if (auto *X = dyn_cast<CompoundStmt>(S)) { Object O = ms("Block", S); Array A; for (auto *B : X->body()) A.push_back(stmt(B)); O["b"] = std::move(A); O["el"] = line(X->getRBracLoc()); return O; }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      Object O = ms("Decl", S); Array A;
      for (auto *D : X->decls()) { if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(var(V)); if (auto *DD = dyn_cast<DecompositionDecl>(D)) { Array B; for (auto *Bd : DD->bindings()) { Object b; b["id"] = lid(Bd); b["n"] = Bd->getNameAsString(); B.push_back(std::move(b)); } O["bind"] = std::move(B); } }
      O["v"] = std::move(A); return O;
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      Object O = ms("If", S);
      if (X->getInit()) O["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) O["cv"] = var(X->getConditionVariable());
      O["c"] = expr(X->getCond()); O["a"] = stmt(X->getThen()); O["b"] = stmt(X->getElse()); return O;
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      Object O = ms("For", S); O["init"] = stmt(X->getInit()); O["c"] = expr(X->getCond()); O["inc"] = expr(X->getInc()); O["b"] = stmt(X->getBody()); return O;
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) { Object O = ms("While", S); if (X->getConditionVariable()) O["cv"] = var(X->getConditionVariable()); O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody()); return O; }
    if (auto *X = dyn_cast<DoStmt>(S)) { Object O = ms("Do", S); O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody()); return O; }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) { Object O = ms("RangeFor", S); O["v"] = var(X->getLoopVariable()); O["r"] = expr(X->getRangeInit()); O["b"] = stmt(X->getBody()); return O; }
    if (auto *X = dyn_cast<SwitchStmt>(S)) { Object O = ms("Switch", S); O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody()); return O; }
    if (auto *X = dyn_cast<CaseStmt>(S)) { Object O = ms("Case", S); O["c"] = expr(X->getLHS()); O["b"] = stmt(X->getSubStmt()); return O; }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { Object O = ms("Default", S); O["b"] = stmt(X->getSubStmt()); return O; }
    if (isa<BreakStmt>(S)) return ms("Break", S);
    if (isa<ContinueStmt>(S)) return ms("Continue", S);
    if (auto *X = dyn_cast<ReturnStmt>(S)) { Object O = ms("Return", S); O["e"] = expr(X->getRetValue()); return O; }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      Object O = ms("Try", S); O["b"] = stmt(X->getTryBlock()); Array H;
      for (unsigned I = 0; I < X->getNumHandlers(); ++I) {
        auto *Hn = X->getHandler(I); Object h; h["l"] = line(Hn->getBeginLoc());
        h["t"] = Hn->getCaughtType().isNull() ? std::string("...") : ty(Hn->getCaughtType().getNonReferenceType());
        if (Hn->getExceptionDecl()) h["v"] = var(Hn->getExceptionDecl());
        h["b"] = stmt(Hn->getHandlerBlock()); H.push_back(std::move(h));
      }
      O["h"] = std::move(H); return O;
    }
    if (isa<NullStmt>(S)) return ms("Null", S);
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<OMPExecutableDirective>(S)) {
      Object O = ms("OMP", S);
      O["dir"] = llvm::omp::getOpenMPDirectiveName(X->getDirectiveKind()).str();
      Array Cl;
      for (auto *Cp : X->clauses()) {
        if (Cp->isImplicit()) continue;
        Object c; c["k"] = llvm::omp::getOpenMPClauseName(Cp->getClauseKind()).str();
        Array V;
        auto addVars = [&](auto *L) { for (auto *E : L->varlists()) V.push_back(expr(E)); };
        if (auto *L = dyn_cast<OMPPrivateClause>(Cp)) addVars(L);
        else if (auto *L = dyn_cast<OMPFirstprivateClause>(Cp)) addVars(L);
        else if (auto *L = dyn_cast<OMPLastprivateClause>(Cp)) addVars(L);
        else if (auto *L = dyn_cast<OMPSharedClause>(Cp)) addVars(L);
        else if (auto *L = dyn_cast<OMPReductionClause>(Cp)) addVars(L);
        else if (auto *N = dyn_cast<OMPNumThreadsClause>(Cp)) V.push_back(expr(N->getNumThreads()));
        c["v"] = std::move(V);
        Cl.push_back(std::move(c));
      }
      O["cl"] = std::move(Cl);
      if (auto *CD = dyn_cast<OMPCriticalDirective>(X)) O["name"] = CD->getDirectiveName().getAsString();
      if (X->hasAssociatedStmt()) O["b"] = stmt(X->getRawStmt());
      return O;
    }
    if (auto *X = dyn_cast<CapturedStmt>(S)) return stmt(X->getCapturedStmt());
    if (auto *X = dyn_cast<LabelStmt>(S)) { Object O = ms("Label", S); O["b"] = stmt(X->getSubStmt()); return O; }
    if (isa<GotoStmt>(S)) return ms("Goto", S);
    Object O = ms("OtherStmt", S); O["cls"] = S->getStmtClassName(); Array A; for (auto *Ch : S->children()) A.push_back(stmt(Ch)); O["b"] = std::move(A); return O;
  }
  Value func(const FunctionDecl *F) {
    Object O;
    O["id"] = fid(F);
    O["q"] = qn(F);
    O["n"] = F->getNameAsString();
    O["file"] = fileOf(F->getLocation());
    O["l"] = line(F->getLocation());
    O["el"] = line(F->getEndLoc());
    O["rt"] = tyq(F->getReturnType());
    Array P; for (auto *Q : F->parameters()) P.push_back(var(Q));
    O["p"] = std::move(P);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = qn(M->getParent());
      O["const"] = M->isConst(); O["static"] = M->isStatic(); O["virt"] = M->isVirtual();
      Array Ov; for (auto *B : M->overridden_methods()) Ov.push_back(fid(B)); O["ov"] = std::move(Ov);
      O["acc"] = M->getAccess() == AS_public ? "public" : (M->getAccess() == AS_protected ? "protected" : "private");
    }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      O["kind"] = "ctor"; Array I;
      for (auto *In : K->inits()) {
        Object i; i["w"] = In->isWritten(); i["l"] = line(In->getSourceLocation());
        if (In->isAnyMemberInitializer()) i["field"] = qn(In->getAnyMember());
        else if (In->isBaseInitializer()) i["base"] = ty(QualType(In->getBaseClass(), 0));
        else i["deleg"] = true;
        i["e"] = expr(In->getInit());
        I.push_back(std::move(i));
      }
      O["inits"] = std::move(I);
      O["defctor"] = K->isDefaultConstructor(); O["copy"] = K->isCopyConstructor(); O["move"] = K->isMoveConstructor();
    } else if (isa<CXXDestructorDecl>(F)) O["kind"] = "dtor";
    else O["kind"] = "func";
    O["body"] = stmt(F->getBody());
    return O;
  }
  Value cls(const CXXRecordDecl *R) {
    Object O; O["q"] = qn(R); O["file"] = fileOf(R->getLocation()); O["l"] = line(R->getLocation());
    Array B; for (auto &Bs : R->bases()) { if (auto *BR = Bs.getType()->getAsCXXRecordDecl()) B.push_back(qn(BR)); } O["bases"] = std::move(B);
    Array F;
    for (auto *Fd : R->fields()) {
      Object f; f["n"] = Fd->getNameAsString(); f["q"] = qn(Fd); f["t"] = tyq(Fd->getType()); f["l"] = line(Fd->getLocation());
      f["hasinit"] = Fd->hasInClassInitializer();
      if (Fd->hasInClassInitializer() && Fd->getInClassInitializer()) f["init"] = expr(Fd->getInClassInitializer());
      QualType T = Fd->getType();
      const Type *BT = T->getBaseElementTypeUnsafe();
      f["scalar"] = BT->isScalarType(); f["ptr"] = BT->isPointerType() || BT->isMemberPointerType(); f["ref"] = T->isReferenceType();
      f["acc"] = Fd->getAccess() == AS_public ? "public" : (Fd->getAccess() == AS_protected ? "protected" : "private");
      if (auto *RD = BT->getAsCXXRecordDecl()) { f["rec"] = qn(RD); f["recpod"] = RD->hasTrivialDefaultConstructor(); }
      F.push_back(std::move(f));
    }
    O["fields"] = std::move(F);
    Array M;
    for (auto *D : R->methods()) {
      if (D->isImplicit()) continue;
      Object m; m["id"] = fid(D); m["q"] = qn(D); m["n"] = D->getNameAsString(); m["virt"] = D->isVirtual(); m["pure"] = D->isPureVirtual(); m["const"] = D->isConst(); m["static"] = D->isStatic();
      m["acc"] = D->getAccess() == AS_public ? "public" : (D->getAccess() == AS_protected ? "protected" : "private");
      m["hasbody"] = D->isDefined(); m["ctor"] = isa<CXXConstructorDecl>(D); m["dtor"] = isa<CXXDestructorDecl>(D); m["l"] = line(D->getLocation());
      m["deleted"] = D->isDeleted(); m["defaulted"] = D->isDefaulted();
      m["copyassign"] = D->isCopyAssignmentOperator(); m["moveassign"] = D->isMoveAssignmentOperator();
      if (auto *K = dyn_cast<CXXConstructorDecl>(D)) { m["copy"] = K->isCopyConstructor(); m["move"] = K->isMoveConstructor(); m["default"] = K->isDefaultConstructor(); }
      Array Ov; for (auto *Bm : D->overridden_methods()) Ov.push_back(fid(Bm)); m["ov"] = std::move(Ov);
      Array P; for (auto *Q : D->parameters()) { Object p; p["n"] = Q->getNameAsString(); p["t"] = tyq(Q->getType()); P.push_back(std::move(p)); } m["p"] = std::move(P);
      m["rt"] = tyq(D->getReturnType());
      M.push_back(std::move(m));
    }
    O["methods"] = std::move(M);
    O["anyctor"] = R->hasUserDeclaredConstructor();
    O["polymorphic"] = R->isPolymorphic();
    return O;
  }
};

struct V : RecursiveASTVisitor<V> {
  Ex X; Array Funcs, Classes, Enums, Globals; std::set<const Decl *> Seen;
  explicit V(ASTContext &C) : X(C) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() || !F->getBody()) return true;
    if (F->isDependentContext()) return true;
    if (!X.inRoot(F->getLocation())) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    if (F->isImplicit() || F->isDefaulted()) return true;
    if (!Seen.insert(F).second) return true;
    Funcs.push_back(X.func(F));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isImplicit() || R->isLambda() || R->isDependentContext()) return true;
    if (!X.inRoot(R->getLocation())) return true;
    Classes.push_back(X.cls(R));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || !X.inRoot(E->getLocation())) return true;
    Object O; O["q"] = X.qn(E); O["file"] = X.fileOf(E->getLocation()); O["l"] = X.line(E->getLocation());
    Array A; for (auto *C : E->enumerators()) { Object c; c["n"] = C->getNameAsString(); c["q"] = X.qn(C); c["v"] = (int64_t)C->getInitVal().getExtValue(); A.push_back(std::move(c)); }
    O["c"] = std::move(A); Enums.push_back(std::move(O)); return true;
  }
  bool VisitVarDecl(VarDecl *D) {
    if (isa<ParmVarDecl>(D) || D->isLocalVarDecl() || !X.inRoot(D->getLocation())) return true;
    if (D->getDeclContext()->isFunctionOrMethod()) return true;
    Object O; O["q"] = X.qn(D); O["file"] = X.fileOf(D->getLocation()); O["l"] = X.line(D->getLocation()); O["t"] = X.tyq(D->getType());
    O["tls"] = D->getTLSKind() != VarDecl::TLS_None; O["def"] = D->isThisDeclarationADefinition() == VarDecl::Definition; O["sfield"] = D->isStaticDataMember();
    O["const"] = D->getType().isConstQualified();
    if (D->hasInit()) O["init"] = X.expr(D->getInit());
    Globals.push_back(std::move(O)); return true;
  }
};
struct Cons : ASTConsumer {
  std::string In;
  Array *Out;
  Cons(std::string In, Array *Out) : In(In), Out(Out) {}
  void HandleTranslationUnit(ASTContext &C) override {
    V v(C); v.TraverseDecl(C.getTranslationUnitDecl());
    Object O; O["tu"] = In; O["errors"] = (int64_t)C.getDiagnostics().getClient()->getNumErrors();
    O["funcs"] = std::move(v.Funcs); O["classes"] = std::move(v.Classes); O["enums"] = std::move(v.Enums); O["globals"] = std::move(v.Globals);
    Out->push_back(std::move(O));
  }
};
struct Act : ASTFrontendAction {
  Array *Out;
  explicit Act(Array *Out) : Out(Out) {}
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef In) override { return std::make_unique<Cons>(In.str(), Out); }
};
struct Fac : tooling::FrontendActionFactory {
  Array *Out;
  explicit Fac(Array *Out) : Out(Out) {}
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(Out); }
};
int main(int argc, char **argv) {
  // usage: extract ROOT OUT FILE -- flags...
  if (argc < 5) { llvm::errs() << "usage: extract ROOT OUT FILE -- flags\n"; return 2; }
  Root = argv[1]; std::string OutF = argv[2]; std::string File = argv[3];
  std::vector<std::string> Flags;
  for (int i = 5; i < argc; ++i) Flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool T(DB, {File});
  Array Out; Fac F(&Out);
  int rc = T.run(&F);
  std::error_code EC; llvm::raw_fd_ostream OS(OutF, EC);
  if (EC) { llvm::errs() << "cannot write " << OutF << "\n"; return 2; }
  OS << Value(std::move(Out)); OS.flush();
  return rc;
}
