// astdump: dumps the type-resolved program (every function with a body that is
// located under a given root, template instantiations and implicit members
// included) as JSON. The analyses in /verif/analysis work on this dump.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Lex/Lexer.h"
#include "clang/AST/Mangle.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <fstream>

using namespace clang;
using llvm::json::OStream;

static std::string Root;
static std::string OutFile;

namespace {
class Dumper : public RecursiveASTVisitor<Dumper> {
  ASTContext &C;
  SourceManager &SM;
  OStream &J;
  std::unique_ptr<MangleContext> MC;
  std::map<const Type *, int> TypeIds;
  std::map<const void *, int> DeclIds;
  std::vector<std::pair<int, QualType>> TypeQueue;
  std::set<const RecordDecl *> Records;
  std::vector<const RecordDecl *> RecordOrder;
  std::map<std::pair<const Type *, unsigned>, int> QTypeIds;
  std::vector<const VarDecl *> Globals;
  std::set<const VarDecl *> GlobalSeen;
  std::set<const FunctionDecl *> Seen;

public:
  std::vector<const FunctionDecl *> Funcs;
  Dumper(ASTContext &C, OStream &J) : C(C), SM(C.getSourceManager()), J(J), MC(C.createMangleContext()) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return "";
    llvm::SmallString<256> S(P.getFilename());
    if (auto FE = SM.getFileEntryRefForID(SM.getFileID(L))) {
      StringRef RP = FE->getFileEntry().tryGetRealPathName();
      if (!RP.empty()) S = RP;
    }
    return std::string(S.str());
  }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string F = fileOf(L);
    return StringRef(F).starts_with(Root);
  }
  void loc(SourceLocation L) {
    if (L.isInvalid()) return;
    SourceLocation E = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(E);
    if (P.isInvalid()) return;
    std::string F = fileOf(L);
    if (StringRef(F).starts_with(Root)) F = F.substr(Root.size());
    J.attributeArray("l", [&] { J.value(F); J.value((int64_t)P.getLine()); J.value((int64_t)P.getColumn()); });
    if (L.isMacroID()) {
      // names of the macros this node comes from, innermost first
      J.attributeArray("mac", [&] {
        SourceLocation X = L;
        int n = 0;
        while (X.isMacroID() && n++ < 6) {
          J.value(Lexer::getImmediateMacroName(X, SM, C.getLangOpts()));
          X = SM.getImmediateMacroCallerLoc(X);
        }
      });
    }
  }
  int declId(const Decl *D) {
    const void *P = D->getCanonicalDecl();
    auto It = DeclIds.find(P);
    if (It != DeclIds.end()) return It->second;
    int N = DeclIds.size() + 1;
    DeclIds[P] = N;
    return N;
  }
  int typeId(QualType T) {
    if (T.isNull()) return 0;
    T = T.getCanonicalType();
    auto K = std::make_pair(T.getTypePtr(), T.getCVRQualifiers());
    auto It = QTypeIds.find(K);
    if (It != QTypeIds.end()) return It->second;
    int N = QTypeIds.size() + 1;
    QTypeIds[K] = N;
    TypeQueue.push_back({N, T});
    return N;
  }
  std::string mangled(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    if (auto *CD = dyn_cast<CXXConstructorDecl>(D)) { MC->mangleName(GlobalDecl(CD, Ctor_Complete), OS); }
    else if (auto *DD = dyn_cast<CXXDestructorDecl>(D)) { MC->mangleName(GlobalDecl(DD, Dtor_Complete), OS); }
    else if (auto *FD = dyn_cast<FunctionDecl>(D)) {
      if (MC->shouldMangleDeclName(FD)) MC->mangleName(GlobalDecl(FD), OS); else OS << FD->getNameAsString();
      // internal linkage: make unique per file
      if (FD->getFormalLinkage() == Linkage::Internal) OS << "@" << fileOf(FD->getLocation());
    } else if (auto *VD = dyn_cast<VarDecl>(D)) {
      if (MC->shouldMangleDeclName(VD)) MC->mangleName(GlobalDecl(VD), OS); else OS << VD->getNameAsString();
      if (VD->getFormalLinkage() != Linkage::External) OS << "@" << fileOf(VD->getLocation());
    }
    return OS.str();
  }
  void noteRecord(const RecordDecl *R) {
    if (!R) return;
    R = R->getDefinition() ? R->getDefinition() : R;
    if (Records.insert(R).second) RecordOrder.push_back(R);
  }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext()) return true;
    const FunctionDecl *Def = nullptr;
    if (!F->hasBody(Def) || Def != F) {
      // implicit / defaulted members have no body until used
      return true;
    }
    if (!inRoot(F->getLocation())) return true;
    if (Seen.insert(F).second) Funcs.push_back(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isThisDeclarationADefinition() && !R->isDependentContext() && inRoot(R->getLocation())) noteRecord(R);
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->hasGlobalStorage() && !V->getType()->isDependentType() && inRoot(V->getLocation()) &&
        !V->getDeclContext()->isDependentContext())
      if (GlobalSeen.insert(V->getCanonicalDecl()).second) Globals.push_back(V);
    return true;
  }

  void varRef(const ValueDecl *D) {
    J.attribute("name", D->getNameAsString());
    if (auto *V = dyn_cast<VarDecl>(D)) {
      if (V->hasGlobalStorage()) {
        J.attribute("g", mangled(V));
        if (V->isStaticLocal()) J.attribute("sl", true);
      } else J.attribute("id", declId(V));
    } else J.attribute("id", declId(D));
  }

  void fnRef(const FunctionDecl *F) {
    J.attribute("name", F->getQualifiedNameAsString());
    J.attribute("m", mangled(F));
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isVirtual()) J.attribute("virt", true);
      if (M->isConst()) J.attribute("const", true);
      if (M->isStatic()) J.attribute("static", true);
    }
    if (F->isNoReturn()) J.attribute("noret", true);
    if (F->isVariadic()) J.attribute("variadic", true);
    J.attributeArray("pt", [&] { for (auto *P : F->parameters()) J.value(typeId(P->getType())); });
  }

  const Expr *strip(const Expr *E) {
    while (E) {
      if (auto *X = dyn_cast<ParenExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<ExprWithCleanups>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<ConstantExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) { E = X->getExpr(); continue; }
      if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) { E = X->getExpr(); continue; }
      break;
    }
    return E;
  }

  void exprAttr(const char *N, const Expr *E) {
    J.attributeBegin(N); expr(E); J.attributeEnd();
  }
  void args(const char *N, llvm::iterator_range<CallExpr::const_arg_iterator> R) {
    J.attributeArray(N, [&] { for (auto *A : R) expr(A); });
  }

  void expr(const Expr *E0) {
    const Expr *E = strip(E0);
    if (!E) { J.value(nullptr); return; }
    J.objectBegin();
    J.attribute("t", typeId(E->getType()));
    loc(E->getExprLoc());
    exprBody(E);
    J.objectEnd();
  }

  void exprBody(const Expr *E) {
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      J.attribute("k", "int"); llvm::SmallString<32> S; X->getValue().toString(S, 10, E->getType()->isSignedIntegerOrEnumerationType());
      J.attribute("v", S.str());
    } else if (auto *X = dyn_cast<CharacterLiteral>(E)) {
      J.attribute("k", "int"); J.attribute("v", std::to_string(X->getValue()));
    } else if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      J.attribute("k", "int"); J.attribute("v", X->getValue() ? "1" : "0");
    } else if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      J.attribute("k", "float"); llvm::SmallString<32> S; X->getValue().toString(S); J.attribute("v", S.str());
    } else if (auto *X = dyn_cast<StringLiteral>(E)) {
      J.attribute("k", "str"); J.attribute("v", llvm::json::fixUTF8(X->getCharByteWidth() == 1 ? X->getString() : StringRef("?")));
    } else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      J.attribute("k", "null");
    } else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) {
      J.attribute("k", "tparm");
      J.attribute("name", X->getParameter()->getNameAsString());
      exprAttr("e", X->getReplacement());
    } else if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { J.attribute("k", "fn"); fnRef(F); }
      else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        J.attribute("k", "int"); llvm::SmallString<32> S; EC->getInitVal().toString(S, 10); J.attribute("v", S.str()); J.attribute("enum", EC->getNameAsString());
      } else { J.attribute("k", "var"); varRef(D);
        // class scope static const etc
      }
    } else if (auto *X = dyn_cast<CXXThisExpr>(E)) {
      (void)X; J.attribute("k", "this");
    } else if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { J.attribute("k", "memfn"); fnRef(F); J.attribute("arrow", X->isArrow()); exprAttr("b", X->getBase()); }
      else if (auto *V = dyn_cast<VarDecl>(D)) { J.attribute("k", "var"); varRef(V); }
      else {
        J.attribute("k", "mem"); J.attribute("f", D->getNameAsString());
        if (auto *FD = dyn_cast<FieldDecl>(D)) { noteRecord(FD->getParent()); J.attribute("rec", FD->getParent()->getQualifiedNameAsString()); }
        J.attribute("arrow", X->isArrow()); exprAttr("b", X->getBase());
      }
    } else if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      J.attribute("k", "idx"); exprAttr("b", X->getBase()); exprAttr("i", X->getIdx());
    } else if (auto *X = dyn_cast<UnaryOperator>(E)) {
      J.attribute("k", "un"); J.attribute("op", UnaryOperator::getOpcodeStr(X->getOpcode())); 
      J.attribute("post", X->isPostfix()); exprAttr("e", X->getSubExpr());
    } else if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      J.attribute("k", "casg"); J.attribute("op", BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(X->getOpcode())));
      J.attribute("ct", typeId(X->getComputationResultType()));
      exprAttr("a", X->getLHS()); exprAttr("b", X->getRHS());
    } else if (auto *X = dyn_cast<BinaryOperator>(E)) {
      if (X->getOpcode() == BO_Assign) { J.attribute("k", "asg"); }
      else { J.attribute("k", "bin"); J.attribute("op", X->getOpcodeStr()); }
      exprAttr("a", X->getLHS()); exprAttr("b", X->getRHS());
    } else if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      J.attribute("k", "cond"); exprAttr("c", X->getCond()); exprAttr("a", X->getTrueExpr()); exprAttr("b", X->getFalseExpr());
    } else if (auto *X = dyn_cast<BinaryConditionalOperator>(E)) {
      J.attribute("k", "cond"); exprAttr("c", X->getCommon()); exprAttr("a", X->getCommon()); exprAttr("b", X->getFalseExpr());
    } else if (auto *X = dyn_cast<CastExpr>(E)) {
      J.attribute("k", "cast"); J.attribute("ck", X->getCastKindName()); J.attribute("impl", isa<ImplicitCastExpr>(X)); exprAttr("e", X->getSubExpr());
    } else if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      J.attribute("k", "call"); exprAttr("fn", X->getCallee()); args("args", X->arguments());
    } else if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      J.attribute("k", "call"); J.attribute("opcall", getOperatorSpelling(X->getOperator())); exprAttr("fn", X->getCallee());
      if (auto *MD = dyn_cast_or_null<CXXMethodDecl>(X->getDirectCallee())) if (!MD->isStatic()) J.attribute("opmeth", true);
      args("args", X->arguments());
    } else if (auto *X = dyn_cast<CallExpr>(E)) {
      J.attribute("k", "call"); exprAttr("fn", X->getCallee()); args("args", X->arguments());
    } else if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      J.attribute("k", "new"); J.attribute("arr", X->isArray());
      J.attribute("at", typeId(X->getAllocatedType()));
      if (X->isArray() && X->getArraySize()) exprAttr("n", *X->getArraySize());
      if (X->getInitializer()) exprAttr("init", X->getInitializer());
      if (X->getNumPlacementArgs()) J.attributeArray("place", [&] { for (unsigned i = 0; i < X->getNumPlacementArgs(); ++i) expr(X->getPlacementArg(i)); });
    } else if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      J.attribute("k", "delete"); J.attribute("arr", X->isArrayForm()); exprAttr("e", X->getArgument());
      if (auto *R = X->getDestroyedType().isNull() ? nullptr : X->getDestroyedType()->getAsCXXRecordDecl()) {
        if (R->hasDefinition() && R->getDestructor() && !R->hasTrivialDestructor()) { J.attribute("dtor", mangled(R->getDestructor())); }
      }
    } else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      J.attribute("k", "ctor"); J.attribute("name", X->getConstructor()->getQualifiedNameAsString());
      J.attribute("m", mangled(X->getConstructor()));
      J.attribute("copy", X->getConstructor()->isCopyOrMoveConstructor());
      noteRecord(X->getConstructor()->getParent());
      J.attributeArray("pt", [&] { for (auto *P : X->getConstructor()->parameters()) J.value(typeId(P->getType())); });
      args("args", llvm::make_range(X->arg_begin(), X->arg_end()));
    } else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      J.attribute("k", "sizeof");
      QualType T = X->getTypeOfArgument(); J.attribute("at", typeId(T));
      Expr::EvalResult R;
      if (X->EvaluateAsInt(R, C)) J.attribute("v", std::to_string(R.Val.getInt().getExtValue()));
    } else if (auto *X = dyn_cast<InitListExpr>(E)) {
      J.attribute("k", "ilist"); J.attributeArray("e", [&] { for (auto *I : X->inits()) expr(I); });
    } else if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {
      J.attribute("k", "int"); J.attribute("v", "0"); J.attribute("zeroinit", true);
    } else if (auto *X = dyn_cast<StmtExpr>(E)) {
      J.attribute("k", "stmtexpr"); J.attributeBegin("s"); stmt(X->getSubStmt()); J.attributeEnd();
    } else if (auto *X = dyn_cast<LambdaExpr>(E)) {
      J.attribute("k", "lambda"); J.attributeBegin("s"); stmt(X->getBody()); J.attributeEnd();
      J.attribute("m", mangled(X->getCallOperator()));
    } else if (auto *X = dyn_cast<PredefinedExpr>(E)) {
      (void)X; J.attribute("k", "str"); J.attribute("v", "__func__");
    } else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) {
      J.attribute("k", "other"); J.attribute("cls", "init_list"); J.attributeArray("sub", [&] { expr(X->getSubExpr()); });
    } else {
      J.attribute("k", "other"); J.attribute("cls", E->getStmtClassName());
      J.attributeArray("sub", [&] { for (auto *S : E->children()) if (auto *SE = dyn_cast_or_null<Expr>(S)) expr(SE); });
    }
  }

  void varDecl(const VarDecl *V) {
    J.object([&] {
      varRef(V);
      J.attribute("t", typeId(V->getType()));
      loc(V->getLocation());
      if (V->getType()->isVariableArrayType() || (V->getType()->isArrayType() && V->getType()->isVariablyModifiedType()))
        J.attributeArray("vn", [&] {
          for (const ArrayType *A = V->getType()->getAsArrayTypeUnsafe(); A; A = A->getElementType()->getAsArrayTypeUnsafe()) {
            if (auto *C = dyn_cast<ConstantArrayType>(A)) J.value((int64_t)C->getSize().getZExtValue());
            else if (auto *X = dyn_cast<VariableArrayType>(A)) { if (X->getSizeExpr()) expr(X->getSizeExpr()); else J.value(nullptr); }
          }
        });
      if (V->hasInit()) { exprAttr("init", V->getInit()); if (V->getInitStyle() != VarDecl::CInit) J.attribute("dinit", true); }
      if (auto *R = V->getType()->getAsCXXRecordDecl()) {
        noteRecord(R);
        if (R->hasDefinition() && !R->hasTrivialDestructor() && R->getDestructor() && !V->hasGlobalStorage()) J.attribute("dtor", mangled(R->getDestructor()));
      }
    });
  }

  void stmtAttr(const char *N, const Stmt *S) { J.attributeBegin(N); stmt(S); J.attributeEnd(); }

  template <class T> void clauseVars(const T *X) {
    J.attributeArray("vars", [&] { for (auto *E : X->varlists()) expr(E); });
  }

  void stmt(const Stmt *S) {
    if (!S) { J.value(nullptr); return; }
    if (auto *E = dyn_cast<Expr>(S)) {
      J.objectBegin(); J.attribute("k", "expr"); loc(E->getBeginLoc()); exprAttr("e", E);
      J.objectEnd(); return;
    }
    J.objectBegin();
    loc(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      J.attribute("k", "block"); J.attributeArray("s", [&] { for (auto *I : X->body()) stmt(I); });
      { SourceLocation E = SM.getExpansionLoc(X->getRBracLoc()); J.attribute("end", (int64_t)SM.getPresumedLineNumber(E)); }
    } else if (auto *X = dyn_cast<IfStmt>(S)) {
      J.attribute("k", "if"); if (X->getInit()) stmtAttr("init", X->getInit());
      if (X->getConditionVariableDeclStmt()) stmtAttr("cv", X->getConditionVariableDeclStmt());
      exprAttr("c", X->getCond()); stmtAttr("a", X->getThen()); stmtAttr("b", X->getElse());
    } else if (auto *X = dyn_cast<ForStmt>(S)) {
      J.attribute("k", "for"); stmtAttr("init", X->getInit()); exprAttr("c", X->getCond()); exprAttr("inc", X->getInc()); stmtAttr("body", X->getBody());
    } else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      J.attribute("k", "rfor"); stmtAttr("range", X->getRangeStmt()); stmtAttr("begin", X->getBeginStmt()); stmtAttr("endst", X->getEndStmt());
      exprAttr("c", X->getCond()); exprAttr("inc", X->getInc()); stmtAttr("var", X->getLoopVarStmt()); stmtAttr("body", X->getBody());
    } else if (auto *X = dyn_cast<WhileStmt>(S)) {
      J.attribute("k", "while"); if (X->getConditionVariableDeclStmt()) stmtAttr("cv", X->getConditionVariableDeclStmt());
      exprAttr("c", X->getCond()); stmtAttr("body", X->getBody());
    } else if (auto *X = dyn_cast<DoStmt>(S)) {
      J.attribute("k", "do"); exprAttr("c", X->getCond()); stmtAttr("body", X->getBody());
    } else if (auto *X = dyn_cast<ReturnStmt>(S)) {
      J.attribute("k", "return"); if (X->getRetValue()) exprAttr("e", X->getRetValue());
    } else if (isa<BreakStmt>(S)) J.attribute("k", "break");
    else if (isa<ContinueStmt>(S)) J.attribute("k", "continue");
    else if (auto *X = dyn_cast<DeclStmt>(S)) {
      J.attribute("k", "decl"); J.attributeArray("vars", [&] { for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) varDecl(V); });
    } else if (auto *X = dyn_cast<SwitchStmt>(S)) {
      J.attribute("k", "switch"); exprAttr("c", X->getCond()); stmtAttr("body", X->getBody());
    } else if (auto *X = dyn_cast<CaseStmt>(S)) {
      J.attribute("k", "case"); exprAttr("v", X->getLHS()); stmtAttr("s", X->getSubStmt());
    } else if (auto *X = dyn_cast<DefaultStmt>(S)) {
      J.attribute("k", "default"); stmtAttr("s", X->getSubStmt());
    } else if (isa<NullStmt>(S)) J.attribute("k", "null");
    else if (auto *X = dyn_cast<LabelStmt>(S)) { J.attribute("k", "label"); J.attribute("name", X->getName()); stmtAttr("s", X->getSubStmt()); }
    else if (auto *X = dyn_cast<GotoStmt>(S)) { J.attribute("k", "goto"); J.attribute("name", X->getLabel()->getNameAsString()); }
    else if (auto *X = dyn_cast<AttributedStmt>(S)) { J.attribute("k", "block"); J.attributeArray("s", [&] { stmt(X->getSubStmt()); }); }
    else if (auto *X = dyn_cast<GCCAsmStmt>(S)) { J.attribute("k", "asm"); J.attribute("str", X->getAsmString()->getString());
      J.attributeArray("clob", [&] { for (unsigned i = 0; i < X->getNumClobbers(); ++i) J.value(X->getClobber(i)); });
      J.attributeArray("out", [&] { for (auto *O : X->outputs()) expr(O); }); J.attributeArray("in", [&] { for (auto *O : X->inputs()) expr(O); }); }
    else if (auto *X = dyn_cast<CXXTryStmt>(S)) { J.attribute("k", "try"); stmtAttr("s", X->getTryBlock()); J.attributeArray("h", [&] { for (unsigned i = 0; i < X->getNumHandlers(); ++i) stmt(X->getHandler(i)->getHandlerBlock()); }); }
    else if (auto *X = dyn_cast<OMPExecutableDirective>(S)) {
      J.attribute("k", "omp");
      J.attribute("d", llvm::omp::getOpenMPDirectiveName(X->getDirectiveKind()));
      J.attributeArray("clauses", [&] {
        for (auto *Cl : X->clauses()) J.object([&] {
          J.attribute("c", llvm::omp::getOpenMPClauseName(Cl->getClauseKind()));
          if (Cl->isImplicit()) J.attribute("implicit", true);
          if (auto *K = dyn_cast<OMPPrivateClause>(Cl)) clauseVars(K);
          else if (auto *K = dyn_cast<OMPFirstprivateClause>(Cl)) clauseVars(K);
          else if (auto *K = dyn_cast<OMPLastprivateClause>(Cl)) clauseVars(K);
          else if (auto *K = dyn_cast<OMPSharedClause>(Cl)) clauseVars(K);
          else if (auto *K = dyn_cast<OMPReductionClause>(Cl)) { clauseVars(K); J.attribute("op", K->getNameInfo().getAsString()); }
          else if (auto *K = dyn_cast<OMPIfClause>(Cl)) exprAttr("e", K->getCondition());
          else if (auto *K = dyn_cast<OMPNumThreadsClause>(Cl)) exprAttr("e", K->getNumThreads());
          else if (auto *K = dyn_cast<OMPCollapseClause>(Cl)) exprAttr("e", K->getNumForLoops());
          else if (auto *K = dyn_cast<OMPScheduleClause>(Cl)) J.attribute("sched", (int64_t)K->getScheduleKind());
        });
      });
      if (X->hasAssociatedStmt()) stmtAttr("body", X->getRawStmt());
    } else if (auto *X = dyn_cast<CapturedStmt>(S)) {
      J.attribute("k", "block"); J.attributeArray("s", [&] { stmt(X->getCapturedStmt()); });
    } else {
      J.attribute("k", "other"); J.attribute("cls", S->getStmtClassName());
      J.attributeArray("sub", [&] { for (auto *K : S->children()) stmt(K); });
    }
    J.objectEnd();
  }

  void function(const FunctionDecl *F) {
    J.object([&] {
      fnRef(F);
      loc(F->getLocation());
      J.attribute("endl", (int64_t)SM.getPresumedLineNumber(SM.getExpansionLoc(F->getEndLoc())));
      J.attribute("rt", typeId(F->getReturnType()));
      {
        const FunctionDecl *First = F->getFirstDecl();
        if (auto *Pat = F->getTemplateInstantiationPattern()) First = Pat->getFirstDecl();
        std::string DF = fileOf(First->getLocation());
        if (StringRef(DF).starts_with(Root)) DF = DF.substr(Root.size());
        J.attribute("declfile", DF);
      }
      J.attribute("linkage", F->getFormalLinkage() == Linkage::External ? "ext" : "int");
      if (F->isImplicit() || F->isDefaulted()) J.attribute("implicit", true);
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
        J.attribute("rec", M->getParent()->getQualifiedNameAsString()); noteRecord(M->getParent());
        J.attribute("access", M->getAccess() == AS_public ? "public" : "private");
        if (isa<CXXConstructorDecl>(M)) J.attribute("isctor", true);
        if (auto *CD = dyn_cast<CXXConstructorDecl>(M)) if (CD->isCopyConstructor()) J.attribute("copyctor", true);
        if (isa<CXXDestructorDecl>(M)) J.attribute("isdtor", true);
      }
      if (auto *TA = F->getTemplateSpecializationArgs()) {
        std::string S; llvm::raw_string_ostream OS(S);
        for (unsigned i = 0; i < TA->size(); ++i) { if (i) OS << ","; TA->get(i).print(C.getPrintingPolicy(), OS, true); }
        J.attribute("targs", OS.str());
        if (auto *P = F->getPrimaryTemplate()) J.attribute("tmpl", P->getQualifiedNameAsString());
      }
      J.attributeArray("params", [&] { for (auto *P : F->parameters()) varDecl(P); });
      if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
        J.attributeArray("inits", [&] {
          for (auto *I : CD->inits()) J.object([&] {
            if (I->isAnyMemberInitializer()) J.attribute("f", I->getAnyMember()->getNameAsString());
            else if (I->isBaseInitializer()) J.attribute("base", true);
            else J.attribute("deleg", true);
            J.attribute("written", I->isWritten());
            exprAttr("e", I->getInit());
          });
        });
      }
      stmtAttr("body", F->getBody());
    });
  }

  void run(TranslationUnitDecl *TU) {
    TraverseDecl(TU);
    J.objectBegin();
    J.attributeArray("functions", [&] { for (size_t i = 0; i < Funcs.size(); ++i) function(Funcs[i]); });
    J.attributeArray("globals", [&] { for (auto *V : Globals) varDecl(V); });
    J.attributeArray("records", [&] {
      for (size_t i = 0; i < RecordOrder.size(); ++i) {
        const RecordDecl *R = RecordOrder[i];
        J.object([&] {
          J.attribute("name", R->getQualifiedNameAsString());
          loc(R->getLocation());
          if (R->isUnion()) J.attribute("union", true);
          if (auto *CR = dyn_cast<CXXRecordDecl>(R)) if (CR->hasDefinition()) {
            if (CR->hasUserDeclaredCopyConstructor()) J.attribute("ucopy", true);
            if (CR->hasUserDeclaredCopyAssignment()) J.attribute("uassign", true);
            if (CR->hasUserDeclaredDestructor()) J.attribute("udtor", true);
            for (auto *CC : CR->ctors()) if (CC->isCopyConstructor() && CC->isDefaulted() && !CC->isDeleted()) J.attribute("copydef", true);
            for (auto *M : CR->methods()) if (M->isCopyAssignmentOperator() && M->isDefaulted() && !M->isDeleted()) J.attribute("assigndef", true);
            if (inRoot(R->getLocation())) J.attributeArray("bases", [&] { for (auto &B : CR->bases()) J.value(B.getType().getCanonicalType().getAsString()); });
          }
          J.attributeArray("fields", [&] { if (R->getDefinition() && inRoot(R->getLocation())) for (auto *F : R->fields()) J.object([&] { J.attribute("name", F->getNameAsString()); J.attribute("t", typeId(F->getType())); loc(F->getLocation()); }); });
        });
      }
    });
    J.attributeArray("types", [&] {
      for (size_t i = 0; i < TypeQueue.size(); ++i) {
        int id = TypeQueue[i].first; QualType T = TypeQueue[i].second;
        J.object([&] {
          J.attribute("id", id); J.attribute("s", T.getAsString());
          if (T.isVolatileQualified()) J.attribute("vol", true);
          if (T.isConstQualified()) J.attribute("const", true);
          const Type *P = T.getTypePtr();
          if (P->isReferenceType()) { J.attribute("k", "ref"); J.attribute("p", typeId(P->getPointeeType())); }
          else if (P->isPointerType()) { J.attribute("k", "ptr"); J.attribute("p", typeId(P->getPointeeType())); }
          else if (P->isConstantArrayType()) { J.attribute("k", "array"); auto *A = C.getAsConstantArrayType(T); J.attribute("p", typeId(A->getElementType())); J.attribute("n", (int64_t)A->getSize().getZExtValue()); }
          else if (P->isArrayType()) { J.attribute("k", "array"); J.attribute("p", typeId(C.getAsArrayType(T)->getElementType())); }
          else if (P->isBooleanType()) J.attribute("k", "bool");
          else if (P->isIntegralOrEnumerationType()) { J.attribute("k", "int"); J.attribute("signed", P->isSignedIntegerOrEnumerationType()); if (!P->isIncompleteType()) J.attribute("w", (int64_t)C.getTypeSize(T)); }
          else if (!P->isPlaceholderType() && P->isFloatingType()) { J.attribute("k", "float"); J.attribute("w", (int64_t)C.getTypeSize(T)); }
          else if (P->isRecordType()) { J.attribute("k", "rec"); J.attribute("rec", P->getAsRecordDecl()->getQualifiedNameAsString()); }
          else if (P->isVoidType()) J.attribute("k", "void");
          else if (P->isFunctionType()) J.attribute("k", "func");
          else J.attribute("k", "other");
          if (!P->isIncompleteType() && !P->isDependentType() && !P->isPlaceholderType() && (P->isScalarType() || P->isConstantArrayType() || (P->isRecordType() && P->getAsRecordDecl()->getDefinition()))) J.attribute("size", (int64_t)C.getTypeSizeInChars(T).getQuantity());
        });
      }
    });
    J.objectEnd();
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    // implicit copy operations that are used get bodies; force nothing else.
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutFile, EC);
    OStream J(OS);
    Dumper D(C, J);
    D.run(C.getTranslationUnitDecl());
  }
};
class Action : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};
} // namespace

int main(int argc, char **argv) {
  // astdump ROOT OUT SOURCE -- flags
  if (argc < 5) { llvm::errs() << "usage: astdump ROOT OUT SRC -- FLAGS\n"; return 2; }
  Root = argv[1]; OutFile = argv[2]; std::string Src = argv[3];
  std::vector<std::string> Flags(argv + 5, argv + argc);
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool Tool(DB, {Src});
  Tool.clearArgumentsAdjusters();
  Tool.appendArgumentsAdjuster(tooling::getClangSyntaxOnlyAdjuster());
  auto F = tooling::newFrontendActionFactory<Action>();
  return Tool.run(F.get());
}
