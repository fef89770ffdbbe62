// extract: parse one translation unit with clang and write, as JSON, every
// function whose definition lies under ROOT: its resolved syntax tree and its
// control-flow graph (the rules in /verif/rules work on that, never on text).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/Expr.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Lex/Lexer.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
using llvm::json::OStream;

static std::string Root;
static std::string OutPath;

namespace {

class Dumper {
 public:
  Dumper(ASTContext &C, OStream &J) : C(C), J(J), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.TerseOutput = true;
    Mangler.reset(C.createMangleContext());
  }
  ASTContext &C;
  OStream &J;
  SourceManager &SM;
  PrintingPolicy PP;
  std::unique_ptr<MangleContext> Mangler;
  std::map<const void *, int> DeclIds;
  std::map<const Stmt *, int> StmtIds;
  int NextStmt = 0;

  int declId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = DeclIds.find(D);
    if (it != DeclIds.end()) return it->second;
    int n = DeclIds.size() + 1;
    DeclIds[D] = n;
    return n;
  }
  std::string qname(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os);
    return os.str();
  }
  std::string mangled(const FunctionDecl *F) {
    if (F->isDependentContext()) return "";
    if (isa<CXXConstructorDecl>(F) || isa<CXXDestructorDecl>(F)) {
      std::string s;
      llvm::raw_string_ostream os(s);
      if (auto *CD = dyn_cast<CXXConstructorDecl>(F))
        Mangler->mangleName(GlobalDecl(CD, Ctor_Complete), os);
      else
        Mangler->mangleName(GlobalDecl(cast<CXXDestructorDecl>(F), Dtor_Complete), os);
      return os.str();
    }
    if (!Mangler->shouldMangleDeclName(F)) return F->getNameAsString();
    std::string s;
    llvm::raw_string_ostream os(s);
    Mangler->mangleName(GlobalDecl(F), os);
    return os.str();
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string tyw(QualType T) {  // as written
    if (T.isNull()) return "";
    PrintingPolicy P2 = PP;
    P2.PrintCanonicalTypes = false;
    return T.getAsString(P2);
  }
  std::string file(SourceLocation L) {
    if (L.isInvalid()) return "";
    L = SM.getExpansionLoc(L);
    auto FE = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!FE) return "";
    llvm::StringRef p = FE->getFileEntry().tryGetRealPathName();
    return p.str();
  }
  unsigned line(SourceLocation L) {
    if (L.isInvalid()) return 0;
    return SM.getExpansionLineNumber(L);
  }
  bool inRoot(SourceLocation L) {
    std::string f = file(L);
    return f.size() > Root.size() && f.compare(0, Root.size(), Root) == 0;
  }

  void intInfo(QualType T) {
    if (T.isNull() || T->isDependentType()) return;
    if (T->isIntegralOrEnumerationType() && !T->isIncompleteType()) {
      J.attribute("w", (int64_t)C.getIntWidth(T));
      J.attribute("u", T->isUnsignedIntegerOrEnumerationType());
    }
  }

  void declRef(const ValueDecl *D) {
    J.attributeBegin("r");
    J.objectBegin();
    J.attribute("d", declId(D));
    J.attribute("n", qname(D));
    if (auto *V = dyn_cast<VarDecl>(D)) {
      J.attribute("k", isa<ParmVarDecl>(V) ? "parm" : "var");
      if (!isa<ParmVarDecl>(V)) {
        if (V->isStaticLocal()) J.attribute("s", "static_local");
        else if (V->hasGlobalStorage()) J.attribute("s", "global");
        else J.attribute("s", "local");
      }
      QualType T = V->getType();
      J.attribute("const", T.getNonReferenceType().isConstQualified());
      J.attribute("isref", T->isReferenceType());
    } else if (auto *F = dyn_cast<FunctionDecl>(D)) {
      J.attribute("k", "func");
      J.attribute("mg", mangled(F));
    } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
      J.attribute("k", "enum");
      llvm::SmallString<32> s; EC->getInitVal().toString(s, 10);
      J.attribute("v", s.str());
    } else if (isa<FieldDecl>(D)) {
      J.attribute("k", "field");
    } else {
      J.attribute("k", D->getDeclKindName());
    }
    J.objectEnd();
    J.attributeEnd();
  }

  void calleeAttr(const FunctionDecl *F) {
    J.attribute("fn", qname(F));
    J.attribute("mg", mangled(F));
    J.attribute("fd", declId(F));
    if (auto *P = F->getType()->getAs<FunctionProtoType>())
      if (!isUnresolvedExceptionSpec(P->getExceptionSpecType()))
        J.attribute("nothrow", P->isNothrow());
    if (F->isNoReturn()) J.attribute("noreturn", true);
    bool repo = false;
    const FunctionDecl *Def = nullptr;
    if (F->isDefined(Def) && Def) repo = inRoot(Def->getLocation());
    else repo = inRoot(F->getLocation());
    J.attribute("repo", repo);
    J.attributeArray("pt", [&] {
      for (auto *P : F->parameters()) J.value(ty(P->getType()));
    });
    J.attributeArray("pn", [&] {
      for (auto *P : F->parameters()) J.value(P->getNameAsString());
    });
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      J.attribute("cls", qname(M->getParent()));
      J.attribute("mconst", M->isConst());
      J.attribute("mstatic", M->isStatic());
      J.attribute("virt", M->isVirtual());
    }
  }

  void varDecl(const VarDecl *V) {
    J.objectBegin();
    J.attribute("k", "VarDecl");
    J.attribute("i", NextStmt++);
    J.attribute("d", declId(V));
    J.attribute("n", V->getNameAsString());
    J.attribute("l", line(V->getLocation()));
    J.attribute("ty", ty(V->getType()));
    J.attribute("tyw", tyw(V->getType()));
    intInfo(V->getType());
    if (V->isStaticLocal()) J.attribute("static", true);
    J.attribute("const", V->getType().isConstQualified());
    J.attribute("isref", V->getType()->isReferenceType());
    if (auto *A = C.getAsConstantArrayType(V->getType()))
      J.attribute("asize", (int64_t)A->getSize().getZExtValue());
    J.attributeBegin("c");
    J.arrayBegin();
    if (V->getInit()) stmt(V->getInit());
    J.arrayEnd();
    J.attributeEnd();
    J.objectEnd();
  }

  void stmt(const Stmt *S) {
    if (!S) { J.value(nullptr); return; }
    int id = NextStmt++;
    StmtIds[S] = id;
    J.objectBegin();
    J.attribute("k", S->getStmtClassName());
    J.attribute("i", id);
    J.attribute("l", line(S->getBeginLoc()));
    if (S->getBeginLoc().isMacroID()) {
      J.attribute("mac", Lexer::getImmediateMacroName(S->getBeginLoc(), SM, C.getLangOpts()));
      // outermost macro
      SourceLocation L = S->getBeginLoc();
      while (L.isMacroID()) {
        SourceLocation N = SM.getImmediateMacroCallerLoc(L);
        if (!N.isMacroID()) break;
        L = N;
      }
      if (L.isMacroID())
        J.attribute("omac", Lexer::getImmediateMacroName(L, SM, C.getLangOpts()));
    }
    bool childrenDone = false;
    if (auto *E = dyn_cast<Expr>(S)) {
      J.attribute("ty", ty(E->getType()));
      intInfo(E->getType());
      if (E->isLValue()) J.attribute("lv", true);
      if (!E->getType().isNull() && !E->isValueDependent() && !E->isTypeDependent() && E->getType()->isIntegralOrEnumerationType()) {
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
          llvm::SmallString<40> s;
          R.Val.getInt().toString(s, 10);
          J.attribute("cv", s.str());
        }
      }
    }
    if (auto *D = dyn_cast<DeclRefExpr>(S)) {
      declRef(D->getDecl());
    } else if (auto *M = dyn_cast<MemberExpr>(S)) {
      J.attribute("arrow", M->isArrow());
      J.attribute("m", M->getMemberDecl()->getNameAsString());
      declRef(M->getMemberDecl());
      if (auto *F = dyn_cast<FieldDecl>(M->getMemberDecl()))
        J.attribute("cls", qname(cast<RecordDecl>(F->getParent())));
    } else if (auto *CE = dyn_cast<CallExpr>(S)) {
      if (const FunctionDecl *F = CE->getDirectCallee()) calleeAttr(F);
      if (auto *O = dyn_cast<CXXOperatorCallExpr>(S))
        J.attribute("op", getOperatorSpelling(O->getOperator()));
      J.attribute("nargs", (int64_t)CE->getNumArgs());
    } else if (auto *CC = dyn_cast<CXXConstructExpr>(S)) {
      calleeAttr(CC->getConstructor());
      J.attribute("elide", CC->isElidable());
      J.attribute("copy", CC->getConstructor()->isCopyConstructor());
      J.attribute("move", CC->getConstructor()->isMoveConstructor());
      J.attribute("list", CC->isListInitialization());
    } else if (auto *K = dyn_cast<CastExpr>(S)) {
      J.attribute("ck", K->getCastKindName());
      J.attribute("imp", isa<ImplicitCastExpr>(K));
      if (auto *EX = dyn_cast<ExplicitCastExpr>(K)) J.attribute("tyw", tyw(EX->getTypeAsWritten()));
    } else if (auto *L = dyn_cast<IntegerLiteral>(S)) {
      llvm::SmallString<40> s; L->getValue().toString(s, 10, L->getType()->isSignedIntegerType());
      J.attribute("v", s.str());
    } else if (auto *L = dyn_cast<FloatingLiteral>(S)) {
      J.attribute("v", L->getValueAsApproximateDouble());
    } else if (auto *L = dyn_cast<StringLiteral>(S)) {
      if (L->getCharByteWidth() == 1) {
        std::string b = L->getBytes().str();
        J.attribute("v", llvm::json::fixUTF8(b));
      }
    } else if (auto *L = dyn_cast<CharacterLiteral>(S)) {
      J.attribute("v", (int64_t)L->getValue());
    } else if (auto *L = dyn_cast<CXXBoolLiteralExpr>(S)) {
      J.attribute("v", L->getValue());
    } else if (auto *U = dyn_cast<UnaryOperator>(S)) {
      J.attribute("op", UnaryOperator::getOpcodeStr(U->getOpcode()));
      J.attribute("post", U->isPostfix());
    } else if (auto *B = dyn_cast<BinaryOperator>(S)) {
      J.attribute("op", B->getOpcodeStr());
    } else if (auto *T = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
      J.attribute("trait", (int64_t)T->getKind());
    } else if (auto *N = dyn_cast<CXXNewExpr>(S)) {
      J.attribute("nty", ty(N->getAllocatedType()));
    } else if (auto *D = dyn_cast<CXXDeleteExpr>(S)) {
      J.attribute("dty", ty(D->getDestroyedType()));
    } else if (auto *G = dyn_cast<GotoStmt>(S)) {
      J.attribute("label", G->getLabel()->getNameAsString());
    } else if (auto *L = dyn_cast<LabelStmt>(S)) {
      J.attribute("label", L->getName());
    } else if (auto *CS = dyn_cast<CXXCatchStmt>(S)) {
      J.attribute("cty", CS->getExceptionDecl() ? ty(CS->getCaughtType()) : std::string("..."));
      if (CS->getExceptionDecl()) J.attribute("d", declId(CS->getExceptionDecl()));
    } else if (auto *DS = dyn_cast<DeclStmt>(S)) {
      J.attributeBegin("c");
      J.arrayBegin();
      for (auto *D : DS->decls())
        if (auto *V = dyn_cast<VarDecl>(D)) varDecl(V);
      J.arrayEnd();
      J.attributeEnd();
      childrenDone = true;
    } else if (auto *RF = dyn_cast<CXXForRangeStmt>(S)) {
      J.attribute("var", declId(RF->getLoopVariable()));
      J.attribute("varn", RF->getLoopVariable()->getNameAsString());
    } else if (auto *DA = dyn_cast<CXXDefaultArgExpr>(S)) {
      J.attributeBegin("c");
      J.arrayBegin();
      stmt(DA->getExpr());
      J.arrayEnd();
      J.attributeEnd();
      childrenDone = true;
    } else if (auto *DI = dyn_cast<CXXDefaultInitExpr>(S)) {
      J.attributeBegin("c");
      J.arrayBegin();
      stmt(DI->getExpr());
      J.arrayEnd();
      J.attributeEnd();
      childrenDone = true;
    } else if (auto *OM = dyn_cast<OMPExecutableDirective>(S)) {
      J.attribute("omp", llvm::omp::getOpenMPDirectiveName(OM->getDirectiveKind()).str());
      J.attributeBegin("clauses");
      J.arrayBegin();
      for (auto *Cl : OM->clauses()) {
        J.objectBegin();
        J.attribute("k", llvm::omp::getOpenMPClauseName(Cl->getClauseKind()).str());
        J.attributeArray("vars", [&] {
          for (const Stmt *Ch : Cl->children())
            if (Ch) if (auto *DR = dyn_cast<DeclRefExpr>(Ch)) J.value(declId(DR->getDecl()));
        });
        J.objectEnd();
      }
      J.arrayEnd();
      J.attributeEnd();
      J.attributeBegin("c");
      J.arrayBegin();
      if (OM->hasAssociatedStmt()) stmt(OM->getRawStmt());
      J.arrayEnd();
      J.attributeEnd();
      childrenDone = true;
    } else if (auto *IS = dyn_cast<IfStmt>(S)) {
      // children before the condition (init statement, condition variable)
      J.attribute("pre", (int64_t)(IS->hasInitStorage() + IS->hasVarStorage()));
      J.attribute("else", IS->hasElseStorage());
    } else if (auto *WS = dyn_cast<WhileStmt>(S)) {
      J.attribute("pre", (int64_t)(WS->hasVarStorage()));
    } else if (auto *SS = dyn_cast<SwitchStmt>(S)) {
      J.attribute("pre", (int64_t)(SS->hasInitStorage() + SS->hasVarStorage()));
    } else if (auto *CS = dyn_cast<CaseStmt>(S)) {
      J.attribute("range", CS->caseStmtIsGNURange());
    } else if (auto *UL = dyn_cast<UnresolvedLookupExpr>(S)) {
      J.attribute("un", UL->getName().getAsString());
    } else if (auto *UM = dyn_cast<UnresolvedMemberExpr>(S)) {
      J.attribute("un", UM->getMemberName().getAsString());
    } else if (auto *DM = dyn_cast<CXXDependentScopeMemberExpr>(S)) {
      J.attribute("un", DM->getMember().getAsString());
    }
    if (auto *IL = dyn_cast<InitListExpr>(S)) {
      const InitListExpr *Sem = IL->isSemanticForm() ? IL : IL->getSemanticForm();
      if (!Sem) Sem = IL;
      if (!Sem->getType().isNull())
        if (auto *RT = Sem->getType()->getAs<RecordType>()) {
          J.attributeArray("fields", [&] {
            for (auto *F : RT->getDecl()->fields())
              if (!F->isUnnamedBitfield()) J.value(F->getNameAsString());
          });
        }
    }
    if (!childrenDone) {
      J.attributeBegin("c");
      J.arrayBegin();
      if (auto *IL = dyn_cast<InitListExpr>(S)) {
        const InitListExpr *Sem = IL->isSemanticForm() ? IL : IL->getSemanticForm();
        if (!Sem) Sem = IL;
        for (auto *I : Sem->inits()) stmt(I);
      } else if (auto *RF = dyn_cast<CXXForRangeStmt>(S)) {
        // init, range decl, begin, end, cond, inc, loop var, body
        for (const Stmt *Ch : RF->children()) stmt(Ch);
      } else {
        for (const Stmt *Ch : S->children()) stmt(Ch);
      }
      J.arrayEnd();
      J.attributeEnd();
    }
    J.objectEnd();
  }

  void cfg(const FunctionDecl *F) {
    CFG::BuildOptions BO;
    BO.setAllAlwaysAdd();
    BO.AddImplicitDtors = false;
    BO.AddInitializers = true;
    BO.AddEHEdges = false;
    BO.PruneTriviallyFalseEdges = false;
    std::unique_ptr<CFG> G = CFG::buildCFG(F, F->getBody(), &C, BO);
    if (!G) return;
    J.attributeBegin("cfg");
    J.objectBegin();
    J.attribute("entry", (int64_t)G->getEntry().getBlockID());
    J.attribute("exit", (int64_t)G->getExit().getBlockID());
    J.attributeBegin("b");
    J.arrayBegin();
    for (const CFGBlock *B : *G) {
      J.objectBegin();
      J.attribute("id", (int64_t)B->getBlockID());
      J.attributeArray("e", [&] {
        for (const CFGElement &E : *B) {
          if (auto CS = E.getAs<CFGStmt>()) {
            auto it = StmtIds.find(CS->getStmt());
            if (it != StmtIds.end()) J.value(it->second);
            else if (auto *DS = dyn_cast<DeclStmt>(CS->getStmt())) {
              // synthesised single-declaration DeclStmt
              J.objectBegin();
              J.attributeArray("decls", [&] { for (auto *D : DS->decls()) J.value(declId(D)); });
              J.objectEnd();
            }
          } else if (auto CI = E.getAs<CFGInitializer>()) {
            auto *I = CI->getInitializer();
            J.objectBegin();
            if (I->isAnyMemberInitializer()) J.attribute("init", I->getAnyMember()->getNameAsString());
            J.objectEnd();
          }
        }
      });
      J.attributeArray("s", [&] {
        for (auto I = B->succ_begin(); I != B->succ_end(); ++I) {
          const CFGBlock *SB = I->getReachableBlock();
          if (!SB) SB = I->getPossiblyUnreachableBlock();
          if (SB) J.value((int64_t)SB->getBlockID());
          else J.value(nullptr);
        }
      });
      if (const Stmt *T = B->getTerminatorStmt()) {
        J.attribute("t", T->getStmtClassName());
        auto it = StmtIds.find(T);
        if (it != StmtIds.end()) J.attribute("ti", it->second);
        if (auto *BO2 = dyn_cast<BinaryOperator>(T)) J.attribute("top", BO2->getOpcodeStr());
        const Stmt *Cond = B->getTerminatorCondition(false);
        if (Cond) {
          if (auto *E = dyn_cast<Expr>(Cond)) {
            // the value branched on is the last one computed: strip parens as CFG does
            auto it2 = StmtIds.find(E);
            if (it2 != StmtIds.end()) J.attribute("cond", it2->second);
          }
        }
      }
      if (const Stmt *L = B->getLabel()) {
        auto it = StmtIds.find(L);
        J.attribute("lab", L->getStmtClassName());
        if (it != StmtIds.end()) J.attribute("labi", it->second);
      }
      if (B->hasNoReturnElement()) J.attribute("nr", true);
      J.objectEnd();
    }
    J.arrayEnd();
    J.attributeEnd();
    J.objectEnd();
    J.attributeEnd();
  }

  void func(const FunctionDecl *F) {
    J.objectBegin();
    J.attribute("name", qname(F));
    J.attribute("mg", mangled(F));
    J.attribute("d", declId(F));
    J.attribute("file", file(F->getLocation()));
    J.attribute("line", line(F->getLocation()));
    J.attribute("eline", line(F->getSourceRange().getEnd()));
    J.attribute("ret", ty(F->getReturnType()));
    J.attribute("static", F->getStorageClass() == SC_Static);
    bool dep = F->isDependentContext();
    J.attribute("dep", dep);
    J.attribute("inst", F->isTemplateInstantiation());
    J.attribute("user", !F->isDefaulted());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      J.attribute("cls", qname(M->getParent()));
      J.attribute("clsty", ty(C.getRecordType(M->getParent())));
      J.attribute("mconst", M->isConst());
      J.attribute("mstatic", M->isStatic());
      J.attribute("virt", M->isVirtual());
      J.attribute("ctor", isa<CXXConstructorDecl>(M));
      J.attribute("dtor", isa<CXXDestructorDecl>(M));
    }
    J.attributeBegin("params");
    J.arrayBegin();
    for (auto *P : F->parameters()) {
      J.objectBegin();
      J.attribute("d", declId(P));
      J.attribute("n", P->getNameAsString());
      J.attribute("ty", ty(P->getType()));
      intInfo(P->getType());
      J.objectEnd();
    }
    J.arrayEnd();
    J.attributeEnd();
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      J.attributeBegin("inits");
      J.arrayBegin();
      for (auto *I : CD->inits()) {
        J.objectBegin();
        if (I->isAnyMemberInitializer()) {
          J.attribute("m", I->getAnyMember()->getNameAsString());
          J.attribute("d", declId(I->getAnyMember()));
        } else if (I->isBaseInitializer()) {
          J.attribute("base", ty(QualType(I->getBaseClass(), 0)));
        } else {
          J.attribute("deleg", true);
        }
        J.attribute("written", I->isWritten());
        J.attributeBegin("e");
        stmt(I->getInit());
        J.attributeEnd();
        J.objectEnd();
      }
      J.arrayEnd();
      J.attributeEnd();
    }
    J.attributeBegin("body");
    stmt(F->getBody());
    J.attributeEnd();
    if (!dep) cfg(F);
    J.objectEnd();
    StmtIds.clear();
    NextStmt = 0;
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  Visitor(ASTContext &C) : C(C) {}
  ASTContext &C;
  std::vector<const FunctionDecl *> Funcs;
  std::vector<const VarDecl *> Globals;
  std::vector<const CXXRecordDecl *> Records;
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->doesThisDeclarationHaveABody() && F->getBody()) Funcs.push_back(F);
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->hasGlobalStorage() && !V->isStaticLocal() && V->isThisDeclarationADefinition() != VarDecl::DeclarationOnly)
      Globals.push_back(V);
    else if (V->hasGlobalStorage() && V->isStaticLocal())
      Globals.push_back(V);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isCompleteDefinition() && !R->isLambda()) Records.push_back(R);
    return true;
  }
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;  // nothing is written: the driver fails
    Visitor V(C);
    V.TraverseDecl(C.getTranslationUnitDecl());
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutPath, EC);
    OStream J(OS);
    Dumper D(C, J);
    J.objectBegin();
    J.attribute("errors", (int64_t)C.getDiagnostics().hasErrorOccurred());
    J.attributeBegin("globals");
    J.arrayBegin();
    for (auto *G : V.Globals) {
      if (!D.inRoot(G->getLocation())) continue;
      if (G->getDeclContext()->isDependentContext()) continue;
      J.objectBegin();
      J.attribute("d", D.declId(G));
      J.attribute("n", D.qname(G));
      J.attribute("ty", D.ty(G->getType()));
      J.attribute("file", D.file(G->getLocation()));
      J.attribute("line", D.line(G->getLocation()));
      J.attribute("static_local", G->isStaticLocal());
      J.attribute("const", G->getType().isConstQualified() || C.getBaseElementType(G->getType()).isConstQualified());
      if (G->getInit() && !G->getInit()->isValueDependent()) {
        J.attributeBegin("init");
        D.stmt(G->getInit());
        J.attributeEnd();
      }
      J.objectEnd();
    }
    J.arrayEnd();
    J.attributeEnd();
    D.StmtIds.clear();
    D.NextStmt = 0;
    J.attributeBegin("records");
    J.arrayBegin();
    for (auto *R : V.Records) {
      if (!D.inRoot(R->getLocation())) continue;
      if (R->isDependentContext()) continue;
      J.objectBegin();
      J.attribute("n", D.qname(R));
      J.attribute("ty", D.ty(C.getRecordType(R)));
      J.attribute("file", D.file(R->getLocation()));
      J.attribute("line", D.line(R->getLocation()));
      J.attributeBegin("bases");
      J.arrayBegin();
      for (auto &B : R->bases()) J.value(D.ty(B.getType()));
      J.arrayEnd();
      J.attributeEnd();
      J.attributeBegin("fields");
      J.arrayBegin();
      for (auto *F : R->fields()) {
        J.objectBegin();
        J.attribute("n", F->getNameAsString());
        J.attribute("d", D.declId(F));
        J.attribute("ty", D.ty(F->getType()));
        if (F->isMutable()) J.attribute("mut", true);
        D.intInfo(F->getType());
        J.objectEnd();
      }
      J.arrayEnd();
      J.attributeEnd();
      J.objectEnd();
    }
    J.arrayEnd();
    J.attributeEnd();
    J.attributeBegin("funcs");
    J.arrayBegin();
    for (auto *F : V.Funcs) {
      if (!D.inRoot(F->getLocation())) continue;
      D.func(F);
    }
    J.arrayEnd();
    J.attributeEnd();
    J.objectEnd();
    OS << "\n";
  }
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override {
    return std::make_unique<Consumer>();
  }
};

}  // namespace

// usage: extract ROOT OUT SOURCE -- FLAGS...
int main(int argc, const char **argv) {
  if (argc < 5) { llvm::errs() << "usage: extract ROOT OUT SOURCE -- FLAGS\n"; return 2; }
  Root = argv[1];
  if (Root.back() != '/') Root += '/';
  OutPath = argv[2];
  std::string Src = argv[3];
  std::vector<std::string> Flags;
  for (int i = 5; i < argc; i++) Flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool Tool(DB, {Src});
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
