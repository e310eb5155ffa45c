// Source fact extractor: for every function defined in the project, dumps the
// clang CFG with serialised expression trees as JSON (one object per line).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Decl.h"
#include "clang/AST/Expr.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>

using namespace clang;
using llvm::json::OStream;

static std::string Root;      // project root
static std::string OutPath;

namespace {

struct FnDumper {
  ASTContext &Ctx;
  OStream &J;
  std::map<const Stmt *, int> Ids;
  std::map<const ValueDecl *, int> VarIds;
  std::map<const Stmt *, int> LogIds;   // short-circuit and conditional operators
  int logId(const Stmt *S) {
    auto It = LogIds.find(S);
    if (It != LogIds.end()) return It->second;
    int N = LogIds.size();
    return LogIds[S] = N;
  }
  const Stmt *Current = nullptr;
  int NextVar = 0;

  FnDumper(ASTContext &C, OStream &O) : Ctx(C), J(O) {}

  unsigned line(SourceLocation L) {
    return Ctx.getSourceManager().getExpansionLineNumber(L);
  }
  std::string ty(QualType T) {
    return T.getCanonicalType().getUnqualifiedType().getAsString();
  }
  std::string argTy(const Expr *A) {
    QualType T = A->getType();
    if (T->isPointerType()) {
      const Expr *U = A->IgnoreParenImpCasts();
      if (U->getType()->isPointerType()) T = U->getType();
      else if (U->isNullPointerConstant(Ctx, Expr::NPC_ValueDependentIsNull)) return "NULL";
    }
    return ty(T);
  }
  std::string record(QualType T) {
    if (T->isPointerType())
      T = T->getPointeeType();
    if (const RecordType *R = T->getAs<RecordType>())
      return R->getDecl()->getNameAsString();
    return "";
  }
  int varId(const ValueDecl *D) {
    auto It = VarIds.find(D);
    if (It != VarIds.end())
      return It->second;
    return VarIds[D] = NextVar++;
  }

  // strip parens, implicit casts, pointer casts and no-op casts
  const Expr *strip(const Expr *E) {
    while (true) {
      if (auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<ConstantExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *C = dyn_cast<CastExpr>(E)) {
        QualType F = C->getSubExpr()->getType(), T = C->getType();
        if (C->getCastKind() == CK_IntegralCast) {
          // keep explicit or narrowing integer casts
          if (Ctx.getTypeSize(F) > Ctx.getTypeSize(T) ||
              (F->isSignedIntegerOrEnumerationType() !=
                   T->isSignedIntegerOrEnumerationType()))
            return E;
        }
        if (C->getCastKind() == CK_ToVoid) { E = C->getSubExpr(); continue; }
        E = C->getSubExpr();
        continue;
      }
      if (auto *G = dyn_cast<GenericSelectionExpr>(E)) {
        if (!G->isResultDependent()) { E = G->getResultExpr(); continue; }
      }
      if (auto *U = dyn_cast<UnaryOperator>(E))
        if (U->getOpcode() == UO_Extension) { E = U->getSubExpr(); continue; }
      return E;
    }
  }

  void kid(const char *Key, const Expr *E) {
    J.attributeBegin(Key);
    expr(E);
    J.attributeEnd();
  }

  void expr(const Expr *E0) {
    if (!E0) { J.value(nullptr); return; }
    // constant folding (enum and flag constants, sizeof, ...)
    const Expr *E = strip(E0);
    // a sub-expression which is itself a CFG element: reference
    {
      // walk the stripping chain so that a cast recorded as an element is seen
      const Expr *W = E0;
      while (true) {
        auto It = Ids.find(W);
        if (It != Ids.end() && W != Current) {
          J.object([&] { J.attribute("k", "ref"); J.attribute("i", It->second); });
          return;
        }
        if (W == E) break;
        if (auto *P = dyn_cast<ParenExpr>(W)) W = P->getSubExpr();
        else if (auto *P = dyn_cast<ConstantExpr>(W)) W = P->getSubExpr();
        else if (auto *P = dyn_cast<CastExpr>(W)) W = P->getSubExpr();
        else if (auto *G = dyn_cast<GenericSelectionExpr>(W)) W = G->getResultExpr();
        else if (auto *U = dyn_cast<UnaryOperator>(W)) W = U->getSubExpr();
        else break;
      }
    }
    if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType() &&
        !E->HasSideEffects(Ctx)) {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, Ctx)) {
        J.object([&] {
          J.attribute("k", "int");
          llvm::APSInt V = R.Val.getInt();
          if (V.isSigned() || V.getActiveBits() < 64)
            J.attribute("v", V.getExtValue());
          else
            J.attribute("v", V.getZExtValue());
          if (auto *D = dyn_cast<DeclRefExpr>(E))
            J.attribute("n", D->getDecl()->getNameAsString());
          else if (E->getType()->isIntegralOrEnumerationType()) {
            std::string N = enumNames(E);
            if (!N.empty()) J.attribute("n", N);
          }
          if (isa<UnaryExprOrTypeTraitExpr>(E)) J.attribute("sz", 1);
        });
        return;
      }
    }
    J.object([&] { node(E); });
  }

  std::string enumNames(const Expr *E) {
    E = E->IgnoreParenCasts();
    if (auto *D = dyn_cast<DeclRefExpr>(E)) {
      if (isa<EnumConstantDecl>(D->getDecl())) return D->getDecl()->getNameAsString();
      return "";
    }
    if (auto *B = dyn_cast<BinaryOperator>(E)) {
      if (B->getOpcode() == BO_Or) {
        std::string L = enumNames(B->getLHS()), R = enumNames(B->getRHS());
        if (!L.empty() && !R.empty()) return L + "|" + R;
      }
    }
    return "";
  }

  void args(const CallExpr *C) {
    J.attributeArray("a", [&] {
      for (const Expr *A : C->arguments()) expr(A);
    });
  }

  void node(const Expr *E) {
    J.attribute("l", line(E->getBeginLoc()));
    if (auto *C = dyn_cast<CallExpr>(E)) {
      J.attribute("k", "call");
      J.attribute("l2", line(E->getEndLoc()));
      if (const FunctionDecl *FD = C->getDirectCallee()) {
        J.attribute("fn", FD->getNameAsString());
        if (FD->isNoReturn()) J.attribute("noret", 1);
      } else {
        kid("f", C->getCallee());
      }
      J.attribute("t", ty(C->getType()));
      args(C);
      // the types with which arguments reach a variadic callee, or one taking untyped pointers
      J.attributeArray("at", [&] {
        for (const Expr *A : C->arguments()) J.value(argTy(A));
      });
      // the parameters through which the callee only reads
      if (const FunctionDecl *FD = C->getDirectCallee())
        J.attributeArray("pc", [&] {
          for (const ParmVarDecl *PV : FD->parameters())
            J.value(PV->getType()->isPointerType() && PV->getType()->getPointeeType().isConstQualified() ? 1 : 0);
        });
      return;
    }
    if (auto *M = dyn_cast<MemberExpr>(E)) {
      J.attribute("k", "mem");
      J.attribute("f", M->getMemberDecl()->getNameAsString());
      J.attribute("rec", record(M->getBase()->getType()));
      J.attribute("arrow", M->isArrow() ? 1 : 0);
      J.attribute("t", ty(M->getType()));
      kid("b", M->getBase());
      return;
    }
    if (auto *D = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *V = D->getDecl();
      if (isa<FunctionDecl>(V)) {
        J.attribute("k", "fn");
        J.attribute("n", V->getNameAsString());
        return;
      }
      J.attribute("k", "var");
      J.attribute("n", V->getNameAsString());
      J.attribute("t", ty(V->getType()));
      if (auto *VD = dyn_cast<VarDecl>(V)) {
        if (VD->isLocalVarDeclOrParm() && !VD->isStaticLocal())
          J.attribute("id", varId(VD));
        else
          J.attribute("g", 1);
      }
      return;
    }
    if (auto *S = dyn_cast<StringLiteral>(E)) {
      J.attribute("k", "str");
      if (S->getCharByteWidth() == 1) {
        std::string B = S->getBytes().str();
        std::string O;
        for (unsigned char ch : B) {
          if (ch < 0x80) O += ch; else O += '?';
        }
        J.attribute("v", O);
        J.attribute("len", (int64_t)B.size());
      } else J.attribute("v", "");
      return;
    }
    if (auto *P = dyn_cast<PredefinedExpr>(E)) {
      J.attribute("k", "str");
      J.attribute("v", P->getFunctionName() ? P->getFunctionName()->getString() : "");
      return;
    }
    if (auto *B = dyn_cast<BinaryOperator>(E)) {
      if (B->isAssignmentOp()) {
        J.attribute("k", "asg");
        J.attribute("o", B->getOpcodeStr());
      } else if (B->getOpcode() == BO_Comma) {
        J.attribute("k", "seq");
      } else {
        J.attribute("k", "bin");
        J.attribute("o", B->getOpcodeStr());
        if (B->isLogicalOp()) J.attribute("lid", logId(B));
      }
      J.attribute("t", ty(B->getType()));
      kid("x", B->getLHS());
      kid("y", B->getRHS());
      return;
    }
    if (auto *U = dyn_cast<UnaryOperator>(E)) {
      J.attribute("k", "un");
      std::string O = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      if (U->isIncrementDecrementOp()) O = (U->isPrefix() ? "pre" : "post") + O;
      J.attribute("o", O);
      J.attribute("t", ty(U->getType()));
      kid("x", U->getSubExpr());
      return;
    }
    if (auto *A = dyn_cast<ArraySubscriptExpr>(E)) {
      J.attribute("k", "idx");
      J.attribute("t", ty(A->getType()));
      kid("b", A->getBase());
      kid("x", A->getIdx());
      return;
    }
    if (auto *C = dyn_cast<AbstractConditionalOperator>(E)) {
      J.attribute("k", "cond");
      J.attribute("lid", logId(C));
      kid("c", C->getCond());
      kid("x", C->getTrueExpr());
      kid("y", C->getFalseExpr());
      return;
    }
    if (auto *C = dyn_cast<CastExpr>(E)) {
      J.attribute("k", "cast");
      J.attribute("t", ty(C->getType()));
      J.attribute("ft", ty(C->getSubExpr()->getType()));
      kid("x", C->getSubExpr());
      return;
    }
    if (auto *I = dyn_cast<InitListExpr>(E)) {
      const InitListExpr *S = I->isSemanticForm() ? I : I->getSemanticForm();
      if (!S) S = I;
      J.attribute("k", "init");
      J.attribute("t", ty(S->getType()));
      J.attributeArray("a", [&] {
        for (const Expr *X : S->inits()) expr(X);
      });
      if (const RecordType *R = S->getType()->getAs<RecordType>()) {
        J.attributeArray("fs", [&] {
          for (auto *F : R->getDecl()->fields()) J.value(F->getNameAsString());
        });
      }
      return;
    }
    if (auto *U = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      J.attribute("k", "int");
      Expr::EvalResult R;
      if (U->EvaluateAsInt(R, Ctx)) J.attribute("v", R.Val.getInt().getExtValue());
      else J.attribute("v", 0);
      J.attribute("sz", 1);
      return;
    }
    if (auto *S = dyn_cast<StmtExpr>(E)) {
      J.attribute("k", "stmtexpr");
      const CompoundStmt *CS = S->getSubStmt();
      const Expr *Last = nullptr;
      if (!CS->body_empty()) Last = dyn_cast<Expr>(CS->body_back());
      if (Last) kid("x", Last);
      return;
    }
    if (auto *V = dyn_cast<VAArgExpr>(E)) {
      J.attribute("k", "vaarg");
      J.attribute("t", ty(V->getType()));
      return;
    }
    if (auto *C = dyn_cast<CompoundLiteralExpr>(E)) {
      J.attribute("k", "complit");
      kid("x", C->getInitializer());
      return;
    }
    if (isa<ImplicitValueInitExpr>(E)) {
      J.attribute("k", "zero");
      return;
    }
    if (auto *C = dyn_cast<CharacterLiteral>(E)) {
      J.attribute("k", "int");
      J.attribute("v", (int64_t)C->getValue());
      return;
    }
    if (auto *F = dyn_cast<FloatingLiteral>(E)) {
      J.attribute("k", "float");
      J.attribute("v", F->getValueAsApproximateDouble());
      return;
    }
    J.attribute("k", "unk");
    J.attribute("c", E->getStmtClassName());
    J.attributeArray("a", [&] {
      for (const Stmt *S : E->children())
        if (auto *X = dyn_cast_or_null<Expr>(S)) expr(X);
    });
  }

  void stmt(const Stmt *S) {
    Current = S;
    if (auto *R = dyn_cast<ReturnStmt>(S)) {
      J.object([&] {
        J.attribute("k", "ret");
        J.attribute("l", line(S->getBeginLoc()));
        if (R->getRetValue()) kid("x", R->getRetValue());
      });
      return;
    }
    if (auto *D = dyn_cast<DeclStmt>(S)) {
      J.object([&] {
        J.attribute("k", "decl");
        J.attribute("l", line(S->getBeginLoc()));
        J.attributeArray("d", [&] {
          for (const Decl *X : D->decls())
            if (auto *V = dyn_cast<VarDecl>(X)) {
              J.object([&] {
                J.attribute("n", V->getNameAsString());
                J.attribute("t", ty(V->getType()));
                if (V->isStaticLocal()) J.attribute("g", 1);
                else J.attribute("id", varId(V));
                if (V->hasAttr<CleanupAttr>()) J.attribute("cu", 1);
                if (auto *AT = Ctx.getAsConstantArrayType(V->getType()))
                  J.attribute("asz", (int64_t)AT->getSize().getZExtValue());
                if (V->hasInit()) kid("x", V->getInit());
              });
            }
        });
      });
      return;
    }
    if (auto *E = dyn_cast<Expr>(S)) {
      J.object([&] {
        J.attribute("k", "ex");
        J.attribute("l", line(S->getBeginLoc()));
        kid("x", E);
      });
      return;
    }
    J.object([&] {
      J.attribute("k", "other");
      J.attribute("l", line(S->getBeginLoc()));
      J.attribute("c", S->getStmtClassName());
    });
  }

  bool dump(const FunctionDecl *FD, const std::string &File) {
    CFG::BuildOptions BO;
    BO.PruneTriviallyFalseEdges = true;
    BO.setAlwaysAdd(Stmt::ConditionalOperatorClass);
    std::unique_ptr<CFG> G = CFG::buildCFG(FD, FD->getBody(), &Ctx, BO);
    if (!G) return false;
    int N = 0;
    for (const CFGBlock *B : *G)
      for (const CFGElement &El : *B)
        if (auto CS = El.getAs<CFGStmt>()) Ids[CS->getStmt()] = N++;
    J.object([&] {
      J.attribute("kind", "fn");
      J.attribute("name", FD->getNameAsString());
      J.attribute("file", File);
      J.attribute("line", line(FD->getBeginLoc()));
      J.attribute("eline", line(FD->getEndLoc()));
      J.attribute("static", FD->getStorageClass() == SC_Static ? 1 : 0);
      J.attribute("variadic", FD->isVariadic() ? 1 : 0);
      J.attribute("rt", ty(FD->getReturnType()));
      J.attribute("rts", FD->getReturnType().getUnqualifiedType().getAsString());
      J.attributeArray("params", [&] {
        for (const ParmVarDecl *P : FD->parameters())
          J.object([&] {
            J.attribute("n", P->getNameAsString());
            J.attribute("id", varId(P));
            J.attribute("t", ty(P->getType()));
            J.attribute("wt", P->getType().getAsString());
          });
      });
      J.attribute("entry", (int64_t)G->getEntry().getBlockID());
      J.attribute("exit", (int64_t)G->getExit().getBlockID());
      J.attributeArray("blocks", [&] {
        for (const CFGBlock *B : *G) block(B);
      });
    });
    return true;
  }

  void block(const CFGBlock *B) {
    J.object([&] {
      J.attribute("b", (int64_t)B->getBlockID());
      if (B->hasNoReturnElement()) J.attribute("noret", 1);
      if (const Stmt *L = B->getLabel()) {
        if (auto *C = dyn_cast<CaseStmt>(L)) {
          Expr::EvalResult R;
          if (C->getLHS()->EvaluateAsInt(R, Ctx)) {
            int64_t Lo = R.Val.getInt().getExtValue(), Hi = Lo;
            if (C->getRHS() && C->getRHS()->EvaluateAsInt(R, Ctx))
              Hi = R.Val.getInt().getExtValue();
            J.attributeArray("case", [&] { J.value(Lo); J.value(Hi); });
            std::string N = enumNames(C->getLHS());
            if (!N.empty()) J.attribute("casen", N);
          }
        } else if (isa<DefaultStmt>(L)) {
          J.attribute("default", 1);
        }
      }
      J.attributeArray("e", [&] {
        for (const CFGElement &El : *B)
          if (auto CS = El.getAs<CFGStmt>()) {
            J.array([&] {
              J.value(Ids[CS->getStmt()]);
              stmt(CS->getStmt());
            });
          }
      });
      if (const Stmt *T = B->getTerminatorStmt()) {
        J.attributeObject("t", [&] {
          J.attribute("k", T->getStmtClassName());
          J.attribute("l", line(T->getBeginLoc()));
          Current = nullptr;
          if (auto *BO = dyn_cast<BinaryOperator>(T)) {
            J.attribute("op", BO->getOpcodeStr());
            J.attribute("lid", logId(BO));
            kid("c", lastCond(BO->getLHS()));
          } else if (auto *CO = dyn_cast<AbstractConditionalOperator>(T)) {
            J.attribute("lid", logId(CO));
            kid("c", lastCond(CO->getCond()));
          } else if (const Stmt *C = B->getTerminatorCondition(false)) {
            if (auto *E = dyn_cast<Expr>(C)) {
              // the loop condition of do-while is evaluated as a whole in its block
              bool whole = false;
              for (const CFGElement &EL : *B)
                if (auto CS = EL.getAs<CFGStmt>())
                  if (auto *SE = dyn_cast<Expr>(CS->getStmt()))
                    if (SE->IgnoreParenImpCasts() == E->IgnoreParenImpCasts()) whole = true;
              kid("c", whole ? E : lastCond(E));
            }
          }
        });
      }
      J.attributeArray("s", [&] {
        for (auto &S : B->succs()) {
          if (const CFGBlock *T = S.getReachableBlock()) J.value((int64_t)T->getBlockID());
          else J.value(nullptr);
        }
      });
    });
  }
  // for a terminator whose condition is a short-circuit operator the block
  // only decides the last operand
  const Expr *lastCond(const Expr *E) {
    while (true) {
      const Expr *S = E->IgnoreParens();
      if (auto *B = dyn_cast<BinaryOperator>(S))
        if (B->isLogicalOp()) { E = B->getRHS(); continue; }
      return E;
    }
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  ASTContext &Ctx;
  llvm::raw_ostream &OS;
  std::set<std::string> SeenRec;
  Visitor(ASTContext &C, llvm::raw_ostream &O) : Ctx(C), OS(O) {}

  std::string fileOf(SourceLocation L) {
    SourceManager &SM = Ctx.getSourceManager();
    L = SM.getExpansionLoc(L);
    if (auto FE = SM.getFileEntryRefForID(SM.getFileID(L))) {
      llvm::StringRef P = FE->getFileEntry().tryGetRealPathName();
      if (P.empty()) P = FE->getName();
      if (P.starts_with(Root)) {
        P = P.drop_front(Root.size());
        while (P.starts_with("/")) P = P.drop_front(1);
        return P.str();
      }
    }
    return "";
  }

  bool VisitFunctionDecl(FunctionDecl *FD) {
    if (!FD->doesThisDeclarationHaveABody()) return true;
    std::string F = fileOf(FD->getLocation());
    if (F.empty()) return true;
    {
      OStream J(OS);
      FnDumper D(Ctx, J);
      D.dump(FD, F);
    }
    OS << "\n";
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || !V->hasInit()) return true;
    if (V->getInit()->isValueDependent()) return true;
    std::string F = fileOf(V->getLocation());
    if (F.empty()) return true;
    {
      OStream J(OS);
      FnDumper D(Ctx, J);
      J.object([&] {
        J.attribute("kind", "global");
        J.attribute("name", V->getNameAsString());
        J.attribute("file", F);
        J.attribute("line", D.line(V->getLocation()));
        J.attribute("t", D.ty(V->getType()));
        J.attributeBegin("x");
        D.expr(V->getInit());
        J.attributeEnd();
      });
    }
    OS << "\n";
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    std::string F = fileOf(E->getLocation());
    if (F.empty()) return true;
    std::string N = E->getNameAsString();
    if (N.empty())
      if (auto *T = E->getTypedefNameForAnonDecl()) N = T->getNameAsString();
    {
      OStream J(OS);
      J.object([&] {
        J.attribute("kind", "enum");
        J.attribute("name", N);
        J.attribute("file", F);
        J.attributeObject("v", [&] {
          for (auto *C : E->enumerators())
            J.attribute(C->getNameAsString(), C->getInitVal().getExtValue());
        });
      });
    }
    OS << "\n";
    return true;
  }
  bool VisitRecordDecl(RecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isInvalidDecl()) return true;
    std::string F = fileOf(R->getLocation());
    if (F.empty()) return true;
    std::string N = R->getNameAsString();
    if (N.empty())
      if (auto *T = R->getTypedefNameForAnonDecl()) N = T->getNameAsString();
    {
      OStream J(OS);
      J.object([&] {
        J.attribute("kind", "record");
        J.attribute("name", N);
        J.attribute("file", F);
        J.attributeArray("fields", [&] {
          for (auto *FD : R->fields()) {
            J.object([&] {
              J.attribute("n", FD->getNameAsString());
              J.attribute("t", FD->getType().getCanonicalType().getUnqualifiedType().getAsString());
              J.attribute("wt", FD->getType().getAsString());
              if (!FD->isBitField() && !R->isDependentType() && R->isCompleteDefinition())
                J.attribute("off", (int64_t)(Ctx.getFieldOffset(FD) / 8));
              if (auto *AT = Ctx.getAsConstantArrayType(FD->getType()))
                J.attribute("asz", (int64_t)AT->getSize().getZExtValue());
            });
          }
        });
      });
    }
    OS << "\n";
    return true;
  }
};

class Consumer : public ASTConsumer {
  llvm::raw_ostream &OS;
public:
  Consumer(llvm::raw_ostream &O) : OS(O) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Visitor V(C, OS);
    V.TraverseDecl(C.getTranslationUnitDecl());
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<llvm::raw_fd_ostream> OS;
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    std::error_code EC;
    OS = std::make_unique<llvm::raw_fd_ostream>(OutPath, EC);
    return std::make_unique<Consumer>(*OS);
  }
};
} // namespace

// usage: extract ROOT OUT FILE -- flags...
int main(int argc, const char **argv) {
  if (argc < 5) return 2;
  Root = argv[1];
  OutPath = argv[2];
  std::string File = argv[3];
  std::vector<std::string> Flags;
  for (int i = 5; i < argc; i++) Flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool Tool(DB, {File});
  int R = Tool.run(tooling::newFrontendActionFactory<Action>().get());
  return R;
}
