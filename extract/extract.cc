// Exports the type-checked program of one translation unit as JSON: every
// function with a body whose code is in the analysed tree (member functions,
// template instantiations, lambdas in place), every record, every variable with
// static storage. Callees, declarations and types are the ones clang resolved;
// default arguments and default member initialisers are materialised; integer
// and floating constant expressions carry their value.
#include "llvm/ADT/StringExtras.h"
#include <map>
#include <set>
#include <string>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/ADT/SmallString.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;

static std::string Root;   // analysed tree, with trailing slash
static std::string Build;  // subtree of Root that is not analysed
static std::string OutPath;

namespace {

class Exporter {
 public:
  explicit Exporter(ASTContext& C)
      : Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressDefaultTemplateArgs = true;
    PP.Bool = true;
    PP.SuppressInlineNamespace = true;
  }

  std::string File(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    llvm::SmallString<256> S(SM.getFilename(L));
    return std::string(S);
  }
  bool InTree(SourceLocation L) {
    std::string F = File(L);
    if (F.rfind(Root, 0) != 0) return false;
    return F.rfind(Build, 0) != 0;
  }
  std::string Rel(SourceLocation L) {
    std::string F = File(L);
    if (F.rfind(Root, 0) == 0) return F.substr(Root.size());
    return F;
  }
  unsigned Line(SourceLocation L) {
    return SM.getExpansionLineNumber(L);
  }
  std::string Ty(QualType T) {
    if (T.isNull()) return "";
    std::string S = T.getCanonicalType().getAsString(PP);
    // std::__cxx11::basic_string<char> -> std::string etc.
    auto rep = [&](const std::string& a, const std::string& b) {
      size_t p = 0;
      while ((p = S.find(a, p)) != std::string::npos) {
        S.replace(p, a.size(), b);
        p += b.size();
      }
    };
    rep("std::__cxx11::", "std::");
    rep("std::basic_string<char>", "std::string");
    rep("absl::lts_20220623::", "absl::");
    rep("google::protobuf::", "google::protobuf::");
    return S;
  }
  std::string Usr(const Decl* D) {
    llvm::SmallString<256> S;
    if (index::generateUSRForDecl(D, S)) return "";
    return std::string(S);
  }
  std::string QName(const NamedDecl* D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    PrintingPolicy P(Ctx.getLangOpts());
    P.SuppressUnwrittenScope = true;
    P.SuppressInlineNamespace = true;
    D->printQualifiedName(OS, P);
    OS.flush();
    auto rep = [&](const std::string& a, const std::string& b) {
      size_t p = 0;
      while ((p = S.find(a, p)) != std::string::npos) {
        S.replace(p, a.size(), b);
        p += b.size();
      }
    };
    rep("std::__cxx11::", "std::");
    rep("absl::lts_20220623::", "absl::");
    return S;
  }
  std::string VarId(const ValueDecl* D) {
    D = cast<ValueDecl>(D->getCanonicalDecl());
    auto It = Ids.find(D);
    if (It != Ids.end()) return It->second;
    std::string S = "v" + std::to_string(Ids.size() + 1);
    Ids[D] = S;
    return S;
  }

  static const FunctionDecl* Pattern(const FunctionDecl* F) { return F; }

  json::Object Node(const char* K, SourceLocation L) {
    json::Object O;
    O["k"] = K;
    if (L.isValid()) {
      unsigned N = Line(L);
      O["l"] = N;
    }
    return O;
  }

  json::Value Str(std::string S) { return json::Value(json::fixUTF8(S)); }

  void ConstOf(const Expr* E, json::Object& O) {
    if (E->isValueDependent() || E->isTypeDependent()) return;
    QualType T = E->getType();
    if (T->isIntegralOrEnumerationType()) {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects) &&
          R.Val.isInt() && !R.HasSideEffects) {
        llvm::SmallString<32> S;
        R.Val.getInt().toString(S, 10);
        O["cv"] = std::string(S);
      }
    } else if (T->isRealFloatingType()) {
      Expr::EvalResult R;
      if (E->EvaluateAsRValue(R, Ctx) && R.Val.isFloat() &&
          !R.HasSideEffects) {
        llvm::APFloat F = R.Val.getFloat();
        if (F.isNaN()) {
          O["cf"] = "nan";
        } else if (F.isInfinity()) {
          O["cf"] = F.isNegative() ? "-inf" : "inf";
        } else {
          bool lose;
          F.convert(llvm::APFloat::IEEEdouble(),
                    llvm::APFloat::rmNearestTiesToEven, &lose);
          char buf[64];
          snprintf(buf, sizeof buf, "%.17g", F.convertToDouble());
          O["cf"] = std::string(buf);
        }
      }
    }
  }

  json::Value FnRef(const FunctionDecl* F) {
    json::Object O;
    O["q"] = Str(QName(F));
    O["u"] = Str(Usr(F));
    if (InTree(F->getLocation())) O["repo"] = true;
    if (const auto* M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isVirtual()) O["virt"] = true;
      if (M->isStatic()) O["static"] = true;
      if (M->isConst()) O["const"] = true;
      O["cls"] = Ty(Ctx.getRecordType(M->getParent()));
      if (M->isCopyAssignmentOperator()) O["copyassign"] = true;
      if (M->isMoveAssignmentOperator()) O["moveassign"] = true;
    }
    if (F->isDefaulted()) O["defaulted"] = true;
    json::Array PT;
    for (const auto* P : F->parameters()) PT.push_back(Ty(P->getType()));
    O["pt"] = std::move(PT);
    O["rt"] = Ty(F->getReturnType());
    if (F->isVariadic()) O["variadic"] = true;
    if (const auto* TA = F->getTemplateSpecializationArgs()) {
      json::Array A;
      for (const auto& X : TA->asArray()) {
        if (X.getKind() == TemplateArgument::Integral)
          A.push_back(Str(llvm::toString(X.getAsIntegral(), 10)));
        else if (X.getKind() == TemplateArgument::Type)
          A.push_back(Ty(X.getAsType()));
        else
          A.push_back("");
      }
      O["ta"] = std::move(A);
    }
    if (F->isExternC()) O["c"] = true;
    return json::Value(std::move(O));
  }

  json::Value Ref(const ValueDecl* D, const Expr* E) {
    json::Object O = Node("Ref", E->getExprLoc());
    O["t"] = Ty(E->getType());
    if (const auto* F = dyn_cast<FunctionDecl>(D)) {
      O["dk"] = "func";
      O["fn"] = FnRef(F);
    } else if (const auto* V = dyn_cast<VarDecl>(D)) {
      O["name"] = Str(D->getNameAsString());
      O["id"] = VarId(V);
      if (V->hasGlobalStorage()) {
        O["dk"] = V->isStaticLocal() ? "slocal" : "global";
        O["q"] = Str(QName(V));
        O["u"] = Str(Usr(V));
        if (V->getType().isConstQualified() || V->isConstexpr())
          O["const"] = true;
        if (InTree(V->getLocation())) O["repo"] = true;
        // Value of constant strings / scalars.
        if (const Expr* I = V->getAnyInitializer()) {
          const Expr* B = I->IgnoreParenImpCasts();
          if (const auto* SL = dyn_cast<StringLiteral>(B))
            if (SL->getCharByteWidth() == 1) O["sv"] = Str(SL->getString().str());
        }
      } else if (isa<ParmVarDecl>(V)) {
        O["dk"] = "param";
      } else {
        O["dk"] = "var";
      }
      if (V->getType()->isReferenceType()) O["ref"] = true;
    } else if (isa<EnumConstantDecl>(D)) {
      O["dk"] = "enum";
      O["q"] = Str(QName(D));
    } else if (isa<BindingDecl>(D)) {
      O["dk"] = "binding";
      O["name"] = Str(D->getNameAsString());
      O["id"] = VarId(D);
    } else {
      O["dk"] = "other";
      O["name"] = Str(D->getNameAsString());
    }
    ConstOf(E, O);
    return json::Value(std::move(O));
  }

  json::Array Args(llvm::ArrayRef<const Expr*> A) {
    json::Array R;
    for (const Expr* E : A) R.push_back(E_(E));
    return R;
  }
  template <class Range>
  json::Array ArgsR(Range A) {
    json::Array R;
    for (const Expr* E : A) R.push_back(E_(E));
    return R;
  }

  json::Value E_(const Expr* E) {
    if (!E) return nullptr;
    if (const auto* X = dyn_cast<ParenExpr>(E)) return E_(X->getSubExpr());
    if (const auto* X = dyn_cast<ExprWithCleanups>(E)) return E_(X->getSubExpr());
    if (const auto* X = dyn_cast<MaterializeTemporaryExpr>(E))
      return E_(X->getSubExpr());
    if (const auto* X = dyn_cast<CXXBindTemporaryExpr>(E))
      return E_(X->getSubExpr());
    if (const auto* X = dyn_cast<ConstantExpr>(E)) return E_(X->getSubExpr());
    if (const auto* X = dyn_cast<SubstNonTypeTemplateParmExpr>(E))
      return E_(X->getReplacement());
    if (const auto* X = dyn_cast<CXXDefaultArgExpr>(E)) {
      json::Value V = E_(X->getExpr());
      if (auto* O = V.getAsObject()) (*O)["defarg"] = true;
      return V;
    }
    if (const auto* X = dyn_cast<CXXDefaultInitExpr>(E)) return E_(X->getExpr());
    if (const auto* X = dyn_cast<OpaqueValueExpr>(E))
      return E_(X->getSourceExpr());
    if (const auto* X = dyn_cast<CXXRewrittenBinaryOperator>(E))
      return E_(X->getSemanticForm());
    if (const auto* X = dyn_cast<CXXStdInitializerListExpr>(E)) {
      json::Object O = Node("StdInit", E->getExprLoc());
      O["t"] = Ty(E->getType());
      O["e"] = E_(X->getSubExpr());
      return json::Value(std::move(O));
    }
    json::Object O = Node("?", E->getExprLoc());
    O["t"] = Ty(E->getType());
    if (E->isLValue()) O["lv"] = true;
    if (E->isXValue()) O["xv"] = true;
    ConstOf(E, O);
    if (const auto* X = dyn_cast<IntegerLiteral>(E)) {
      O["k"] = "Int";
    } else if (isa<CharacterLiteral>(E)) {
      O["k"] = "Int";
    } else if (isa<CXXBoolLiteralExpr>(E)) {
      O["k"] = "Int";
    } else if (isa<FloatingLiteral>(E)) {
      O["k"] = "Float";
    } else if (const auto* X = dyn_cast<StringLiteral>(E)) {
      O["k"] = "Str";
      if (X->getCharByteWidth() == 1) O["v"] = Str(X->getString().str());
    } else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      O["k"] = "Null";
    } else if (const auto* X = dyn_cast<PredefinedExpr>(E)) {
      O["k"] = "Str";
      if (X->getFunctionName())
        O["v"] = Str(X->getFunctionName()->getString().str());
    } else if (const auto* X = dyn_cast<DeclRefExpr>(E)) {
      return Ref(X->getDecl(), E);
    } else if (const auto* X = dyn_cast<CXXThisExpr>(E)) {
      O["k"] = "This";
      if (X->isImplicit()) O["imp"] = true;
    } else if (const auto* X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl* D = X->getMemberDecl();
      if (const auto* V = dyn_cast<VarDecl>(D)) return Ref(V, E);
      if (isa<EnumConstantDecl>(D)) return Ref(D, E);
      O["k"] = "Member";
      O["name"] = Str(D->getNameAsString());
      O["arrow"] = X->isArrow();
      O["base"] = E_(X->getBase());
      if (const auto* F = dyn_cast<FieldDecl>(D)) {
        O["cls"] = Ty(Ctx.getRecordType(F->getParent()));
        if (F->getType()->isReferenceType()) O["ref"] = true;
        if (InTree(F->getLocation())) O["repo"] = true;
      } else if (const auto* F = dyn_cast<FunctionDecl>(D)) {
        O["fn"] = FnRef(F);
      }
    } else if (const auto* X = dyn_cast<CXXOperatorCallExpr>(E)) {
      O["k"] = "Call";
      O["op"] = getOperatorSpelling(X->getOperator());
      Callee(X, O);
      const FunctionDecl* F = X->getDirectCallee();
      unsigned First = 0;
      if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) {
        O["obj"] = E_(X->getArg(0));
        First = 1;
      }
      json::Array A;
      for (unsigned i = First; i < X->getNumArgs(); ++i)
        A.push_back(E_(X->getArg(i)));
      O["args"] = std::move(A);
    } else if (const auto* X = dyn_cast<CXXMemberCallExpr>(E)) {
      O["k"] = "Call";
      Callee(X, O);
      O["obj"] = E_(X->getImplicitObjectArgument());
      if (const auto* M =
              dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) {
        O["arrow"] = M->isArrow();
        // qualified call: no virtual dispatch
        if (M->hasQualifier()) O["qual"] = true;
      }
      O["args"] = ArgsR(X->arguments());
    } else if (const auto* X = dyn_cast<CallExpr>(E)) {
      O["k"] = "Call";
      Callee(X, O);
      O["args"] = ArgsR(X->arguments());
    } else if (const auto* X = dyn_cast<CXXConstructExpr>(E)) {
      O["k"] = "Construct";
      O["fn"] = FnRef(X->getConstructor());
      const CXXConstructorDecl* C = X->getConstructor();
      if (C->isCopyConstructor()) O["copy"] = true;
      if (C->isMoveConstructor()) O["move"] = true;
      if (C->isDefaultConstructor()) O["default"] = true;
      if (X->isElidable()) O["elide"] = true;
      if (X->isListInitialization()) O["list"] = true;
      if (X->requiresZeroInitialization()) O["zero"] = true;
      if (isa<CXXTemporaryObjectExpr>(X)) O["temp"] = true;
      O["args"] = ArgsR(X->arguments());
    } else if (const auto* X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      O["k"] = "Construct";
      O["fn"] = FnRef(X->getConstructor());
      O["args"] = json::Array();
    } else if (const auto* X = dyn_cast<UnaryOperator>(E)) {
      O["k"] = "Un";
      O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str() +
                (X->isPostfix() ? "post" : "");
      O["e"] = E_(X->getSubExpr());
    } else if (const auto* X = dyn_cast<CompoundAssignOperator>(E)) {
      O["k"] = "Assign";
      O["op"] = X->getOpcodeStr().str();
      O["ct"] = Ty(X->getComputationResultType());
      O["lhst"] = Ty(X->getComputationLHSType());
      O["a"] = E_(X->getLHS());
      O["b"] = E_(X->getRHS());
    } else if (const auto* X = dyn_cast<BinaryOperator>(E)) {
      O["k"] = X->isAssignmentOp() ? "Assign" : "Bin";
      O["op"] = X->getOpcodeStr().str();
      O["a"] = E_(X->getLHS());
      O["b"] = E_(X->getRHS());
    } else if (const auto* X = dyn_cast<AbstractConditionalOperator>(E)) {
      O["k"] = "Cond";
      O["c"] = E_(X->getCond());
      O["a"] = E_(X->getTrueExpr());
      O["b"] = E_(X->getFalseExpr());
    } else if (const auto* X = dyn_cast<CastExpr>(E)) {
      // A user defined conversion wraps the call that does it.
      O["k"] = "Cast";
      O["ck"] = X->getCastKindName();
      if (isa<ImplicitCastExpr>(X)) O["imp"] = true;
      if (const auto* N = dyn_cast<CXXNamedCastExpr>(X))
        O["cn"] = N->getCastName();
      O["e"] = E_(X->getSubExpr());
    } else if (const auto* X = dyn_cast<ArraySubscriptExpr>(E)) {
      O["k"] = "Index";
      O["a"] = E_(X->getBase());
      O["b"] = E_(X->getIdx());
    } else if (const auto* X = dyn_cast<LambdaExpr>(E)) {
      O["k"] = "Lambda";
      const CXXMethodDecl* M = X->getCallOperator();
      O["params"] = Params(M);
      O["u"] = Str(Usr(M));
      json::Array Caps;
      for (const auto& C : X->captures()) {
        json::Object CO;
        if (C.capturesThis()) {
          CO["this"] = true;
        } else if (C.capturesVariable()) {
          CO["id"] = VarId(cast<ValueDecl>(C.getCapturedVar()));
          CO["name"] = Str(C.getCapturedVar()->getNameAsString());
          if (const auto* CV = dyn_cast<VarDecl>(C.getCapturedVar()))
            if (CV->isInitCapture()) CO["init"] = E_(CV->getInit());
        }
        CO["byref"] = C.getCaptureKind() == LCK_ByRef ||
                      C.getCaptureKind() == LCK_This;
        Caps.push_back(std::move(CO));
      }
      O["caps"] = std::move(Caps);
      O["mutable"] = X->isMutable();
      O["ret"] = Ty(M->getReturnType());
      const Stmt* B = M->getBody();
      if (X->isGenericLambda()) {
        // Use the (first) instantiation of the call operator, if any.
        if (auto* T = M->getDescribedFunctionTemplate()) {
          for (auto* S : T->specializations()) {
            if (S->getBody()) {
              B = S->getBody();
              O["params"] = Params(S);
              O["ret"] = Ty(S->getReturnType());
              break;
            }
          }
        }
        O["generic"] = true;
      }
      O["body"] = S_(B);
    } else if (const auto* X = dyn_cast<InitListExpr>(E)) {
      const InitListExpr* Sem = X->isSemanticForm() ? X : X->getSemanticForm();
      if (!Sem) Sem = X;
      O["k"] = "InitList";
      json::Array A;
      for (const Expr* I : Sem->inits()) A.push_back(E_(I));
      O["args"] = std::move(A);
      if (const auto* RD = Sem->getType()->getAsCXXRecordDecl()) {
        json::Array FN;
        for (const auto& Bs : RD->bases()) FN.push_back("(base)" + Ty(Bs.getType()));
        for (const auto* F : RD->fields())
          if (!F->isUnnamedBitfield()) FN.push_back(Str(F->getNameAsString()));
        O["fields"] = std::move(FN);
      }
    } else if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {
      O["k"] = "Zero";
    } else if (const auto* X = dyn_cast<CXXNewExpr>(E)) {
      O["k"] = "New";
      O["at"] = Ty(X->getAllocatedType());
      if (X->isArray()) {
        O["array"] = true;
        if (X->getArraySize()) O["size"] = E_(*X->getArraySize());
      }
      if (X->getNumPlacementArgs()) O["placement"] = true;
      O["init"] = E_(X->getInitializer());
    } else if (const auto* X = dyn_cast<CXXDeleteExpr>(E)) {
      O["k"] = "Delete";
      O["array"] = X->isArrayForm();
      O["e"] = E_(X->getArgument());
    } else if (const auto* X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      O["k"] = "SizeOf";
      O["at"] = Ty(X->getTypeOfArgument());
      O["trait"] = X->getKind() == UETT_SizeOf ? "sizeof" : "other";
    } else if (const auto* X = dyn_cast<CXXThrowExpr>(E)) {
      O["k"] = "Throw";
      O["e"] = E_(X->getSubExpr());
    } else {
      O["k"] = "Other";
      O["cls"] = E->getStmtClassName();
      json::Array A;
      for (const Stmt* C : E->children())
        if (C) {
          if (const auto* CE = dyn_cast<Expr>(C)) A.push_back(E_(CE));
          else A.push_back(S_(C));
        }
      O["args"] = std::move(A);
    }
    return json::Value(std::move(O));
  }

  void Callee(const CallExpr* X, json::Object& O) {
    if (const FunctionDecl* F = X->getDirectCallee()) {
      O["fn"] = FnRef(F);
    } else {
      O["ce"] = E_(X->getCallee());
    }
  }

  json::Array Params(const FunctionDecl* F) {
    json::Array A;
    for (const auto* P : F->parameters()) {
      json::Object O;
      O["id"] = VarId(P);
      O["name"] = Str(P->getNameAsString());
      O["t"] = Ty(P->getType());
      A.push_back(std::move(O));
    }
    return A;
  }

  json::Value VarDecl_(const VarDecl* V) {
    json::Object O;
    O["id"] = VarId(V);
    O["name"] = Str(V->getNameAsString());
    O["t"] = Ty(V->getType());
    O["l"] = Line(V->getLocation());
    if (V->isStaticLocal()) {
      O["static"] = true;
      O["u"] = Str(Usr(V));
      O["q"] = Str(QName(V));
    }
    if (V->getType().isConstQualified() || V->isConstexpr()) O["const"] = true;
    if (V->hasInit()) {
      O["init"] = E_(V->getInit());
    }
    // Whether an object without initialiser has a value.
    if (!V->hasInit()) O["noinit"] = true;
    if (const auto* DD = dyn_cast<DecompositionDecl>(V)) {
      json::Array B;
      for (const auto* BD : DD->bindings()) {
        json::Object BO;
        BO["id"] = VarId(BD);
        BO["name"] = Str(BD->getNameAsString());
        if (const VarDecl* HV = BD->getHoldingVar()) {
          BO["hid"] = VarId(HV);
          BO["e"] = E_(HV->getInit());
        } else {
          BO["e"] = E_(BD->getBinding());
        }
        B.push_back(std::move(BO));
      }
      O["bindings"] = std::move(B);
    }
    return json::Value(std::move(O));
  }

  json::Value S_(const Stmt* S) {
    if (!S) return nullptr;
    if (const auto* E = dyn_cast<Expr>(S)) {
      json::Object O = Node("Expr", S->getBeginLoc());
      O["e"] = E_(E);
      return json::Value(std::move(O));
    }
    json::Object O = Node("?", S->getBeginLoc());
    if (const auto* X = dyn_cast<CompoundStmt>(S)) {
      O["k"] = "Block";
      json::Array A;
      for (const Stmt* C : X->body()) A.push_back(S_(C));
      O["s"] = std::move(A);
    } else if (const auto* X = dyn_cast<DeclStmt>(S)) {
      O["k"] = "Decl";
      json::Array A;
      for (const Decl* D : X->decls())
        if (const auto* V = dyn_cast<VarDecl>(D)) A.push_back(VarDecl_(V));
      O["vars"] = std::move(A);
    } else if (const auto* X = dyn_cast<IfStmt>(S)) {
      O["k"] = "If";
      O["init"] = S_(X->getInit());
      O["var"] = S_(X->getConditionVariableDeclStmt());
      O["c"] = E_(X->getCond());
      O["a"] = S_(X->getThen());
      O["b"] = S_(X->getElse());
      if (X->isConstexpr()) O["constexpr"] = true;
    } else if (const auto* X = dyn_cast<WhileStmt>(S)) {
      O["k"] = "While";
      O["var"] = S_(X->getConditionVariableDeclStmt());
      O["c"] = E_(X->getCond());
      O["body"] = S_(X->getBody());
    } else if (const auto* X = dyn_cast<DoStmt>(S)) {
      O["k"] = "Do";
      O["c"] = E_(X->getCond());
      O["body"] = S_(X->getBody());
    } else if (const auto* X = dyn_cast<ForStmt>(S)) {
      O["k"] = "For";
      O["init"] = S_(X->getInit());
      O["var"] = S_(X->getConditionVariableDeclStmt());
      O["c"] = E_(X->getCond());
      O["inc"] = E_(X->getInc());
      O["body"] = S_(X->getBody());
    } else if (const auto* X = dyn_cast<CXXForRangeStmt>(S)) {
      O["k"] = "RangeFor";
      O["init"] = S_(X->getInit());
      O["v"] = VarDecl_(X->getLoopVariable());
      O["range"] = E_(X->getRangeInit());
      O["body"] = S_(X->getBody());
    } else if (const auto* X = dyn_cast<ReturnStmt>(S)) {
      O["k"] = "Return";
      O["e"] = E_(X->getRetValue());
    } else if (isa<BreakStmt>(S)) {
      O["k"] = "Break";
    } else if (isa<ContinueStmt>(S)) {
      O["k"] = "Continue";
    } else if (isa<NullStmt>(S)) {
      O["k"] = "Block";
      O["s"] = json::Array();
    } else if (const auto* X = dyn_cast<SwitchStmt>(S)) {
      O["k"] = "Switch";
      O["init"] = S_(X->getInit());
      O["var"] = S_(X->getConditionVariableDeclStmt());
      O["c"] = E_(X->getCond());
      O["body"] = S_(X->getBody());
      if (X->isAllEnumCasesCovered()) O["allenum"] = true;
    } else if (const auto* X = dyn_cast<CaseStmt>(S)) {
      O["k"] = "Case";
      O["v"] = E_(X->getLHS());
      if (X->getRHS()) O["hi"] = E_(X->getRHS());
      O["body"] = S_(X->getSubStmt());
    } else if (const auto* X = dyn_cast<DefaultStmt>(S)) {
      O["k"] = "Default";
      O["body"] = S_(X->getSubStmt());
    } else if (const auto* X = dyn_cast<AttributedStmt>(S)) {
      return S_(X->getSubStmt());
    } else if (const auto* X = dyn_cast<CXXTryStmt>(S)) {
      O["k"] = "Try";
      O["body"] = S_(X->getTryBlock());
      json::Array A;
      for (unsigned i = 0; i < X->getNumHandlers(); ++i)
        A.push_back(S_(X->getHandler(i)->getHandlerBlock()));
      O["handlers"] = std::move(A);
    } else if (const auto* X = dyn_cast<LabelStmt>(S)) {
      O["k"] = "Label";
      O["name"] = X->getName();
      O["body"] = S_(X->getSubStmt());
    } else if (const auto* X = dyn_cast<GotoStmt>(S)) {
      O["k"] = "Goto";
      O["name"] = Str(X->getLabel()->getNameAsString());
    } else {
      O["k"] = "OtherStmt";
      O["cls"] = S->getStmtClassName();
    }
    return json::Value(std::move(O));
  }

  void Function(const FunctionDecl* F) {
    if (!F->hasBody() && !F->isDefaulted()) return;
    const FunctionDecl* Def = nullptr;
    const Stmt* Body = F->getBody(Def);
    if (!Body) return;
    F = Def;
    if (F->isDependentContext()) return;
    if (F->isImplicit()) return;
    if (!InTree(F->getLocation())) return;
    if (const auto* M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) return;
    std::string U = Usr(F);
    if (U.empty() || !Seen.insert(U).second) return;
    json::Object O;
    O["u"] = Str(U);
    O["q"] = Str(QName(F));
    O["file"] = Rel(F->getLocation());
    O["l"] = Line(F->getBeginLoc());
    O["e"] = Line(F->getEndLoc());
    O["ret"] = Ty(F->getReturnType());
    O["params"] = Params(F);
    if (F->isTemplateInstantiation()) O["inst"] = true;
    if (F->isDefaulted()) O["defaulted"] = true;
    if (const auto* M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = Ty(Ctx.getRecordType(M->getParent()));
      if (M->isStatic()) O["static"] = true;
      if (M->isConst()) O["const"] = true;
      if (M->isVirtual()) O["virt"] = true;
      O["access"] = (int)M->getAccess();
      json::Array Ov;
      for (const auto* X : M->overridden_methods()) Ov.push_back(Str(Usr(X)));
      if (!Ov.empty()) O["over"] = std::move(Ov);
      if (const auto* C = dyn_cast<CXXConstructorDecl>(F)) {
        O["ctor"] = true;
        if (C->isCopyConstructor()) O["copyctor"] = true;
        if (C->isMoveConstructor()) O["movector"] = true;
        if (C->isDelegatingConstructor()) O["delegating"] = true;
        json::Array I;
        for (const auto* CI : C->inits()) {
          json::Object IO;
          if (CI->isAnyMemberInitializer())
            IO["field"] = Str(CI->getAnyMember()->getNameAsString());
          else if (CI->isBaseInitializer())
            IO["base"] = Ty(QualType(CI->getBaseClass(), 0));
          else
            IO["delegate"] = true;
          IO["written"] = CI->isWritten();
          IO["e"] = E_(CI->getInit());
          I.push_back(std::move(IO));
        }
        O["inits"] = std::move(I);
      }
      if (isa<CXXDestructorDecl>(F)) O["dtor"] = true;
      if (M->isCopyAssignmentOperator()) O["copyassign"] = true;
      if (M->isMoveAssignmentOperator()) O["moveassign"] = true;
    }
    O["body"] = S_(Body);
    Functions.push_back(std::move(O));
  }

  void Record(const CXXRecordDecl* R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext()) return;
    if (R->isLambda() || !InTree(R->getLocation())) return;
    std::string T = Ty(Ctx.getRecordType(R));
    if (!SeenR.insert(T).second) return;
    json::Object O;
    O["t"] = T;
    O["u"] = Str(Usr(R));
    O["q"] = Str(QName(R));
    O["file"] = Rel(R->getLocation());
    O["l"] = Line(R->getLocation());
    json::Array F;
    for (const auto* X : R->fields()) {
      json::Object FO;
      FO["name"] = Str(X->getNameAsString());
      FO["t"] = Ty(X->getType());
      FO["l"] = Line(X->getLocation());
      if (X->isMutable()) FO["mutable"] = true;
      if (X->getType().isConstQualified()) FO["const"] = true;
      if (X->hasInClassInitializer() && X->getInClassInitializer()) {
        FO["init"] = E_(X->getInClassInitializer());
        FO["hasinit"] = true;
      }
      const Type* TT = X->getType().getCanonicalType().getTypePtr();
      while (TT->isArrayType()) TT = TT->getArrayElementTypeNoTypeQual();
      FO["scalar"] = TT->isScalarType();
      if (const auto* FR = TT->getAsCXXRecordDecl()) {
        FO["rec"] = Ty(Ctx.getRecordType(FR));
        if (FR->hasDefinition())
          FO["trivdef"] = FR->hasTrivialDefaultConstructor();
      }
      F.push_back(std::move(FO));
    }
    O["fields"] = std::move(F);
    json::Array B;
    for (const auto& X : R->bases()) B.push_back(Ty(X.getType()));
    O["bases"] = std::move(B);
    O["poly"] = R->isPolymorphic();
    O["abstract"] = R->isAbstract();
    O["agg"] = R->isAggregate();
    if (const auto* D = R->getDestructor()) {
      O["dtor"] = Str(Usr(D));
      O["virtdtor"] = D->isVirtual();
      O["userdtor"] = !D->isImplicit() && !D->isDefaulted();
    }
    auto usable = [](const CXXMethodDecl* M) {
      return M && !M->isDeleted();
    };
    // Copy / move availability.
    bool CopyC = false, CopyA = false, MoveC = false, MoveA = false;
    bool UCopyC = false, UCopyA = false, UMoveC = false, UMoveA = false;
    for (const auto* C : R->ctors()) {
      if (C->isCopyConstructor() && !C->isDeleted()) {
        CopyC = true;
        if (C->isUserProvided()) UCopyC = true;
      }
      if (C->isMoveConstructor() && !C->isDeleted()) {
        MoveC = true;
        if (C->isUserProvided()) UMoveC = true;
      }
    }
    bool DeclCopyC = false, DeclCopyA = false;
    for (const auto* C : R->ctors())
      if (C->isCopyConstructor()) DeclCopyC = true;
    for (const auto* M : R->methods()) {
      if (M->isCopyAssignmentOperator()) {
        DeclCopyA = true;
        if (usable(M)) CopyA = true;
        if (M->isUserProvided()) UCopyA = true;
      }
      if (M->isMoveAssignmentOperator()) {
        if (usable(M)) MoveA = true;
        if (M->isUserProvided()) UMoveA = true;
      }
    }
    if (!DeclCopyC && R->needsImplicitCopyConstructor() &&
        !R->defaultedCopyConstructorIsDeleted())
      CopyC = true;
    if (!DeclCopyA && R->needsImplicitCopyAssignment() &&
        !R->implicitCopyAssignmentHasConstParam())
      CopyA = CopyA;
    if (!DeclCopyA && R->needsImplicitCopyAssignment()) {
      // Deleted when a field is const/reference or not assignable.
      bool del = R->hasMoveConstructor() && R->hasUserDeclaredMoveConstructor();
      for (const auto* X : R->fields())
        if (X->getType().isConstQualified() || X->getType()->isReferenceType())
          del = true;
      if (!del) CopyA = true;
    }
    O["copyc"] = CopyC;
    O["copya"] = CopyA;
    O["movec"] = MoveC;
    O["movea"] = MoveA;
    O["ucopyc"] = UCopyC;
    O["ucopya"] = UCopyA;
    O["umovec"] = UMoveC;
    O["umovea"] = UMoveA;
    O["implicitdefctor"] = R->needsImplicitDefaultConstructor() ||
                           (R->hasDefaultConstructor() &&
                            !R->hasUserProvidedDefaultConstructor());
    json::Array M;
    for (const auto* X : R->methods()) {
      json::Object MO;
      MO["name"] = Str(X->getNameAsString());
      MO["u"] = Str(Usr(X));
      MO["virt"] = X->isVirtual();
      MO["pure"] = X->isPureVirtual();
      MO["access"] = (int)X->getAccess();
      json::Array Ov;
      for (const auto* Y : X->overridden_methods()) Ov.push_back(Str(Usr(Y)));
      if (!Ov.empty()) MO["over"] = std::move(Ov);
      M.push_back(std::move(MO));
    }
    O["methods"] = std::move(M);
    Records.push_back(std::move(O));
  }

  void Global(const VarDecl* V) {
    if (!V->hasGlobalStorage() || !InTree(V->getLocation())) return;
    if (V->getDeclContext()->isDependentContext()) return;
    std::string U = Usr(V);
    bool Def = V->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
    if (!Def && !V->isStaticDataMember()) return;
    if (!SeenG.insert(U + (Def ? "#d" : "")).second) return;
    json::Object O;
    O["u"] = Str(U);
    O["q"] = Str(QName(V));
    O["id"] = VarId(V);
    O["t"] = Ty(V->getType());
    O["file"] = Rel(V->getLocation());
    O["l"] = Line(V->getLocation());
    O["def"] = Def;
    O["slocal"] = V->isStaticLocal();
    O["const"] = V->getType().isConstQualified() || V->isConstexpr();
    O["tls"] = V->getTLSKind() != VarDecl::TLS_None;
    if (V->hasInit()) O["init"] = E_(V->getInit());
    Globals.push_back(std::move(O));
  }

  void Write() {
    json::Object O;
    O["functions"] = std::move(Functions);
    O["records"] = std::move(Records);
    O["globals"] = std::move(Globals);
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutPath, EC);
    OS << json::Value(std::move(O));
  }

  ASTContext& Ctx;
  SourceManager& SM;
  PrintingPolicy PP;
  std::map<const ValueDecl*, std::string> Ids;
  std::set<std::string> Seen, SeenR, SeenG;
  json::Array Functions, Records, Globals;
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  explicit Visitor(Exporter& X) : X(X) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool TraverseDecl(Decl* D) {
    // Only namespaces, and declarations of the analysed tree.
    if (D && !isa<TranslationUnitDecl>(D) && !isa<NamespaceDecl>(D) &&
        !isa<LinkageSpecDecl>(D) && D->getLocation().isValid() &&
        !X.InTree(D->getLocation()))
      return true;
    return RecursiveASTVisitor::TraverseDecl(D);
  }
  bool VisitFunctionDecl(FunctionDecl* F) {
    X.Function(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* R) {
    X.Record(R);
    return true;
  }
  bool VisitVarDecl(VarDecl* V) {
    X.Global(V);
    return true;
  }
  Exporter& X;
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext& C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Exporter X(C);
    Visitor V(X);
    V.TraverseDecl(C.getTranslationUnitDecl());
    X.Write();
  }
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&,
                                                 StringRef) override {
    return std::make_unique<Consumer>();
  }
};

}  // namespace

// extract ROOT SKIP OUT FILE -- clang arguments
int main(int argc, char** argv) {
  if (argc < 6) return 2;
  Root = argv[1];
  Build = argv[2];
  OutPath = argv[3];
  std::string In = argv[4];
  std::vector<std::string> Cmd = {"clang++"};
  for (int i = 6; i < argc; ++i) Cmd.push_back(argv[i]);
  Cmd.push_back("-fsyntax-only");
  Cmd.push_back(In);
  llvm::IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions()));
  tooling::ToolInvocation Inv(Cmd, std::make_unique<Action>(), FM.get());
  return Inv.run() ? 0 : 1;
}
