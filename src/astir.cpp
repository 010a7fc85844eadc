// astir: parses one translation unit with clang and prints, as JSON, a normalised
// typed syntax tree ("AST-IR") of every function body, record, global variable that
// is defined in a file below a given root directory.  Template instantiations are
// emitted (dependent patterns are not), implicit conversions are made explicit, calls
// carry the resolved callee.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/Attr.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string OutFile;

namespace {
class Emitter {
public:
  ASTContext& C;
  SourceManager& SM;
  PrintingPolicy PP;
  std::map<const Decl*, int> DeclIds;
  std::map<std::string, int> TypeIdx;
  json::Array Types;
  std::vector<std::string> Files;
  std::map<std::string, int> FileIdx;
  json::Array Functions, Records, Globals;
  std::set<std::string> SeenF;
  std::set<const void*> SeenR;
  std::vector<const CXXRecordDecl*> LambdaStack;

  explicit Emitter(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts())
  {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.FullyQualifiedName = true;
  }

  int declId(const Decl* d)
  {
    d = d->getCanonicalDecl();
    auto it = DeclIds.find(d);
    if (it != DeclIds.end()) return it->second;
    int n = (int)DeclIds.size() + 1;
    DeclIds[d] = n;
    return n;
  }

  std::string locFile(SourceLocation L)
  {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L, false);
    if (P.isInvalid()) return "";
    return P.getFilename();
  }
  bool inRoots(const std::string& f)
  {
    for (auto& r : Roots)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  int fileIdx(const std::string& f)
  {
    auto it = FileIdx.find(f);
    if (it != FileIdx.end()) return it->second;
    int n = Files.size();
    Files.push_back(f);
    FileIdx[f] = n;
    return n;
  }
  void putLoc(json::Object& o, SourceLocation L)
  {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L, false);
    if (P.isInvalid()) return;
    o["l"] = (int64_t)P.getLine();
    o["c"] = (int64_t)P.getColumn();
    o["fi"] = fileIdx(P.getFilename());
  }

  int typeIdx(QualType T)
  {
    if (T.isNull()) return -1;
    T = T.getCanonicalType();
    std::string s = T.getAsString(PP);
    auto it = TypeIdx.find(s);
    if (it != TypeIdx.end()) return it->second;
    int n = TypeIdx.size();
    TypeIdx[s] = n;
    Types.push_back(json::Object{});
    json::Object o;
    o["s"] = s;
    QualType U = T;
    if (T->isReferenceType()) {
      o["ref"] = T->isLValueReferenceType() ? "l" : "r";
      U = T->getPointeeType();
      o["to"] = typeIdx(U);
    }
    if (U.isConstQualified()) o["const"] = true;
    if (!T->isReferenceType()) {
      if (T->isDependentType()) o["k"] = "dep";
      else if (T->isBooleanType()) o["k"] = "bool";
      else if (T->isEnumeralType()) {
        o["k"] = "enum";
        if (auto* ET = T->getAs<EnumType>()) o["name"] = ET->getDecl()->getQualifiedNameAsString();
      } else if (T->isIntegerType()) {
        o["k"] = "int";
        o["w"] = (int64_t)C.getTypeSize(T);
        o["sg"] = T->isSignedIntegerType();
      } else if (T->isFloatingType()) {
        o["k"] = "float";
        o["w"] = (int64_t)C.getTypeSize(T);
      } else if (T->isPointerType()) {
        o["k"] = "ptr";
        o["to"] = typeIdx(T->getPointeeType());
      } else if (T->isArrayType()) {
        o["k"] = "arr";
        o["to"] = typeIdx(C.getAsArrayType(T)->getElementType());
        if (auto* CA = C.getAsConstantArrayType(T)) o["n"] = (int64_t)CA->getSize().getZExtValue();
      } else if (auto* RD = T->getAsCXXRecordDecl()) {
        o["k"] = "rec";
        o["name"] = RD->getQualifiedNameAsString();
        if (RD->isLambda()) o["lambda"] = declId(RD);
        if (auto* CTS = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
          json::Array a;
          for (auto& A : CTS->getTemplateArgs().asArray()) addTArg(a, A);
          o["targs"] = std::move(a);
        }
        if (RD->hasDefinition()) {
          json::Array b;
          for (auto& B : RD->bases()) b.push_back(typeIdx(B.getType()));
          if (!b.empty()) o["bases"] = std::move(b);
        }
      } else if (T->isFunctionType()) o["k"] = "func";
      else if (T->isMemberPointerType()) o["k"] = "mptr";
      else if (T->isVoidType()) o["k"] = "void";
      else o["k"] = "other";
    } else o["k"] = "ref";
    Types[n] = std::move(o);
    return n;
  }
  void addTArg(json::Array& a, const TemplateArgument& A)
  {
    switch (A.getKind()) {
      case TemplateArgument::Type: a.push_back(json::Object{ { "t", typeIdx(A.getAsType()) } }); break;
      case TemplateArgument::Integral:
        a.push_back(json::Object{ { "i", A.getAsIntegral().getExtValue() } });
        break;
      case TemplateArgument::Pack:
        for (auto& X : A.pack_elements()) addTArg(a, X);
        break;
      default: a.push_back(json::Object{ { "o", true } });
    }
  }

  std::string funcKey(const FunctionDecl* F)
  {
    F = F->getCanonicalDecl();
    std::string s;
    llvm::raw_string_ostream os(s);
    F->getNameForDiagnostic(os, PP, true);
    os << "|" << F->getType().getCanonicalType().getAsString(PP);
    // lambda / local classes / internal linkage: make unique by location
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->getParent()->isLambda() || M->getParent()->isLocalClass()) {
        auto P = SM.getPresumedLoc(SM.getExpansionLoc(F->getLocation()));
        if (P.isValid()) os << "@" << P.getFilename() << ":" << P.getLine() << ":" << P.getColumn() << "#" << declId(M->getParent());
      }
    } else if (F->getStorageClass() == SC_Static || F->isInAnonymousNamespace()) {
      os << "@" << SM.getFilename(SM.getExpansionLoc(F->getLocation()));
    }
    os.flush();
    return s;
  }

  json::Object base(const char* k, const Expr* E)
  {
    json::Object o;
    o["k"] = k;
    o["t"] = typeIdx(E->getType());
    putLoc(o, E->getExprLoc().isValid() ? E->getExprLoc() : E->getBeginLoc());
    addConst(o, E);
    return o;
  }
  void addConst(json::Object& o, const Expr* E)
  {
    if (E->isValueDependent() || E->isTypeDependent()) return;
    QualType T = E->getType();
    if (!(T->isIntegralOrEnumerationType())) {
      return;
    }
    if (!E->isPRValue()) {
      // const globals / constexpr locals
    }
    Expr::EvalResult R;
    if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
      auto V = R.Val.getInt();
      if (V.getSignificantBits() <= 63 || (V.isUnsigned() && V.getActiveBits() <= 63))
        o["cv"] = V.isUnsigned() ? (int64_t)V.getZExtValue() : V.getSExtValue();
      else { llvm::SmallString<32> S; V.toString(S, 10); o["cvs"] = S.str().str(); }
    }
  }

  json::Value exprOrNull(const Expr* E)
  {
    if (!E) return nullptr;
    return expr(E);
  }
  json::Array args(ArrayRef<const Expr*> A)
  {
    json::Array r;
    for (auto* a : A) r.push_back(expr(a));
    return r;
  }
  template <class It> json::Array argsR(It b, It e)
  {
    json::Array r;
    for (; b != e; ++b) r.push_back(expr(*b));
    return r;
  }

  void putCallee(json::Object& o, const FunctionDecl* F)
  {
    if (!F) return;
    o["f"] = F->getQualifiedNameAsString();
    o["key"] = funcKey(F);
    if (F->isOverloadedOperator()) o["op"] = getOperatorSpelling(F->getOverloadedOperator());
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = M->getParent()->getQualifiedNameAsString();
      if (M->isVirtual()) o["virt"] = true;
      if (M->isConst()) o["cm"] = true;
      if (M->isStatic()) o["st"] = true;
      if (M->getParent()->isLambda()) o["lam"] = declId(M->getParent());
    }
    json::Array pt;
    for (auto* P : F->parameters()) pt.push_back(typeIdx(P->getType()));
    o["pt"] = std::move(pt);
    if (auto* TA = F->getTemplateSpecializationArgs()) {
      json::Array a;
      for (auto& A : TA->asArray()) addTArg(a, A);
      o["targs"] = std::move(a);
    }
    if (auto* FPT = F->getType()->getAs<FunctionProtoType>())
      if (FPT->isNothrow()) o["nx"] = true;
  }

  json::Value lambda(const LambdaExpr* L)
  {
    json::Object o = base("lambda", L);
    o["id"] = declId(L->getLambdaClass());
    json::Array caps;
    auto ie = L->capture_init_begin();
    for (auto& c : L->captures()) {
      json::Object co;
      const Expr* init = *ie++;
      if (c.capturesThis()) {
        co["this"] = true;
        co["ref"] = c.getCaptureKind() == LCK_This;
      } else if (c.capturesVariable()) {
        co["id"] = declId(c.getCapturedVar());
        co["n"] = c.getCapturedVar()->getNameAsString();
        co["ref"] = c.getCaptureKind() == LCK_ByRef;
        co["vt"] = typeIdx(c.getCapturedVar()->getType());
        if (auto* VD = dyn_cast<VarDecl>(c.getCapturedVar()))
          if (VD->isInitCapture()) co["init"] = exprOrNull(VD->getInit());
        (void)init;
      }
      caps.push_back(std::move(co));
    }
    o["caps"] = std::move(caps);
    const CXXMethodDecl* M = L->getCallOperator();
    if (M) {
      if (M->getDescribedFunctionTemplate()) {
        json::Array sp;
        for (auto* S : M->getDescribedFunctionTemplate()->specializations())
          if (S->hasBody() || S->isDefined()) {
            const FunctionDecl* D = nullptr;
            if (S->getBody(D)) sp.push_back(funcObj(D));
          }
        o["specs"] = std::move(sp);
      } else {
        o["fn"] = funcObj(M);
      }
    }
    return std::move(o);
  }

  json::Value expr(const Expr* E)
  {
    if (!E) return nullptr;
    // transparent wrappers
    while (true) {
      if (auto* X = dyn_cast<ParenExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto* X = dyn_cast<ExprWithCleanups>(E)) { E = X->getSubExpr(); continue; }
      if (auto* X = dyn_cast<MaterializeTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto* X = dyn_cast<CXXBindTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto* X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = X->getReplacement(); continue; }
      if (auto* X = dyn_cast<ConstantExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto* X = dyn_cast<CXXDefaultArgExpr>(E)) {
        json::Object o = base("defarg", E);
        o["e"] = expr(X->getExpr());
        return std::move(o);
      }
      if (auto* X = dyn_cast<CXXDefaultInitExpr>(E)) { E = X->getExpr(); continue; }
      if (auto* X = dyn_cast<CXXStdInitializerListExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto* X = dyn_cast<OpaqueValueExpr>(E)) { if (!X->getSourceExpr()) break; E = X->getSourceExpr(); continue; }
      if (auto* X = dyn_cast<ImplicitCastExpr>(E)) {
        switch (X->getCastKind()) {
          case CK_IntegralCast:
          case CK_FloatingToIntegral:
          case CK_IntegralToFloating:
          case CK_FloatingCast:
          case CK_IntegralToBoolean:
          case CK_FloatingToBoolean:
          case CK_PointerToBoolean: {
            json::Object o = base("cast", E);
            o["ck"] = X->getCastKindName();
            o["e"] = expr(X->getSubExpr());
            return std::move(o);
          }
          default: E = X->getSubExpr(); continue;
        }
      }
      break;
    }
    if (auto* X = dyn_cast<ExplicitCastExpr>(E)) {
      json::Object o = base("cast", E);
      o["ck"] = X->getCastKindName();
      o["ex"] = true;
      o["e"] = expr(X->getSubExpr());
      return std::move(o);
    }
    if (auto* X = dyn_cast<IntegerLiteral>(E)) { (void)X; return base("lit", E); }
    if (auto* X = dyn_cast<CXXBoolLiteralExpr>(E)) { json::Object o = base("lit", E); o["cv"] = X->getValue() ? 1 : 0; return std::move(o); }
    if (isa<CharacterLiteral>(E)) return base("lit", E);
    if (auto* X = dyn_cast<FloatingLiteral>(E)) {
      json::Object o = base("flit", E);
      o["v"] = X->getValueAsApproximateDouble();
      return std::move(o);
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return base("null", E);
    if (auto* X = dyn_cast<StringLiteral>(E)) {
      json::Object o = base("str", E);
      if (X->getCharByteWidth() == 1) { std::string s = X->getString().str(); if (json::isUTF8(s)) o["v"] = s; else o["v"] = "?"; }
      return std::move(o);
    }
    if (auto* X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl* D = X->getDecl();
      if (auto* F = dyn_cast<FunctionDecl>(D)) {
        json::Object o = base("fref", E);
        putCallee(o, F);
        return std::move(o);
      }
      if (auto* EC = dyn_cast<EnumConstantDecl>(D)) {
        json::Object o = base("enumc", E);
        o["n"] = EC->getQualifiedNameAsString();
        o["cv"] = EC->getInitVal().getExtValue();
        return std::move(o);
      }
      if (auto* FD = dyn_cast<FieldDecl>(D)) {
        json::Object o = base("fieldref", E);
        o["n"] = FD->getNameAsString();
        o["cls"] = FD->getParent()->getQualifiedNameAsString();
        return std::move(o);
      }
      if (auto* BD = dyn_cast<BindingDecl>(D)) {
        if (auto* HV = BD->getHoldingVar()) {
          json::Object o = base("var", E);
          o["id"] = declId(HV); o["n"] = BD->getNameAsString(); o["sc"] = "local";
          return std::move(o);
        }
        if (BD->getBinding()) return expr(BD->getBinding());
      }
      json::Object o = base("var", E);
      o["id"] = declId(D);
      o["n"] = D->getNameAsString();
      o["vt"] = typeIdx(D->getType());
      if (auto* VD = dyn_cast<VarDecl>(D)) {
        if (isa<ParmVarDecl>(VD)) o["sc"] = "param";
        else if (VD->isStaticDataMember()) { o["sc"] = "static"; o["n"] = VD->getQualifiedNameAsString(); }
        else if (VD->isFileVarDecl()) { o["sc"] = "global"; o["n"] = VD->getQualifiedNameAsString(); }
        else if (VD->isStaticLocal()) o["sc"] = "slocal";
        else o["sc"] = "local";
      }
      return std::move(o);
    }
    if (auto* X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl* D = X->getMemberDecl();
      if (auto* F = dyn_cast<FunctionDecl>(D)) {
        json::Object o = base("mref", E);
        putCallee(o, F);
        o["b"] = expr(X->getBase());
        o["arrow"] = X->isArrow();
        return std::move(o);
      }
      if (auto* VD = dyn_cast<VarDecl>(D)) {
        json::Object o = base("var", E);
        o["id"] = declId(VD);
        o["n"] = VD->getQualifiedNameAsString();
        o["sc"] = "static";
        return std::move(o);
      }
      json::Object o = base("mem", E);
      o["n"] = D->getNameAsString();
      o["id"] = declId(D);
      if (auto* FD = dyn_cast<FieldDecl>(D)) o["cls"] = FD->getParent()->getQualifiedNameAsString();
      o["arrow"] = X->isArrow();
      o["b"] = expr(X->getBase());
      o["bt"] = typeIdx(X->getBase()->getType());
      return std::move(o);
    }
    if (auto* X = dyn_cast<CXXThisExpr>(E)) {
      json::Object o = base("this", E);
      if (X->isImplicit()) o["impl"] = true;
      return std::move(o);
    }
    if (auto* X = dyn_cast<ArraySubscriptExpr>(E)) {
      json::Object o = base("idx", E);
      o["b"] = expr(X->getBase());
      o["i"] = expr(X->getIdx());
      return std::move(o);
    }
    if (auto* X = dyn_cast<UnaryOperator>(E)) {
      json::Object o = base("un", E);
      switch (X->getOpcode()) {
        case UO_PostInc: o["op"] = "p++"; break;
        case UO_PostDec: o["op"] = "p--"; break;
        default: o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      }
      o["e"] = expr(X->getSubExpr());
      return std::move(o);
    }
    if (auto* X = dyn_cast<BinaryOperator>(E)) {
      json::Object o = base(X->isAssignmentOp() ? "asg" : "bin", E);
      o["op"] = X->getOpcodeStr().str();
      o["a"] = expr(X->getLHS());
      o["b"] = expr(X->getRHS());
      if (auto* CA = dyn_cast<CompoundAssignOperator>(X)) {
        o["clt"] = typeIdx(CA->getComputationLHSType());
        o["crt"] = typeIdx(CA->getComputationResultType());
      }
      return std::move(o);
    }
    if (auto* X = dyn_cast<AbstractConditionalOperator>(E)) {
      json::Object o = base("cond", E);
      o["c"] = expr(X->getCond());
      o["a"] = expr(X->getTrueExpr());
      o["b"] = expr(X->getFalseExpr());
      return std::move(o);
    }
    if (auto* X = dyn_cast<CXXOperatorCallExpr>(E)) {
      json::Object o = base("call", E);
      const FunctionDecl* F = X->getDirectCallee();
      putCallee(o, F);
      o["op"] = getOperatorSpelling(X->getOperator());
      if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) {
        o["obj"] = expr(X->getArg(0));
        json::Array a;
        for (unsigned i = 1; i < X->getNumArgs(); ++i) a.push_back(expr(X->getArg(i)));
        o["args"] = std::move(a);
      } else o["args"] = argsR(X->arg_begin(), X->arg_end());
      return std::move(o);
    }
    if (auto* X = dyn_cast<CXXMemberCallExpr>(E)) {
      json::Object o = base("call", E);
      putCallee(o, X->getDirectCallee());
      const Expr* cal = X->getCallee()->IgnoreParens();
      if (auto* ME = dyn_cast<MemberExpr>(cal)) {
        o["obj"] = expr(ME->getBase());
        o["arrow"] = ME->isArrow();
        if (ME->hasQualifier()) o["qual"] = true;
      } else {
        o["fe"] = expr(cal);
      }
      o["args"] = argsR(X->arg_begin(), X->arg_end());
      return std::move(o);
    }
    if (auto* X = dyn_cast<CallExpr>(E)) {
      json::Object o = base("call", E);
      const FunctionDecl* F = X->getDirectCallee();
      if (F) putCallee(o, F);
      else o["fe"] = expr(X->getCallee());
      o["args"] = argsR(X->arg_begin(), X->arg_end());
      return std::move(o);
    }
    if (auto* X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      json::Object o = base("ctor", E);
      putCallee(o, X->getConstructor());
      o["args"] = json::Array{};
      return std::move(o);
    }
    if (auto* X = dyn_cast<CXXConstructExpr>(E)) {
      json::Object o = base("ctor", E);
      auto* CD = X->getConstructor();
      putCallee(o, CD);
      if (CD->isCopyConstructor()) o["copy"] = true;
      if (CD->isMoveConstructor()) o["move"] = true;
      if (CD->isDefaultConstructor()) o["dflt"] = true;
      if (X->isElidable()) o["elid"] = true;
      if (X->isListInitialization()) o["list"] = true;
      if (isa<CXXTemporaryObjectExpr>(X)) o["temp"] = true;
      if (CD->isImplicit() || CD->isDefaulted()) o["triv"] = true;
      o["args"] = argsR(X->arg_begin(), X->arg_end());
      return std::move(o);
    }
    if (auto* X = dyn_cast<LambdaExpr>(E)) return lambda(X);
    if (auto* X = dyn_cast<CXXNewExpr>(E)) {
      json::Object o = base("new", E);
      o["at"] = typeIdx(X->getAllocatedType());
      if (X->isArray()) {
        o["arr"] = true;
        if (auto S = X->getArraySize()) o["n"] = expr(*S);
      }
      if (X->getInitializer()) o["init"] = expr(X->getInitializer());
      if (X->getConstructExpr() && !X->getInitializer()) o["init"] = expr(X->getConstructExpr());
      return std::move(o);
    }
    if (auto* X = dyn_cast<CXXDeleteExpr>(E)) {
      json::Object o = base("delete", E);
      o["arr"] = X->isArrayForm();
      o["e"] = expr(X->getArgument());
      return std::move(o);
    }
    if (auto* X = dyn_cast<CXXThrowExpr>(E)) {
      json::Object o = base("throw", E);
      o["e"] = exprOrNull(X->getSubExpr());
      if (X->getSubExpr()) o["et"] = typeIdx(X->getSubExpr()->getType());
      return std::move(o);
    }
    if (auto* X = dyn_cast<InitListExpr>(E)) {
      json::Object o = base("init", E);
      json::Array a;
      const InitListExpr* S = X->isSemanticForm() ? X : X->getSemanticForm();
      if (!S) S = X;
      for (unsigned i = 0; i < S->getNumInits(); ++i) a.push_back(expr(S->getInit(i)));
      o["args"] = std::move(a);
      if (S->hasArrayFiller()) o["fill"] = true;
      return std::move(o);
    }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) return base("zero", E);
    if (auto* X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      json::Object o = base("sizeof", E);
      o["of"] = typeIdx(X->getTypeOfArgument());
      return std::move(o);
    }
    if (auto* X = dyn_cast<CXXPseudoDestructorExpr>(E)) { json::Object o = base("other", E); o["cn"] = "pseudo-dtor"; o["e"] = expr(X->getBase()); return std::move(o); }
    if (auto* X = dyn_cast<PredefinedExpr>(E)) { (void)X; return base("str", E); }
    if (auto* X = dyn_cast<StmtExpr>(E)) {
      json::Object o = base("stmtexpr", E);
      o["s"] = stmt(X->getSubStmt());
      return std::move(o);
    }
    json::Object o = base("other", E);
    o["cn"] = E->getStmtClassName();
    json::Array a;
    for (auto* ch : E->children())
      if (auto* ce = dyn_cast_or_null<Expr>(ch)) a.push_back(expr(ce));
    o["args"] = std::move(a);
    return std::move(o);
  }

  json::Value varDecl(const VarDecl* V)
  {
    json::Object o;
    o["id"] = declId(V);
    o["n"] = V->getNameAsString();
    o["t"] = typeIdx(V->getType());
    putLoc(o, V->getLocation());
    if (V->isStaticLocal()) o["static"] = true;
    if (V->hasInit()) o["init"] = expr(V->getInit());
    if (auto* DD = dyn_cast<DecompositionDecl>(V)) {
      json::Array b;
      for (auto* B : DD->bindings()) {
        json::Object bo;
        bo["n"] = B->getNameAsString();
        if (auto* HV = B->getHoldingVar()) { bo["id"] = declId(HV); if (HV->hasInit()) bo["init"] = expr(HV->getInit()); }
        else { bo["id"] = declId(B); }
        b.push_back(std::move(bo));
      }
      o["bind"] = std::move(b);
    }
    return std::move(o);
  }

  json::Value stmtOrNull(const Stmt* S) { if (!S) return nullptr; return stmt(S); }
  json::Object sbase(const char* k, const Stmt* S)
  {
    json::Object o;
    o["k"] = k;
    putLoc(o, S->getBeginLoc());
    return o;
  }
  json::Value stmt(const Stmt* S)
  {
    if (!S) return nullptr;
    if (auto* E = dyn_cast<Expr>(S)) {
      json::Object o = sbase("expr", S);
      o["e"] = expr(E);
      return std::move(o);
    }
    if (auto* X = dyn_cast<CompoundStmt>(S)) {
      json::Object o = sbase("block", S);
      json::Array a;
      for (auto* c : X->body()) a.push_back(stmt(c));
      o["b"] = std::move(a);
      return std::move(o);
    }
    if (auto* X = dyn_cast<DeclStmt>(S)) {
      json::Object o = sbase("decl", S);
      json::Array a;
      for (auto* d : X->decls())
        if (auto* V = dyn_cast<VarDecl>(d)) a.push_back(varDecl(V));
      o["v"] = std::move(a);
      return std::move(o);
    }
    if (auto* X = dyn_cast<IfStmt>(S)) {
      json::Object o = sbase("if", S);
      if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) o["cvar"] = varDecl(X->getConditionVariable());
      o["c"] = expr(X->getCond());
      o["a"] = stmtOrNull(X->getThen());
      o["b"] = stmtOrNull(X->getElse());
      return std::move(o);
    }
    if (auto* X = dyn_cast<ForStmt>(S)) {
      json::Object o = sbase("for", S);
      o["id"] = declId2(S);
      o["init"] = stmtOrNull(X->getInit());
      o["c"] = exprOrNull(X->getCond());
      o["inc"] = exprOrNull(X->getInc());
      o["b"] = stmtOrNull(X->getBody());
      return std::move(o);
    }
    if (auto* X = dyn_cast<WhileStmt>(S)) {
      json::Object o = sbase("while", S);
      o["id"] = declId2(S);
      o["c"] = exprOrNull(X->getCond());
      o["b"] = stmtOrNull(X->getBody());
      return std::move(o);
    }
    if (auto* X = dyn_cast<DoStmt>(S)) {
      json::Object o = sbase("do", S);
      o["id"] = declId2(S);
      o["c"] = exprOrNull(X->getCond());
      o["b"] = stmtOrNull(X->getBody());
      return std::move(o);
    }
    if (auto* X = dyn_cast<CXXForRangeStmt>(S)) {
      json::Object o = sbase("rfor", S);
      o["id"] = declId2(S);
      o["var"] = varDecl(X->getLoopVariable());
      o["range"] = exprOrNull(X->getRangeInit());
      o["b"] = stmtOrNull(X->getBody());
      return std::move(o);
    }
    if (auto* X = dyn_cast<ReturnStmt>(S)) {
      json::Object o = sbase("ret", S);
      o["e"] = exprOrNull(X->getRetValue());
      return std::move(o);
    }
    if (isa<BreakStmt>(S)) return sbase("break", S);
    if (isa<ContinueStmt>(S)) return sbase("continue", S);
    if (isa<NullStmt>(S)) return sbase("nop", S);
    if (auto* X = dyn_cast<SwitchStmt>(S)) {
      json::Object o = sbase("switch", S);
      o["c"] = exprOrNull(X->getCond());
      o["b"] = stmtOrNull(X->getBody());
      return std::move(o);
    }
    if (auto* X = dyn_cast<CaseStmt>(S)) {
      json::Object o = sbase("case", S);
      o["v"] = exprOrNull(X->getLHS());
      if (X->getRHS()) o["v2"] = expr(X->getRHS());
      o["b"] = stmtOrNull(X->getSubStmt());
      return std::move(o);
    }
    if (auto* X = dyn_cast<DefaultStmt>(S)) {
      json::Object o = sbase("default", S);
      o["b"] = stmtOrNull(X->getSubStmt());
      return std::move(o);
    }
    if (auto* X = dyn_cast<CXXTryStmt>(S)) {
      json::Object o = sbase("try", S);
      o["b"] = stmt(X->getTryBlock());
      json::Array h;
      for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
        auto* H = X->getHandler(i);
        json::Object ho;
        putLoc(ho, H->getBeginLoc());
        if (H->getExceptionDecl()) { ho["t"] = typeIdx(H->getExceptionDecl()->getType()); ho["var"] = varDecl(H->getExceptionDecl()); }
        else ho["all"] = true;
        ho["b"] = stmt(H->getHandlerBlock());
        h.push_back(std::move(ho));
      }
      o["h"] = std::move(h);
      return std::move(o);
    }
    if (auto* X = dyn_cast<LabelStmt>(S)) { json::Object o = sbase("label", S); o["n"] = X->getName(); o["b"] = stmt(X->getSubStmt()); return std::move(o); }
    if (auto* X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    json::Object o = sbase("otherstmt", S);
    o["cn"] = S->getStmtClassName();
    return std::move(o);
  }
  std::map<const Stmt*, int> StmtIds;
  int declId2(const Stmt* S)
  {
    auto it = StmtIds.find(S);
    if (it != StmtIds.end()) return it->second;
    int n = StmtIds.size() + 1;
    StmtIds[S] = n;
    return n;
  }

  json::Object funcObj(const FunctionDecl* F)
  {
    json::Object o;
    putCallee(o, F);
    o["name"] = F->getNameAsString();
    o["rt"] = typeIdx(F->getReturnType());
    putLoc(o, F->getLocation());
    o["endl"] = (int64_t)SM.getPresumedLoc(SM.getExpansionLoc(F->getEndLoc())).getLine();
    json::Array ps;
    for (auto* P : F->parameters()) {
      json::Object po;
      po["id"] = declId(P);
      po["n"] = P->getNameAsString();
      po["t"] = typeIdx(P->getType());
      ps.push_back(std::move(po));
    }
    o["params"] = std::move(ps);
    if (auto* CD = dyn_cast<CXXConstructorDecl>(F)) {
      o["isctor"] = true;
      json::Array in;
      for (auto* I : CD->inits()) {
        json::Object io;
        if (I->isMemberInitializer()) { io["n"] = I->getMember()->getNameAsString(); io["id"] = declId(I->getMember()); }
        else if (I->isBaseInitializer()) io["base"] = typeIdx(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) io["deleg"] = true;
        else if (I->isIndirectMemberInitializer()) io["n"] = I->getIndirectMember()->getNameAsString();
        io["w"] = I->isWritten();
        io["e"] = exprOrNull(I->getInit());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    if (isa<CXXDestructorDecl>(F)) o["isdtor"] = true;
    if (F->isDefaulted()) o["defaulted"] = true;
    const FunctionDecl* D = nullptr;
    if (F->isThisDeclarationADefinition() && F->doesThisDeclarationHaveABody() && F->getBody()) o["body"] = stmt(F->getBody());
    else if (auto* B = F->getBody(D)) {
      // parameters of the defining declaration
      json::Array ps2;
      for (auto* P : D->parameters()) {
        json::Object po;
        po["id"] = declId(P);
        po["n"] = P->getNameAsString();
        po["t"] = typeIdx(P->getType());
        ps2.push_back(std::move(po));
      }
      o["params"] = std::move(ps2);
      o["body"] = stmt(B);
    }
    return o;
  }

  void addFunction(const FunctionDecl* F)
  {
    if (!F->doesThisDeclarationHaveABody()) return;
    if (F->isDependentContext()) return;
    if (F->getDescribedFunctionTemplate()) return;
    if (auto* M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) return; // emitted inside the lambda expression
    std::string f = locFile(F->getLocation());
    if (!inRoots(f)) return;
    std::string k = funcKey(F);
    if (!SeenF.insert(k).second) return;
    if (F->isImplicit()) return;
    Functions.push_back(funcObj(F));
  }
  void addRecord(const CXXRecordDecl* R)
  {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return;
    std::string f = locFile(R->getLocation());
    if (!inRoots(f)) return;
    if (!SeenR.insert(R).second) return;
    json::Object o;
    o["name"] = R->getQualifiedNameAsString();
    o["t"] = typeIdx(C.getRecordType(R));
    putLoc(o, R->getLocation());
    json::Array fs;
    for (auto* FD : R->fields()) {
      json::Object fo;
      fo["n"] = FD->getNameAsString();
      fo["id"] = declId(FD);
      fo["t"] = typeIdx(FD->getType());
      putLoc(fo, FD->getLocation());
      if (FD->hasInClassInitializer() && FD->getInClassInitializer()) fo["init"] = expr(FD->getInClassInitializer());
      if (FD->isMutable()) fo["mutable"] = true;
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    json::Array bs;
    for (auto& B : R->bases()) bs.push_back(typeIdx(B.getType()));
    o["bases"] = std::move(bs);
    if (auto* D = R->getDestructor()) {
      o["dtor"] = funcKey(D);
      o["dtor_user"] = D->isUserProvided();
      o["dtor_virtual"] = D->isVirtual();
    }
    json::Array ms;
    for (auto* M : R->methods()) {
      json::Object mo;
      mo["key"] = funcKey(M);
      mo["n"] = M->getNameAsString();
      if (M->isDeleted()) mo["deleted"] = true;
      if (M->isDefaulted()) mo["defaulted"] = true;
      if (M->isUserProvided()) mo["user"] = true;
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    Records.push_back(std::move(o));
  }
  void addEnum(const EnumDecl* E)
  {
    if (!E->isThisDeclarationADefinition()) return;
    std::string f = locFile(E->getLocation());
    if (!inRoots(f)) return;
    json::Object o;
    o["enum"] = E->getQualifiedNameAsString();
    json::Array a;
    for (auto* c : E->enumerators()) a.push_back(json::Object{ { "n", c->getNameAsString() }, { "v", c->getInitVal().getExtValue() } });
    o["vals"] = std::move(a);
    Records.push_back(std::move(o));
  }
  void addGlobal(const VarDecl* V)
  {
    if (V->isLocalVarDeclOrParm()) return;
    if (V->getDeclContext()->isDependentContext()) return;
    if (isa<VarTemplateDecl>(V) || V->getDescribedVarTemplate()) return;
    std::string f = locFile(V->getLocation());
    if (!inRoots(f)) return;
    json::Object o;
    if (auto v = varDecl(V); true) o = std::move(*v.getAsObject());
    o["n"] = V->getQualifiedNameAsString();
    Globals.push_back(std::move(o));
  }
  void finish(const std::string& main)
  {
    json::Object o;
    o["main"] = main;
    o["types"] = std::move(Types);
    json::Array fa;
    for (auto& f : Files) fa.push_back(f);
    o["files"] = std::move(fa);
    o["functions"] = std::move(Functions);
    o["records"] = std::move(Records);
    o["globals"] = std::move(Globals);
    std::error_code EC;
    llvm::raw_fd_ostream os(OutFile, EC);
    os << json::Value(std::move(o));
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  Emitter& Em;
  explicit Visitor(Emitter& e) : Em(e) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl* F) { Em.addFunction(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl* R) { Em.addRecord(R); return true; }
  bool VisitEnumDecl(EnumDecl* E) { Em.addEnum(E); return true; }
  bool VisitVarDecl(VarDecl* V) { Em.addGlobal(V); return true; }
};
class Consumer : public ASTConsumer {
  std::string Main;
public:
  explicit Consumer(std::string m) : Main(std::move(m)) {}
  void HandleTranslationUnit(ASTContext& C) override
  {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Emitter Em(C);
    Visitor V(Em);
    V.TraverseDecl(C.getTranslationUnitDecl());
    Em.finish(Main);
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef f) override
  {
    return std::make_unique<Consumer>(f.str());
  }
};
}

// usage: astir -root DIR [-root DIR] -o OUT file -- flags...
int main(int argc, char** argv)
{
  std::string file;
  std::vector<std::string> flags;
  int i = 1;
  for (; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--") { ++i; break; }
    if (a == "-root") Roots.push_back(argv[++i]);
    else if (a == "-o") OutFile = argv[++i];
    else file = a;
  }
  for (; i < argc; ++i) flags.push_back(argv[i]);
  std::ifstream in(file);
  if (!in) { llvm::errs() << "cannot read " << file << "\n"; return 2; }
  std::stringstream ss;
  ss << in.rdbuf();
  std::vector<std::string> cmd = flags;
  bool ok = clang::tooling::runToolOnCodeWithArgs(std::make_unique<Action>(), ss.str(), cmd, file, "clang-tool");
  return ok ? 0 : 1;
}
