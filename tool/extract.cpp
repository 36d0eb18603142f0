// bccx: dumps the type-checked program of one translation unit (functions whose
// definition lies under the repository root) as JSON for the analyses.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::string gRoot;
static std::string gExtra;
static std::string gOut;

namespace {

class Dumper {
public:
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> ids;
  json::Array functions, records, enums, globals;
  std::set<const Decl *> seen;

  Dumper(ASTContext &C)
      : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.Bool = true;
  }

  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = ids.find(D);
    if (it != ids.end())
      return it->second;
    int n = ids.size() + 1;
    ids[D] = n;
    return n;
  }

  std::string fileOf(SourceLocation L) {
    L = SM.getFileLoc(L);
    if (L.isInvalid())
      return "";
    auto F = SM.getFilename(L);
    llvm::SmallString<256> p(F);
    return std::string(p);
  }
  std::string loc(SourceLocation L) {
    L = SM.getFileLoc(L);
    if (L.isInvalid())
      return "";
    std::string f = fileOf(L);
    if (f.rfind(gRoot + "/", 0) == 0)
      f = f.substr(gRoot.size() + 1);
    return f + ":" + std::to_string(SM.getSpellingLineNumber(L));
  }
  bool inRepo(SourceLocation L) {
    std::string f = fileOf(L);
    if (f.rfind(gRoot + "/", 0) == 0 &&
        f.find("/_build") == std::string::npos &&
        f.find("/test/") == std::string::npos &&
        f.find("/mock/") == std::string::npos &&
        f.find("/third_party/") == std::string::npos)
      return true;
    if (!gExtra.empty() && f.rfind(gExtra, 0) == 0)
      return true;
    return false;
  }

  std::string usr(const Decl *D) {
    llvm::SmallString<256> b;
    if (index::generateUSRForDecl(D, b))
      return "";
    return std::string(b);
  }
  std::string fnKey(const FunctionDecl *F) {
    std::string k = usr(F->getCanonicalDecl());
    // specialisations: USR contains template args for specs already
    return k;
  }
  std::string type(QualType T) {
    if (T.isNull())
      return "";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string qn(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os);
    return os.str();
  }
  std::string recordName(const Type *T) {
    if (!T)
      return "";
    if (auto *R = T->getAsCXXRecordDecl())
      return qn(R);
    return "";
  }

  json::Object fnRef(const FunctionDecl *F) {
    json::Object o;
    o["usr"] = fnKey(F);
    o["qn"] = qn(F);
    o["name"] = F->getNameAsString();
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = qn(M->getParent());
      if (M->isVirtual())
        o["virt"] = true;
      if (M->isStatic())
        o["static"] = true;
      if (M->isConst())
        o["const"] = true;
      if (isa<CXXConversionDecl>(M))
        o["conv"] = true;
      if (M->getParent()->isLambda())
        o["lambda"] = id(M->getParent());
      if (M->isCopyAssignmentOperator() || M->isMoveAssignmentOperator())
        o["assignop"] = true;
    }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      if (CD->isCopyConstructor())
        o["ctor"] = "copy";
      else if (CD->isMoveConstructor())
        o["ctor"] = "move";
      else if (CD->isDefaultConstructor())
        o["ctor"] = "default";
      else
        o["ctor"] = "other";
    }
    if (F->isNoReturn())
      o["noreturn"] = true;
    if (const auto *FPT = F->getType()->getAs<FunctionProtoType>())
      if (isNoexceptExceptionSpec(FPT->getExceptionSpecType()))
        o["noexcept"] = true;
    if (inRepo(F->getLocation()))
      o["repo"] = true;
    json::Array pt;
    for (auto *P : F->parameters())
      pt.push_back(type(P->getType()));
    o["pt"] = std::move(pt);
    o["rt"] = type(F->getReturnType());
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      json::Array ta;
      for (auto &A : TA->asArray())
        targ(A, ta);
      o["ta"] = std::move(ta);
    }
    return o;
  }
  void targ(const TemplateArgument &A, json::Array &out) {
    switch (A.getKind()) {
    case TemplateArgument::Type:
      out.push_back(type(A.getAsType()));
      break;
    case TemplateArgument::Integral:
      out.push_back(llvm::toString(A.getAsIntegral(), 10));
      break;
    case TemplateArgument::Pack:
      for (auto &B : A.pack_elements())
        targ(B, out);
      break;
    default: {
      std::string s;
      llvm::raw_string_ostream os(s);
      A.print(PP, os, true);
      out.push_back(os.str());
    }
    }
  }

  json::Object K(const char *k, const Stmt *S) {
    json::Object o;
    o["k"] = k;
    if (S)
      o["l"] = loc(S->getBeginLoc());
    return o;
  }
  json::Value unk(const Stmt *S) {
    auto o = K("unk", S);
    o["c"] = S->getStmtClassName();
    json::Array ch;
    for (auto *c : S->children())
      if (c) {
        if (auto *e = dyn_cast<Expr>(c))
          ch.push_back(E(e));
        else
          ch.push_back(S_(c));
      }
    o["ch"] = std::move(ch);
    return o;
  }

  json::Value varRef(const ValueDecl *D) {
    json::Object o;
    o["id"] = id(D);
    o["name"] = D->getNameAsString();
    if (auto *V = dyn_cast<VarDecl>(D)) {
      if (V->hasGlobalStorage() && !V->isStaticLocal()) {
        o["g"] = qn(V);
        o["gk"] = usr(V->getCanonicalDecl());
      } else if (V->isStaticLocal()) {
        o["sl"] = true;
        o["gk"] = usr(V->getCanonicalDecl());
      }
    }
    o["t"] = type(D->getType());
    return o;
  }

  json::Value E(const Expr *X) {
    if (!X)
      return nullptr;
    // strip sugar
    while (true) {
      if (auto *P = dyn_cast<ParenExpr>(X)) {
        X = P->getSubExpr();
        continue;
      }
      if (auto *P = dyn_cast<ExprWithCleanups>(X)) {
        X = P->getSubExpr();
        continue;
      }
      if (auto *P = dyn_cast<MaterializeTemporaryExpr>(X)) {
        X = P->getSubExpr();
        continue;
      }
      if (auto *P = dyn_cast<CXXBindTemporaryExpr>(X)) {
        X = P->getSubExpr();
        continue;
      }
      if (auto *P = dyn_cast<ConstantExpr>(X)) {
        X = P->getSubExpr();
        continue;
      }
      if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(X)) {
        X = P->getReplacement();
        continue;
      }
      if (auto *P = dyn_cast<CXXDefaultArgExpr>(X)) {
        X = P->getExpr();
        continue;
      }
      if (auto *P = dyn_cast<CXXDefaultInitExpr>(X)) {
        X = P->getExpr();
        continue;
      }
      if (auto *P = dyn_cast<OpaqueValueExpr>(X)) {
        if (P->getSourceExpr()) {
          X = P->getSourceExpr();
          continue;
        }
      }
      break;
    }
    if (auto *L = dyn_cast<CXXBoolLiteralExpr>(X)) {
      auto o = K("lit", X);
      o["v"] = L->getValue();
      return o;
    }
    if (auto *L = dyn_cast<IntegerLiteral>(X)) {
      auto o = K("lit", X);
      o["v"] = (int64_t)L->getValue().getLimitedValue(INT64_MAX);
      return o;
    }
    if (auto *L = dyn_cast<CharacterLiteral>(X)) {
      auto o = K("lit", X);
      o["v"] = (int64_t)L->getValue();
      o["chr"] = true;
      return o;
    }
    if (auto *L = dyn_cast<StringLiteral>(X)) {
      auto o = K("lit", X);
      std::string s = L->isUnevaluated() || L->getCharByteWidth() == 1
                          ? L->getString().str()
                          : std::string("<wide>");
      if (!json::isUTF8(s))
        s = json::fixUTF8(s);
      o["v"] = s;
      o["str"] = true;
      return o;
    }
    if (auto *L = dyn_cast<PredefinedExpr>(X)) {
      auto o = K("lit", X);
      o["v"] = L->getFunctionName() ? L->getFunctionName()->getString().str()
                                    : std::string("");
      o["str"] = true;
      return o;
    }
    if (isa<FloatingLiteral>(X)) {
      auto o = K("lit", X);
      o["v"] = "float";
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(X) || isa<GNUNullExpr>(X)) {
      auto o = K("null", X);
      return o;
    }
    if (isa<CXXThisExpr>(X)) {
      auto o = K("this", X);
      o["t"] = type(X->getType());
      return o;
    }
    if (auto *D = dyn_cast<DeclRefExpr>(X)) {
      auto *V = D->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(V)) {
        auto o = K("enum", X);
        o["v"] = qn(EC);
        o["i"] = (int64_t)EC->getInitVal().getExtValue();
        return o;
      }
      if (auto *F = dyn_cast<FunctionDecl>(V)) {
        auto o = K("fn", X);
        o["fn"] = fnRef(F);
        return o;
      }
      if (auto *B = dyn_cast<BindingDecl>(V)) {
        auto o = K("bind", X);
        o["id"] = id(B);
        o["name"] = B->getNameAsString();
        return o;
      }
      auto o = K("var", X);
      o["d"] = varRef(V);
      return o;
    }
    if (auto *M = dyn_cast<MemberExpr>(X)) {
      auto *MD = M->getMemberDecl();
      if (auto *V = dyn_cast<VarDecl>(MD)) {
        auto o = K("var", X);
        o["d"] = varRef(V);
        return o;
      }
      if (auto *EC = dyn_cast<EnumConstantDecl>(MD)) {
        auto o = K("enum", X);
        o["v"] = qn(EC);
        o["i"] = (int64_t)EC->getInitVal().getExtValue();
        return o;
      }
      auto o = K("mem", X);
      o["b"] = E(M->getBase());
      o["arrow"] = M->isArrow();
      o["name"] = MD->getNameAsString();
      o["t"] = type(MD->getType());
      if (auto *F = dyn_cast<FunctionDecl>(MD)) {
        o["fn"] = fnRef(F);
      } else if (auto *FD = dyn_cast<FieldDecl>(MD)) {
        o["cls"] = qn(FD->getParent());
        if (inRepo(FD->getLocation()))
          o["repo"] = true;
      }
      return o;
    }
    if (auto *A = dyn_cast<ArraySubscriptExpr>(X)) {
      auto o = K("idx", X);
      o["b"] = E(A->getBase());
      o["i"] = E(A->getIdx());
      return o;
    }
    if (auto *U = dyn_cast<UnaryOperator>(X)) {
      if (U->getOpcode() == UO_AddrOf)
        if (auto *D = dyn_cast<DeclRefExpr>(U->getSubExpr()->IgnoreParens()))
          if (auto *FD = dyn_cast<FieldDecl>(D->getDecl())) {
            auto o = K("memptr", X);
            o["name"] = FD->getNameAsString();
            o["cls"] = qn(FD->getParent());
            return o;
          }
      auto o = K("un", X);
      o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      if (U->isPostfix())
        o["post"] = true;
      o["e"] = E(U->getSubExpr());
      return o;
    }
    if (auto *B = dyn_cast<BinaryOperator>(X)) {
      auto o = K(B->isAssignmentOp() ? "asg" : "bin", X);
      o["op"] = B->getOpcodeStr().str();
      o["a"] = E(B->getLHS());
      o["b"] = E(B->getRHS());
      o["t"] = type(B->getType());
      return o;
    }
    if (auto *T = dyn_cast<ConditionalOperator>(X)) {
      auto o = K("cond", X);
      o["c"] = E(T->getCond());
      o["a"] = E(T->getTrueExpr());
      o["b"] = E(T->getFalseExpr());
      return o;
    }
    if (auto *IC = dyn_cast<CastExpr>(X)) {
      switch (IC->getCastKind()) {
      case CK_IntegralToBoolean:
      case CK_PointerToBoolean: {
        auto o = K("tobool", X);
        o["e"] = E(IC->getSubExpr());
        return o;
      }
      case CK_ToVoid: {
        auto o = K("void", X);
        o["e"] = E(IC->getSubExpr());
        return o;
      }
      case CK_LValueToRValue: {
        auto o = K("load", X);
        o["e"] = E(IC->getSubExpr());
        return o;
      }
      case CK_NullToPointer:
      case CK_NullToMemberPointer: {
        auto o = K("null", X);
        return o;
      }
      case CK_Dynamic: {
        auto o = K("dyncast", X);
        o["e"] = E(IC->getSubExpr());
        o["t"] = type(X->getType());
        return o;
      }
      case CK_IntegralCast:
      case CK_IntegralToFloating:
      case CK_FloatingToIntegral: {
        QualType D = X->getType(), S = IC->getSubExpr()->getType();
        if (!D->isDependentType() && !S->isDependentType() &&
            !S->isEnumeralType() && !D->isEnumeralType() &&
            (IC->getCastKind() != CK_IntegralCast ||
             C.getTypeSize(D) < C.getTypeSize(S))) {
          auto o = K("narrow", X);
          o["e"] = E(IC->getSubExpr());
          o["t"] = type(D);
          return o;
        }
        return E(IC->getSubExpr());
      }
      case CK_UserDefinedConversion:
      case CK_ConstructorConversion:
      default:
        return E(IC->getSubExpr());
      }
    }
    if (auto *T = dyn_cast<CXXTypeidExpr>(X)) {
      auto o = K("typeid", X);
      if (T->isTypeOperand())
        o["t"] = type(T->getTypeOperand(C));
      else
        o["e"] = E(T->getExprOperand());
      return o;
    }
    if (auto *L = dyn_cast<LambdaExpr>(X))
      return lambda(L);
    if (auto *CE = dyn_cast<CXXOperatorCallExpr>(X)) {
      auto o = K("call", X);
      auto *F = CE->getDirectCallee();
      if (F)
        o["fn"] = fnRef(F);
      o["op"] = getOperatorSpelling(CE->getOperator());
      unsigned first = 0;
      bool isM = F && isa<CXXMethodDecl>(F) &&
                 !cast<CXXMethodDecl>(F)->isStatic();
      if (isM) {
        o["obj"] = E(CE->getArg(0));
        first = 1;
      }
      if (!F)
        o["callee"] = E(CE->getCallee());
      o["t"] = type(CE->getType());
      json::Array a, at;
      for (unsigned i = first; i < CE->getNumArgs(); i++) {
        a.push_back(E(CE->getArg(i)));
        at.push_back(type(CE->getArg(i)->getType()));
      }
      o["args"] = std::move(a);
      o["at"] = std::move(at);
      return o;
    }
    if (auto *CE = dyn_cast<CXXMemberCallExpr>(X)) {
      auto o = K("call", X);
      auto *M = CE->getMethodDecl();
      if (M)
        o["fn"] = fnRef(M);
      if (auto *ME = dyn_cast<MemberExpr>(CE->getCallee()->IgnoreParens())) {
        o["obj"] = E(ME->getBase());
        o["ot"] = type(ME->getBase()->getType());
        if (ME->isArrow())
          o["arrow"] = true;
        if (ME->hasQualifier())
          o["nonvirt"] = true;
      } else {
        o["callee"] = E(CE->getCallee());
      }
      o["t"] = type(CE->getType());
      json::Array a, at;
      for (auto *arg : CE->arguments()) {
        a.push_back(E(arg));
        at.push_back(type(arg->getType()));
      }
      o["args"] = std::move(a);
      o["at"] = std::move(at);
      return o;
    }
    if (auto *CE = dyn_cast<CallExpr>(X)) {
      auto o = K("call", X);
      auto *F = CE->getDirectCallee();
      if (F)
        o["fn"] = fnRef(F);
      else
        o["callee"] = E(CE->getCallee());
      o["t"] = type(CE->getType());
      json::Array a, at;
      for (auto *arg : CE->arguments()) {
        a.push_back(E(arg));
        at.push_back(type(arg->getType()));
      }
      o["args"] = std::move(a);
      o["at"] = std::move(at);
      return o;
    }
    if (auto *CE = dyn_cast<CXXConstructExpr>(X)) {
      auto o = K("ctor", X);
      o["cls"] = qn(CE->getConstructor()->getParent());
      o["fn"] = fnRef(CE->getConstructor());
      o["t"] = type(CE->getType());
      if (CE->isElidable())
        o["elide"] = true;
      json::Array a, at;
      for (auto *arg : CE->arguments()) {
        a.push_back(E(arg));
        at.push_back(type(arg->getType()));
      }
      o["args"] = std::move(a);
      o["at"] = std::move(at);
      return o;
    }
    if (auto *IE = dyn_cast<CXXInheritedCtorInitExpr>(X)) {
      auto o = K("ictor", X);
      o["fn"] = fnRef(IE->getConstructor());
      o["cls"] = qn(IE->getConstructor()->getParent());
      return o;
    }
    if (auto *IL = dyn_cast<InitListExpr>(X)) {
      auto o = K("ilist", X);
      o["t"] = type(IL->getType());
      json::Array a;
      for (auto *e : IL->inits())
        a.push_back(E(e));
      o["a"] = std::move(a);
      if (auto *RD = IL->getType()->getAsCXXRecordDecl()) {
        json::Array f;
        if (RD->isAggregate()) {
          for (auto &B : RD->bases())
            f.push_back("base:" + recordName(B.getType().getTypePtr()));
          for (auto *FD : RD->fields())
            f.push_back(FD->getNameAsString());
        }
        o["f"] = std::move(f);
      }
      return o;
    }
    if (auto *SI = dyn_cast<CXXStdInitializerListExpr>(X)) {
      auto *sub = SI->getSubExpr()->IgnoreImplicit();
      return E(sub);
    }
    if (auto *N = dyn_cast<CXXNewExpr>(X)) {
      auto o = K("new", X);
      o["t"] = type(N->getAllocatedType());
      o["init"] = E(N->getInitializer());
      return o;
    }
    if (auto *D = dyn_cast<CXXDeleteExpr>(X)) {
      auto o = K("delete", X);
      o["e"] = E(D->getArgument());
      return o;
    }
    if (auto *T = dyn_cast<CXXThrowExpr>(X)) {
      auto o = K("throw", X);
      o["e"] = E(T->getSubExpr());
      if (T->getSubExpr())
        o["t"] = type(T->getSubExpr()->getType());
      return o;
    }
    if (isa<ImplicitValueInitExpr>(X) || isa<CXXScalarValueInitExpr>(X)) {
      auto o = K("zero", X);
      o["t"] = type(X->getType());
      return o;
    }
    if (isa<UnaryExprOrTypeTraitExpr>(X) || isa<TypeTraitExpr>(X)) {
      Expr::EvalResult R;
      auto o = K("lit", X);
      if (!X->isValueDependent() && X->EvaluateAsInt(R, C))
        o["v"] = (int64_t)R.Val.getInt().getExtValue();
      else
        o["v"] = "?";
      return o;
    }
    return unk(X);
  }

  json::Value lambda(const LambdaExpr *L) {
    auto o = K("lambda", L);
    o["id"] = id(L->getLambdaClass());
    json::Array caps;
    for (auto it = L->capture_begin(); it != L->capture_end(); ++it) {
      json::Object c;
      if (it->capturesThis()) {
        c["this"] = true;
        c["byref"] = it->getCaptureKind() == LCK_This;
      } else if (it->capturesVariable()) {
        c["d"] = varRef(it->getCapturedVar());
        c["byref"] = it->getCaptureKind() == LCK_ByRef;
        if (auto *VD = dyn_cast<VarDecl>(it->getCapturedVar()))
          if (VD->isInitCapture())
            c["init"] = E(VD->getInit());
      }
      caps.push_back(std::move(c));
    }
    o["caps"] = std::move(caps);
    json::Array calls;
    auto *CO = L->getCallOperator();
    if (L->isGenericLambda()) {
      if (auto *FT = L->getLambdaClass()->getDependentLambdaCallOperator())
        for (auto *S : FT->specializations()) {
          if (S->hasBody() && S->getBody())
            calls.push_back(fnBody(S));
        }
      // nested lambdas inside dependent lambda: also dump the pattern
      if (calls.empty())
        calls.push_back(fnBody(CO));
    } else {
      calls.push_back(fnBody(CO));
    }
    o["ops"] = std::move(calls);
    return o;
  }

  json::Object fnBody(const FunctionDecl *F) {
    json::Object o;
    json::Array ps;
    for (auto *P : F->parameters()) {
      json::Object p;
      p["id"] = id(P);
      p["name"] = P->getNameAsString();
      p["t"] = type(P->getType());
      if (P->isParameterPack())
        p["pack"] = true;
      ps.push_back(std::move(p));
    }
    o["params"] = std::move(ps);
    o["rt"] = type(F->getReturnType());
    const Stmt *B = F->getBody();
    if (B)
      o["body"] = S_(B);
    return o;
  }

  json::Value decl(const VarDecl *V) {
    json::Object o;
    o["id"] = id(V);
    o["name"] = V->getNameAsString();
    o["t"] = type(V->getType());
    if (V->getType()->isReferenceType())
      o["ref"] = true;
    if (V->isStaticLocal()) {
      o["static"] = true;
      if (V->getTLSKind() != VarDecl::TLS_None)
        o["tls"] = true;
      o["gk"] = usr(V->getCanonicalDecl());
    }
    if (V->getInit())
      o["init"] = E(V->getInit());
    if (auto *D = dyn_cast<DecompositionDecl>(V)) {
      json::Array b;
      for (auto *B : D->bindings()) {
        json::Object bo;
        bo["id"] = id(B);
        bo["name"] = B->getNameAsString();
        if (auto *HV = B->getHoldingVar()) {
          bo["hv"] = E(HV->getInit());
        } else if (B->getBinding()) {
          bo["e"] = E(B->getBinding());
        }
        b.push_back(std::move(bo));
      }
      o["binds"] = std::move(b);
    }
    return o;
  }

  json::Value S_(const Stmt *S) {
    if (!S)
      return nullptr;
    if (auto *A = dyn_cast<AttributedStmt>(S))
      return S_(A->getSubStmt());
    if (auto *L = dyn_cast<LabelStmt>(S))
      return S_(L->getSubStmt());
    if (auto *Cs = dyn_cast<CompoundStmt>(S)) {
      auto o = K("seq", S);
      json::Array a;
      for (auto *c : Cs->body())
        a.push_back(S_(c));
      o["s"] = std::move(a);
      return o;
    }
    if (auto *D = dyn_cast<DeclStmt>(S)) {
      auto o = K("decl", S);
      json::Array a;
      for (auto *d : D->decls())
        if (auto *V = dyn_cast<VarDecl>(d))
          a.push_back(decl(V));
      o["v"] = std::move(a);
      return o;
    }
    if (auto *I = dyn_cast<IfStmt>(S)) {
      auto o = K("if", S);
      if (I->getInit())
        o["init"] = S_(I->getInit());
      if (auto *V = I->getConditionVariable())
        o["var"] = decl(V);
      if (I->isConstexpr()) {
        o["constexpr"] = true;
        Expr::EvalResult R;
        if (!I->getCond()->isValueDependent() &&
            I->getCond()->EvaluateAsInt(R, C))
          o["cv"] = R.Val.getInt().getBoolValue();
      }
      o["c"] = E(I->getCond());
      o["t"] = S_(I->getThen());
      o["e"] = S_(I->getElse());
      return o;
    }
    if (auto *W = dyn_cast<WhileStmt>(S)) {
      auto o = K("while", S);
      if (auto *V = W->getConditionVariable())
        o["var"] = decl(V);
      o["c"] = E(W->getCond());
      o["b"] = S_(W->getBody());
      return o;
    }
    if (auto *W = dyn_cast<DoStmt>(S)) {
      auto o = K("do", S);
      o["c"] = E(W->getCond());
      o["b"] = S_(W->getBody());
      return o;
    }
    if (auto *F = dyn_cast<ForStmt>(S)) {
      auto o = K("for", S);
      o["init"] = S_(F->getInit());
      o["c"] = E(F->getCond());
      o["inc"] = E(F->getInc());
      o["b"] = S_(F->getBody());
      return o;
    }
    if (auto *F = dyn_cast<CXXForRangeStmt>(S)) {
      auto o = K("rfor", S);
      if (F->getInit())
        o["init"] = S_(F->getInit());
      o["range"] = E(F->getRangeInit());
      if (F->getRangeInit())
        o["rt"] = type(F->getRangeInit()->getType());
      if (F->getLoopVariable())
        o["var"] = decl(F->getLoopVariable());
      o["b"] = S_(F->getBody());
      return o;
    }
    if (auto *W = dyn_cast<SwitchStmt>(S)) {
      auto o = K("switch", S);
      if (W->getInit())
        o["init"] = S_(W->getInit());
      o["c"] = E(W->getCond());
      // flatten body
      json::Array items;
      flattenSwitch(W->getBody(), items);
      o["items"] = std::move(items);
      return o;
    }
    if (isa<BreakStmt>(S))
      return K("break", S);
    if (isa<ContinueStmt>(S))
      return K("continue", S);
    if (auto *R = dyn_cast<ReturnStmt>(S)) {
      auto o = K("return", S);
      if (R->getRetValue())
        o["e"] = E(R->getRetValue());
      return o;
    }
    if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      auto o = K("try", S);
      o["b"] = S_(T->getTryBlock());
      json::Array h;
      for (unsigned i = 0; i < T->getNumHandlers(); i++) {
        auto *H = T->getHandler(i);
        json::Object ho;
        ho["l"] = loc(H->getBeginLoc());
        if (H->getExceptionDecl()) {
          ho["t"] = type(H->getCaughtType());
          ho["var"] = decl(H->getExceptionDecl());
        } else
          ho["all"] = true;
        ho["b"] = S_(H->getHandlerBlock());
        h.push_back(std::move(ho));
      }
      o["h"] = std::move(h);
      return o;
    }
    if (isa<NullStmt>(S))
      return K("nop", S);
    if (auto *X = dyn_cast<Expr>(S)) {
      auto o = K("expr", S);
      o["e"] = E(X);
      return o;
    }
    return unk(S);
  }
  void flattenSwitch(const Stmt *B, json::Array &items) {
    if (auto *Cs = dyn_cast_or_null<CompoundStmt>(B)) {
      for (auto *c : Cs->body())
        flattenItem(c, items);
    } else if (B)
      flattenItem(B, items);
  }
  void flattenItem(const Stmt *c, json::Array &items) {
    if (auto *CS = dyn_cast<CaseStmt>(c)) {
      json::Object o;
      o["case"] = E(CS->getLHS());
      items.push_back(std::move(o));
      if (CS->getSubStmt())
        flattenItem(CS->getSubStmt(), items);
    } else if (auto *D = dyn_cast<DefaultStmt>(c)) {
      json::Object o;
      o["default"] = true;
      items.push_back(std::move(o));
      if (D->getSubStmt())
        flattenItem(D->getSubStmt(), items);
    } else {
      json::Object o;
      o["s"] = S_(c);
      items.push_back(std::move(o));
    }
  }

  void function(const FunctionDecl *F) {
    if (F->isDependentContext())
      return;
    const FunctionDecl *Def = nullptr;
    if (!F->hasBody(Def) || F != Def)
      if (!(F->isThisDeclarationADefinition()))
        return;
    if (!inRepo(F->getLocation()))
      return;
    if (!seen.insert(F).second)
      return;
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda())
        return;
    if (F->isImplicit())
      return;
    json::Object o = fnBody(F);
    json::Object r = fnRef(F);
    for (auto &kv : r)
      o[kv.first] = std::move(kv.second);
    o["loc"] = loc(F->getLocation());
    if (F->isDefaulted())
      o["defaulted"] = true;
    if (F->isDeleted())
      o["deleted"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      json::Array ov;
      for (auto *B : M->overridden_methods())
        ov.push_back(fnKey(B));
      o["over"] = std::move(ov);
      switch (M->getAccess()) {
      case AS_public:
        o["acc"] = "public";
        break;
      case AS_protected:
        o["acc"] = "protected";
        break;
      default:
        o["acc"] = "private";
        break;
      }
    }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      json::Array in;
      for (auto *I : CD->inits()) {
        json::Object io;
        if (I->isAnyMemberInitializer()) {
          io["f"] = I->getAnyMember()->getNameAsString();
          io["t"] = type(I->getAnyMember()->getType());
        } else if (I->isBaseInitializer()) {
          io["base"] = recordName(I->getBaseClass());
        } else {
          io["deleg"] = true;
        }
        io["e"] = E(I->getInit());
        io["l"] = loc(I->getSourceLocation());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    functions.push_back(std::move(o));
  }

  void record(const CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() ||
        R->isLambda())
      return;
    if (!inRepo(R->getLocation()))
      return;
    if (!seen.insert(R).second)
      return;
    json::Object o;
    o["qn"] = qn(R);
    o["t"] = type(C.getRecordType(R));
    o["loc"] = loc(R->getLocation());
    json::Array b;
    for (auto &B : R->bases()) {
      json::Object bo;
      bo["t"] = type(B.getType());
      bo["qn"] = recordName(B.getType().getTypePtr());
      b.push_back(std::move(bo));
    }
    o["bases"] = std::move(b);
    json::Array f;
    for (auto *FD : R->fields()) {
      json::Object fo;
      fo["name"] = FD->getNameAsString();
      fo["t"] = type(FD->getType());
      fo["ref"] = FD->getType()->isReferenceType();
      if (FD->hasInClassInitializer() && FD->getInClassInitializer())
        fo["init"] = E(FD->getInClassInitializer());
      switch (FD->getAccess()) {
      case AS_public:
        fo["acc"] = "public";
        break;
      case AS_protected:
        fo["acc"] = "protected";
        break;
      default:
        fo["acc"] = "private";
        break;
      }
      f.push_back(std::move(fo));
    }
    o["fields"] = std::move(f);
    json::Array m;
    for (auto *MD : R->methods()) {
      json::Object mo = fnRef(MD);
      json::Array ov;
      for (auto *B : MD->overridden_methods())
        ov.push_back(fnKey(B));
      mo["over"] = std::move(ov);
      if (MD->isDeleted())
        mo["deleted"] = true;
      if (MD->isImplicit())
        mo["implicit"] = true;
      m.push_back(std::move(mo));
    }
    o["methods"] = std::move(m);
    records.push_back(std::move(o));
  }

  void enumd(const EnumDecl *D) {
    if (!D->isThisDeclarationADefinition() || !inRepo(D->getLocation()))
      return;
    if (!seen.insert(D).second)
      return;
    json::Object o;
    o["qn"] = qn(D);
    json::Array e;
    for (auto *EC : D->enumerators()) {
      json::Object eo;
      eo["name"] = qn(EC);
      eo["v"] = (int64_t)EC->getInitVal().getExtValue();
      e.push_back(std::move(eo));
    }
    o["e"] = std::move(e);
    enums.push_back(std::move(o));
  }

  void global(const VarDecl *V) {
    if (!V->hasGlobalStorage() || V->isStaticLocal())
      return;
    if (V->getDeclContext()->isDependentContext())
      return;
    if (!inRepo(V->getLocation()))
      return;
    const VarDecl *Def = V->getDefinition();
    if (!Def)
      Def = V;
    if (!seen.insert(Def).second)
      return;
    json::Object o;
    o["qn"] = qn(Def);
    o["gk"] = usr(Def->getCanonicalDecl());
    if (Def->getTLSKind() != VarDecl::TLS_None)
      o["tls"] = true;
    o["t"] = type(Def->getType());
    o["loc"] = loc(Def->getLocation());
    o["const"] = Def->getType().isConstQualified();
    if (const Expr *I = V->getAnyInitializer())
      o["init"] = E(I);
    globals.push_back(std::move(o));
  }
};

class V : public RecursiveASTVisitor<V> {
public:
  Dumper &D;
  V(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    D.function(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    D.record(R);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    D.enumd(E);
    return true;
  }
  bool VisitVarDecl(VarDecl *X) {
    D.global(X);
    return true;
  }
  bool TraverseDecl(Decl *X) {
    if (!X)
      return true;
    // prune foreign namespaces' contents cheaply
    if (isa<NamespaceDecl>(X) || isa<TranslationUnitDecl>(X) ||
        isa<LinkageSpecDecl>(X))
      return RecursiveASTVisitor<V>::TraverseDecl(X);
    if (!D.inRepo(X->getLocation()))
      return true;
    return RecursiveASTVisitor<V>::TraverseDecl(X);
  }
};

class Consumer : public ASTConsumer {
  std::string in;

public:
  Consumer(std::string in) : in(in) {}
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C);
    V v(D);
    v.TraverseDecl(C.getTranslationUnitDecl());
    json::Object o;
    o["tu"] = in;
    o["errors"] = (int64_t)C.getDiagnostics().hasErrorOccurred();
    o["functions"] = std::move(D.functions);
    o["records"] = std::move(D.records);
    o["enums"] = std::move(D.enums);
    o["globals"] = std::move(D.globals);
    std::error_code ec;
    llvm::raw_fd_ostream os(gOut, ec);
    os << json::Value(std::move(o));
  }
};

class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI,
                                                 StringRef In) override {
    return std::make_unique<Consumer>(In.str());
  }
};

} // namespace

// bccx <root> <extra-prefix> <out.json> <source> -- flags...
int main(int argc, const char **argv) {
  if (argc < 5)
    return 64;
  gRoot = argv[1];
  gExtra = argv[2];
  gOut = argv[3];
  std::string src = argv[4];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; i++)
    if (std::string(argv[i]) != "--")
      flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool Tool(DB, {src});
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
