// nsa-extract: libTooling front end.  Parses one translation unit with the real
// build flags and writes a resolved, compact JSON form of every function,
// record, enum and global defined below a given source root (template
// instantiations included, one entry per instantiation).  No rule lives here.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/AST/PrettyPrinter.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>

using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::string Root;

static Value jstr(llvm::StringRef s) { return Value(json::fixUTF8(s)); }

class Dumper {
 public:
  Dumper(ASTContext& C) : Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts())
  {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.SuppressUnwrittenScope = false;
    PP.TerseOutput = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
  }
  ASTContext& Ctx;
  SourceManager& SM;
  PrintingPolicy PP;
  std::map<std::string, int> typeIdx;
  Array types;
  std::map<const Decl*, int> declIdx;

  int tid(QualType T)
  {
    std::string s;
    if (T.isNull())
      s = "<null>";
    else
      s = T.getCanonicalType().getAsString(PP);
    auto it = typeIdx.find(s);
    if (it != typeIdx.end()) return it->second;
    int id = (int)types.size();
    typeIdx[s] = id;
    types.push_back(jstr(s));
    return id;
  }
  int did(const Decl* D)
  {
    D = D->getCanonicalDecl();
    auto it = declIdx.find(D);
    if (it != declIdx.end()) return it->second;
    int id = (int)declIdx.size() + 1;
    declIdx[D] = id;
    return id;
  }
  std::string fileOf(SourceLocation L)
  {
    if (L.isInvalid()) return "";
    L = SM.getExpansionLoc(L);
    auto FE = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!FE) return "";
    std::string p = FE->getFileEntry().tryGetRealPathName().str();
    if (p.empty()) p = FE->getName().str();
    return p;
  }
  int lineOf(SourceLocation L)
  {
    if (L.isInvalid()) return 0;
    return SM.getExpansionLineNumber(L);
  }
  bool inRoot(SourceLocation L)
  {
    std::string f = fileOf(L);
    return f.compare(0, Root.size(), Root) == 0 || f.find("/nsa/witness/") != std::string::npos;
  }
  static std::string qn(const NamedDecl* D)
  {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os);
    os.flush();
    return s;
  }
  // unique readable key of a function: diagnostic name (with template args) + type
  std::string fkey(const FunctionDecl* F)
  {
    std::string s;
    llvm::raw_string_ostream os(s);
    F->getNameForDiagnostic(os, PP, true);
    os.flush();
    s += " : ";
    s += F->getType().getCanonicalType().getAsString(PP);
    return s;
  }

  Value X(const Expr* E)
  {
    Object o = X0(E);
    return Value(std::move(o));
  }
  Object mk(const char* k, const Expr* E)
  {
    Object o;
    o["k"] = k;
    o["l"] = lineOf(E->getBeginLoc());
    o["t"] = tid(E->getType());
    return o;
  }
  Array args(llvm::ArrayRef<const Expr*> as)
  {
    Array a;
    for (auto* e : as) a.push_back(X(e));
    return a;
  }
  template <class C>
  Array argsOf(const C* call)
  {
    Array a;
    for (unsigned i = 0; i < call->getNumArgs(); ++i) {
      a.push_back(X(call->getArg(i)));
    }
    return a;
  }
  void callee(Object& o, const FunctionDecl* F)
  {
    if (!F) return;
    o["fn"] = fkey(F);
    o["q"] = qn(F);
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = qn(M->getParent());
      if (M->isVirtual()) o["virt"] = true;
      if (M->isConst()) o["cm"] = true;
    }
  }

  Object X0(const Expr* E)
  {
    if (!E) {
      Object o;
      o["k"] = "None";
      return o;
    }
    // integer constants folded by the compiler's own evaluator
    switch (E->getStmtClass()) {
      case Stmt::ParenExprClass: return X0(cast<ParenExpr>(E)->getSubExpr());
      case Stmt::ExprWithCleanupsClass: return X0(cast<ExprWithCleanups>(E)->getSubExpr());
      case Stmt::MaterializeTemporaryExprClass: return X0(cast<MaterializeTemporaryExpr>(E)->getSubExpr());
      case Stmt::CXXBindTemporaryExprClass: return X0(cast<CXXBindTemporaryExpr>(E)->getSubExpr());
      case Stmt::SubstNonTypeTemplateParmExprClass:
        return X0(cast<SubstNonTypeTemplateParmExpr>(E)->getReplacement());
      case Stmt::ConstantExprClass: return X0(cast<ConstantExpr>(E)->getSubExpr());
      case Stmt::CXXDefaultArgExprClass: {
        Object o = X0(cast<CXXDefaultArgExpr>(E)->getExpr());
        o["defarg"] = true;
        return o;
      }
      case Stmt::CXXDefaultInitExprClass: return X0(cast<CXXDefaultInitExpr>(E)->getExpr());
      case Stmt::CXXStdInitializerListExprClass:
        return X0(cast<CXXStdInitializerListExpr>(E)->getSubExpr());
      case Stmt::OpaqueValueExprClass: {
        auto* ov = cast<OpaqueValueExpr>(E);
        if (ov->getSourceExpr()) return X0(ov->getSourceExpr());
        return mk("Opaque", E);
      }
      default: break;
    }
    if (auto* L = dyn_cast<IntegerLiteral>(E)) {
      Object o = mk("Int", E);
      llvm::SmallString<32> s;
      L->getValue().toString(s, 10, L->getType()->isSignedIntegerType());
      o["v"] = s.str().str();
      return o;
    }
    if (auto* L = dyn_cast<FloatingLiteral>(E)) {
      Object o = mk("Float", E);
      llvm::SmallString<64> s;
      L->getValue().toString(s, 0, 0);
      o["v"] = s.str().str();
      // spelled text, needed to read decimal constants exactly
      SourceLocation b = SM.getSpellingLoc(L->getBeginLoc());
      bool inv = false;
      const char* p = SM.getCharacterData(b, &inv);
      if (!inv) {
        unsigned n = Lexer::MeasureTokenLength(b, SM, Ctx.getLangOpts());
        o["s"] = jstr(llvm::StringRef(p, n));
      }
      return o;
    }
    if (auto* L = dyn_cast<CXXBoolLiteralExpr>(E)) {
      Object o = mk("Bool", E);
      o["v"] = L->getValue();
      return o;
    }
    if (auto* L = dyn_cast<CharacterLiteral>(E)) {
      Object o = mk("Char", E);
      o["v"] = (int64_t)L->getValue();
      return o;
    }
    if (auto* L = dyn_cast<StringLiteral>(E)) {
      Object o = mk("Str", E);
      o["v"] = L->getCharByteWidth() == 1 ? jstr(L->getString()) : Value("<wide>");
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return mk("Null", E);
    if (isa<CXXThisExpr>(E)) return mk("This", E);
    if (auto* R = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl* D = R->getDecl();
      Object o = mk("Ref", E);
      o["d"] = did(D);
      o["n"] = D->getNameAsString();
      o["q"] = qn(D);
      if (auto* EC = dyn_cast<EnumConstantDecl>(D)) {
        o["dk"] = "enum";
        llvm::SmallString<32> s;
        EC->getInitVal().toString(s, 10);
        o["cv"] = s.str().str();
      } else if (auto* F = dyn_cast<FunctionDecl>(D)) {
        o["dk"] = "func";
        o["fn"] = fkey(F);
      } else if (auto* P = dyn_cast<ParmVarDecl>(D)) {
        o["dk"] = "param";
      } else if (auto* V = dyn_cast<VarDecl>(D)) {
        o["dk"] = V->isLocalVarDecl() ? (V->isStaticLocal() ? "static" : "var") : "global";
        cvOf(V, o);
      } else if (isa<BindingDecl>(D)) {
        o["dk"] = "binding";
      } else
        o["dk"] = D->getDeclKindName();
      return o;
    }
    if (auto* M = dyn_cast<MemberExpr>(E)) {
      const ValueDecl* D = M->getMemberDecl();
      Object o = mk("Mem", E);
      o["n"] = D->getNameAsString();
      o["q"] = qn(D);
      if (auto* V = dyn_cast<VarDecl>(D)) cvOf(V, o);
      if (auto* F = dyn_cast<FunctionDecl>(D)) o["fn"] = fkey(F);
      o["b"] = X(M->getBase());
      if (M->isArrow()) o["arrow"] = true;
      return o;
    }
    if (auto* A = dyn_cast<ArraySubscriptExpr>(E)) {
      Object o = mk("Idx", E);
      o["b"] = X(A->getBase());
      o["i"] = X(A->getIdx());
      return o;
    }
    if (auto* U = dyn_cast<UnaryOperator>(E)) {
      if (U->getOpcode() == UO_Extension || U->getOpcode() == UO_Plus) return X0(U->getSubExpr());
      Object o = mk("Un", E);
      std::string op = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      if (U->isPostfix()) op = "p" + op;
      o["op"] = op;
      o["e"] = X(U->getSubExpr());
      return o;
    }
    if (auto* B = dyn_cast<BinaryOperator>(E)) {
      Object o = mk("Bin", E);
      o["op"] = B->getOpcodeStr().str();
      o["a"] = X(B->getLHS());
      o["b"] = X(B->getRHS());
      if (auto* CA = dyn_cast<CompoundAssignOperator>(B)) o["ct"] = tid(CA->getComputationResultType());
      return o;
    }
    if (auto* C = dyn_cast<AbstractConditionalOperator>(E)) {
      Object o = mk("Cond", E);
      o["c"] = X(C->getCond());
      o["a"] = X(C->getTrueExpr());
      o["b"] = X(C->getFalseExpr());
      return o;
    }
    if (auto* C = dyn_cast<CastExpr>(E)) {
      switch (C->getCastKind()) {
        case CK_LValueToRValue:
        case CK_NoOp:
        case CK_ArrayToPointerDecay:
        case CK_FunctionToPointerDecay:
        case CK_ConstructorConversion:
        case CK_UserDefinedConversion:
        case CK_LValueBitCast:
          if (!isa<ExplicitCastExpr>(C) || C->getCastKind() != CK_LValueBitCast) return X0(C->getSubExpr());
          break;
        case CK_UncheckedDerivedToBase:
        case CK_DerivedToBase:
          if (!isa<ExplicitCastExpr>(C)) return X0(C->getSubExpr());
          break;
        default: break;
      }
      if (isa<CXXFunctionalCastExpr>(C) && C->getCastKind() == CK_ConstructorConversion) return X0(C->getSubExpr());
      Object o = mk("Cast", E);
      o["ck"] = C->getCastKindName();
      if (auto* EC = dyn_cast<ExplicitCastExpr>(C)) {
        o["ex"] = EC->getStmtClassName();
        o["wt"] = jstr(EC->getTypeAsWritten().getAsString(PP));
      }
      o["e"] = X(C->getSubExpr());
      return o;
    }
    if (auto* C = dyn_cast<CXXOperatorCallExpr>(E)) {
      Object o = mk("Call", E);
      o["op"] = getOperatorSpelling(C->getOperator());
      callee(o, C->getDirectCallee());
      if (!C->getDirectCallee()) o["ce"] = X(C->getCallee());
      bool mem = C->getDirectCallee() && isa<CXXMethodDecl>(C->getDirectCallee());
      Array a;
      for (unsigned i = 0; i < C->getNumArgs(); ++i) {
        if (mem && i == 0)
          o["obj"] = X(C->getArg(0));
        else
          a.push_back(X(C->getArg(i)));
      }
      o["args"] = std::move(a);
      return o;
    }
    if (auto* C = dyn_cast<CXXMemberCallExpr>(E)) {
      Object o = mk("Call", E);
      if (auto* M = C->getMethodDecl()) {
        callee(o, M);
        if (auto* ME = dyn_cast<MemberExpr>(C->getCallee()->IgnoreParens()))
          if (ME->hasQualifier()) o["qualcall"] = true;
      } else
        o["ce"] = X(C->getCallee());
      if (C->getImplicitObjectArgument()) {
        o["obj"] = X(C->getImplicitObjectArgument());
        o["ot"] = tid(C->getImplicitObjectArgument()->getType());
      }
      o["args"] = argsOf(C);
      return o;
    }
    if (auto* C = dyn_cast<UserDefinedLiteral>(E)) { return mk("Udl", E); }
    if (auto* C = dyn_cast<CallExpr>(E)) {
      Object o = mk("Call", E);
      callee(o, C->getDirectCallee());
      if (!C->getDirectCallee()) o["ce"] = X(C->getCallee());
      o["args"] = argsOf(C);
      return o;
    }
    if (auto* C = dyn_cast<CXXConstructExpr>(E)) {
      // elide copies / moves of temporaries
      if (C->isElidable() && C->getNumArgs() == 1) return X0(C->getArg(0));
      Object o = mk("Ctor", E);
      o["q"] = qn(C->getConstructor()->getParent());
      o["fn"] = fkey(C->getConstructor());
      if (C->getConstructor()->isCopyOrMoveConstructor()) o["copy"] = true;
      o["args"] = argsOf(C);
      return o;
    }
    if (auto* C = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      Object o = mk("Ctor", E);
      o["q"] = qn(C->getConstructor()->getParent());
      o["fn"] = fkey(C->getConstructor());
      o["inherited"] = true;
      o["args"] = Array();
      return o;
    }
    if (auto* I = dyn_cast<InitListExpr>(E)) {
      Object o = mk("Init", E);
      Array a;
      const InitListExpr* S = I->isSemanticForm() ? I : I->getSemanticForm() ? I->getSemanticForm() : I;
      for (unsigned i = 0; i < S->getNumInits(); ++i) a.push_back(X(S->getInit(i)));
      o["args"] = std::move(a);
      if (auto* f = S->getArrayFiller()) o["fill"] = X(f);
      return o;
    }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) return mk("Zero", E);
    if (auto* T = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Object o = mk("SizeOf", E);
      Expr::EvalResult R;
      if (!T->isValueDependent() && T->EvaluateAsInt(R, Ctx)) {
        llvm::SmallString<32> s;
        R.Val.getInt().toString(s, 10);
        o["k"] = "Int";
        o["v"] = s.str().str();
        o["sizeof"] = jstr(T->getTypeOfArgument().getCanonicalType().getAsString(PP));
      }
      return o;
    }
    if (auto* N = dyn_cast<CXXNewExpr>(E)) {
      Object o = mk("New", E);
      o["at"] = tid(N->getAllocatedType());
      if (N->isArray()) {
        o["arr"] = true;
        if (N->getArraySize() && *N->getArraySize()) o["n"] = X(*N->getArraySize());
      }
      if (N->getInitializer()) o["init"] = X(N->getInitializer());
      if (N->getNumPlacementArgs()) {
        Array a;
        for (unsigned i = 0; i < N->getNumPlacementArgs(); ++i) a.push_back(X(N->getPlacementArg(i)));
        o["place"] = std::move(a);
      }
      return o;
    }
    if (auto* D = dyn_cast<CXXDeleteExpr>(E)) {
      Object o = mk("Delete", E);
      if (D->isArrayForm()) o["arr"] = true;
      o["e"] = X(D->getArgument());
      return o;
    }
    if (auto* T = dyn_cast<CXXThrowExpr>(E)) {
      Object o = mk("Throw", E);
      if (T->getSubExpr()) o["e"] = X(T->getSubExpr());
      return o;
    }
    if (auto* L = dyn_cast<LambdaExpr>(E)) {
      Object o = mk("Lambda", E);
      Array caps;
      auto ci = L->capture_init_begin();
      for (auto& c : L->captures()) {
        Object co;
        co["kind"] = c.capturesThis() ? "this" : (c.getCaptureKind() == LCK_ByRef ? "ref" : "copy");
        if (c.capturesVariable()) {
          co["d"] = did(c.getCapturedVar());
          co["n"] = c.getCapturedVar()->getNameAsString();
          if (ci != L->capture_init_end() && *ci) co["init"] = X(*ci);
        }
        caps.push_back(std::move(co));
        if (ci != L->capture_init_end()) ++ci;
      }
      o["caps"] = std::move(caps);
      auto* Op = L->getCallOperator();
      Array ps;
      for (auto* p : Op->parameters()) ps.push_back(param(p));
      o["params"] = std::move(ps);
      o["body"] = S(L->getBody());
      o["generic"] = L->isGenericLambda();
      o["fn"] = fkey(Op);
      return o;
    }
    if (auto* T = dyn_cast<TypeTraitExpr>(E)) {
      Object o = mk("Bool", E);
      o["v"] = !T->isValueDependent() && T->getValue();
      return o;
    }
    if (auto* N = dyn_cast<CXXNoexceptExpr>(E)) {
      Object o = mk("Bool", E);
      o["v"] = N->getValue();
      return o;
    }
    if (auto* P = dyn_cast<CXXPseudoDestructorExpr>(E)) { return mk("PseudoDtor", E); }
    if (auto* A = dyn_cast<ArrayInitLoopExpr>(E)) {
      return X0(A->getCommonExpr()->getSourceExpr());
    }
    if (auto* P = dyn_cast<PredefinedExpr>(E)) {
      Object o = mk("Str", E);
      o["v"] = "<func>";
      return o;
    }
    if (auto* T = dyn_cast<CXXTypeidExpr>(E)) return mk("Typeid", E);
    Object o = mk("Unk", E);
    o["c"] = E->getStmtClassName();
    Array a;
    for (auto* c : E->children())
      if (auto* ce = dyn_cast_or_null<Expr>(c)) a.push_back(X(ce));
    o["args"] = std::move(a);
    return o;
  }
  void cvOf(const VarDecl* V, Object& o)
  {
    QualType T = V->getType();
    if (V->getType()->isReferenceType()) return;
    if (!(T.isConstQualified() || V->isConstexpr())) return;
    if (!(T->isIntegralOrEnumerationType() || T->isRealFloatingType())) return;
    if (!V->getAnyInitializer() || V->getAnyInitializer()->isValueDependent()) return;
    if (!T->isIntegralOrEnumerationType()) return;
    const VarDecl* D;
    if (!V->getAnyInitializer(D)) return;
    if (auto* val = D->evaluateValue())
      if (val->isInt()) {
        llvm::SmallString<32> s;
        val->getInt().toString(s, 10);
        o["cv"] = s.str().str();
      }
  }
  Object param(const ParmVarDecl* p)
  {
    Object o;
    o["d"] = did(p);
    o["n"] = p->getNameAsString();
    o["t"] = tid(p->getType());
    return o;
  }
  Value varDecl(const VarDecl* V)
  {
    Object o;
    o["k"] = "Var";
    o["d"] = did(V);
    o["n"] = V->getNameAsString();
    o["q"] = qn(V);
    o["t"] = tid(V->getType());
    o["l"] = lineOf(V->getBeginLoc());
    if (V->isStaticLocal()) o["static"] = true;
    if (V->hasInit()) {
      o["init"] = X(V->getInit());
      o["is"] = V->getInitStyle() == VarDecl::CInit ? "c" : V->getInitStyle() == VarDecl::CallInit ? "call" : "list";
    }
    cvOf(V, o);
    return Value(std::move(o));
  }
  Value S(const Stmt* St)
  {
    if (!St) return Value(nullptr);
    Object o;
    o["l"] = lineOf(St->getBeginLoc());
    o["e"] = lineOf(St->getEndLoc());
    if (auto* E = dyn_cast<Expr>(St)) {
      Object w;
      w["k"] = "Expr";
      w["l"] = lineOf(E->getBeginLoc());
      w["e"] = X(E);
      return Value(std::move(w));
    }
    switch (St->getStmtClass()) {
      case Stmt::CompoundStmtClass: {
        o["k"] = "Block";
        Array a;
        for (auto* c : cast<CompoundStmt>(St)->body()) a.push_back(S(c));
        o["s"] = std::move(a);
        break;
      }
      case Stmt::DeclStmtClass: {
        o["k"] = "Decl";
        Array a;
        for (auto* d : cast<DeclStmt>(St)->decls())
          if (auto* V = dyn_cast<VarDecl>(d)) a.push_back(varDecl(V));
        o["v"] = std::move(a);
        break;
      }
      case Stmt::IfStmtClass: {
        auto* I = cast<IfStmt>(St);
        o["k"] = "If";
        if (I->getInit()) o["init"] = S(I->getInit());
        if (I->getConditionVariable()) o["cvar"] = varDecl(I->getConditionVariable());
        o["c"] = X(I->getCond());
        o["a"] = S(I->getThen());
        o["b"] = S(I->getElse());
        break;
      }
      case Stmt::ForStmtClass: {
        auto* F = cast<ForStmt>(St);
        o["k"] = "For";
        o["init"] = S(F->getInit());
        o["c"] = F->getCond() ? X(F->getCond()) : Value(nullptr);
        o["inc"] = F->getInc() ? X(F->getInc()) : Value(nullptr);
        o["body"] = S(F->getBody());
        break;
      }
      case Stmt::CXXForRangeStmtClass: {
        auto* F = cast<CXXForRangeStmt>(St);
        o["k"] = "RangeFor";
        o["range"] = X(F->getRangeInit());
        o["var"] = varDecl(F->getLoopVariable());
        if (auto* DD = dyn_cast<DecompositionDecl>(F->getLoopVariable())) {
          Array b;
          for (auto* B : DD->bindings()) {
            Object bo;
            bo["d"] = did(B);
            bo["n"] = B->getNameAsString();
            b.push_back(std::move(bo));
          }
          o["bind"] = std::move(b);
        }
        o["body"] = S(F->getBody());
        {
          // a range of a class of the project: its own begin() and end()
          QualType rt = F->getRangeInit()->getType().getNonReferenceType();
          auto* RD = rt->getAsCXXRecordDecl();
          if (RD && !RD->isInStdNamespace() && F->getBeginStmt() && F->getEndStmt() && F->getRangeStmt()) {
            auto* rv = dyn_cast_or_null<VarDecl>(F->getRangeStmt()->getSingleDecl());
            auto* bv = dyn_cast_or_null<VarDecl>(F->getBeginStmt()->getSingleDecl());
            auto* ev = dyn_cast_or_null<VarDecl>(F->getEndStmt()->getSingleDecl());
            if (rv && bv && ev && bv->getInit() && ev->getInit()) {
              o["rvar"] = did(rv);
              o["beg"]  = X(bv->getInit());
              o["end"]  = X(ev->getInit());
            }
          }
        }
        break;
      }
      case Stmt::WhileStmtClass: {
        auto* W = cast<WhileStmt>(St);
        o["k"] = "While";
        if (W->getConditionVariable()) o["cvar"] = varDecl(W->getConditionVariable());
        o["c"] = X(W->getCond());
        o["body"] = S(W->getBody());
        break;
      }
      case Stmt::DoStmtClass: {
        auto* W = cast<DoStmt>(St);
        o["k"] = "Do";
        o["c"] = X(W->getCond());
        o["body"] = S(W->getBody());
        break;
      }
      case Stmt::SwitchStmtClass: {
        auto* W = cast<SwitchStmt>(St);
        o["k"] = "Switch";
        o["c"] = X(W->getCond());
        o["body"] = S(W->getBody());
        break;
      }
      case Stmt::CaseStmtClass: {
        auto* W = cast<CaseStmt>(St);
        o["k"] = "Case";
        o["c"] = X(W->getLHS());
        Expr::EvalResult R;
        if (W->getLHS()->EvaluateAsInt(R, Ctx)) {
          llvm::SmallString<32> s;
          R.Val.getInt().toString(s, 10);
          o["cv"] = s.str().str();
        }
        o["s"] = S(W->getSubStmt());
        break;
      }
      case Stmt::DefaultStmtClass: {
        o["k"] = "Default";
        o["s"] = S(cast<DefaultStmt>(St)->getSubStmt());
        break;
      }
      case Stmt::BreakStmtClass: o["k"] = "Break"; break;
      case Stmt::ContinueStmtClass: o["k"] = "Continue"; break;
      case Stmt::NullStmtClass: o["k"] = "Null"; break;
      case Stmt::ReturnStmtClass: {
        o["k"] = "Return";
        if (auto* e = cast<ReturnStmt>(St)->getRetValue()) o["v"] = X(e);
        break;
      }
      case Stmt::CXXTryStmtClass: {
        auto* T = cast<CXXTryStmt>(St);
        o["k"] = "Try";
        o["body"] = S(T->getTryBlock());
        Array a;
        for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
          Object h;
          auto* H = T->getHandler(i);
          h["t"] = H->getCaughtType().isNull() ? Value("...") : Value(tid(H->getCaughtType()));
          if (H->getExceptionDecl()) h["var"] = varDecl(H->getExceptionDecl());
          h["body"] = S(H->getHandlerBlock());
          a.push_back(std::move(h));
        }
        o["h"] = std::move(a);
        break;
      }
      case Stmt::AttributedStmtClass: return S(cast<AttributedStmt>(St)->getSubStmt());
      case Stmt::LabelStmtClass: {
        o["k"] = "Label";
        o["s"] = S(cast<LabelStmt>(St)->getSubStmt());
        break;
      }
      default: o["k"] = "UnkS"; o["c"] = St->getStmtClassName();
    }
    return Value(std::move(o));
  }
  Value function(const FunctionDecl* F)
  {
    Object o;
    o["key"] = fkey(F);
    o["q"] = qn(F);
    o["n"] = F->getNameAsString();
    o["file"] = fileOf(F->getLocation());
    o["l"] = lineOf(F->getLocation());
    o["e"] = lineOf(F->getEndLoc());
    o["rt"] = tid(F->getReturnType());
    if (F->isTemplateInstantiation()) o["inst"] = true;
    if (F->isStatic()) o["static"] = true;
    if (F->isMain()) o["main"] = true;
    if (F->isDefaulted() || F->isImplicit()) o["implicit"] = true;
    if (F->getDeclContext()->getRedeclContext()->isFileContext() && F->getFormalLinkage() != Linkage::External)
      o["internal"] = true;
    Array ps;
    for (auto* p : F->parameters()) ps.push_back(param(p));
    o["params"] = std::move(ps);
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = qn(M->getParent());
      o["clst"] = tid(Ctx.getRecordType(M->getParent()));
      if (M->isVirtual()) o["virt"] = true;
      if (M->isConst()) o["const"] = true;
      o["acc"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
      Array ov;
      for (auto* b : M->overridden_methods()) ov.push_back(fkey(b));
      if (!ov.empty()) o["ov"] = std::move(ov);
      if (auto* C = dyn_cast<CXXConstructorDecl>(M)) {
        o["ctor"] = true;
        if (C->isCopyOrMoveConstructor()) o["copyctor"] = true;
        Array in;
        for (auto* I : C->inits()) {
          Object io;
          if (I->isAnyMemberInitializer() && I->getAnyMember()) {
            io["field"] = I->getAnyMember()->getNameAsString();
            io["ft"] = tid(I->getAnyMember()->getType());
          } else if (I->isBaseInitializer())
            io["base"] = tid(QualType(I->getBaseClass(), 0));
          else
            io["deleg"] = true;
          io["written"] = I->isWritten();
          io["e"] = X(I->getInit());
          in.push_back(std::move(io));
        }
        o["inits"] = std::move(in);
      }
      if (isa<CXXDestructorDecl>(M)) o["dtor"] = true;
    }
    o["body"] = S(F->getBody());
    return Value(std::move(o));
  }
  Value record(const CXXRecordDecl* R)
  {
    Object o;
    o["q"] = qn(R);
    o["t"] = tid(Ctx.getRecordType(R));
    o["file"] = fileOf(R->getLocation());
    o["l"] = lineOf(R->getLocation());
    o["abstract"] = R->isAbstract();
    o["lambda"] = R->isLambda();
    Array fs, bs, ms;
    for (auto* f : R->fields()) {
      Object fo;
      fo["n"] = f->getNameAsString();
      fo["t"] = tid(f->getType());
      fo["l"] = lineOf(f->getLocation());
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = X(f->getInClassInitializer());
      fs.push_back(std::move(fo));
    }
    for (auto& b : R->bases()) bs.push_back(tid(b.getType()));
    for (auto* m : R->methods()) {
      Object mo;
      mo["key"] = fkey(m);
      mo["n"] = m->getNameAsString();
      mo["virt"] = m->isVirtual();
      mo["pure"] = m->isPureVirtual();
      mo["deleted"] = m->isDeleted();
      mo["implicit"] = m->isImplicit();
      mo["l"] = lineOf(m->getLocation());
      mo["const"] = m->isConst();
      Array ov;
      for (auto* b : m->overridden_methods()) ov.push_back(fkey(b));
      mo["ov"] = std::move(ov);
      ms.push_back(std::move(mo));
    }
    o["fields"] = std::move(fs);
    o["bases"] = std::move(bs);
    o["methods"] = std::move(ms);
    return Value(std::move(o));
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  Visitor(ASTContext& C) : D(C) {}
  Dumper D;
  Array fns, recs, enums, vars;
  std::set<const Decl*> seen;
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool TraverseDecl(Decl* X)
  {
    if (!X) return true;
    // Skip namespaces' contents that lie outside the root quickly (system headers)
    if (X->getLocation().isValid() && !isa<TranslationUnitDecl>(X) && !isa<NamespaceDecl>(X) &&
        !isa<LinkageSpecDecl>(X)) {
      if (!D.inRoot(X->getLocation())) return true;
    }
    return RecursiveASTVisitor<Visitor>::TraverseDecl(X);
  }
  bool VisitFunctionDecl(FunctionDecl* F)
  {
    if (!F->isThisDeclarationADefinition() || F->isDependentContext()) return true;
    if (!F->hasBody() && !F->isDefaulted()) return true;
    if (!D.inRoot(F->getLocation())) return true;
    if (!F->getBody()) return true;
    if (auto* M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda() ) return true;
    if (!seen.insert(F).second) return true;
    fns.push_back(D.function(F));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* R)
  {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext()) return true;
    if (!D.inRoot(R->getLocation()) || R->isLambda()) return true;
    if (!R->hasDefinition()) return true;
    if (!seen.insert(R).second) return true;
    recs.push_back(D.record(R));
    return true;
  }
  bool VisitEnumDecl(EnumDecl* E)
  {
    if (!E->isThisDeclarationADefinition() || !D.inRoot(E->getLocation())) return true;
    if (E->isDependentContext()) return true;
    Object o;
    o["q"] = Dumper::qn(E);
    o["file"] = D.fileOf(E->getLocation());
    o["l"] = D.lineOf(E->getLocation());
    Array cs;
    for (auto* c : E->enumerators()) {
      Object co;
      co["n"] = c->getNameAsString();
      llvm::SmallString<32> s;
      c->getInitVal().toString(s, 10);
      co["v"] = s.str().str();
      cs.push_back(std::move(co));
    }
    o["c"] = std::move(cs);
    enums.push_back(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl* V)
  {
    if (!V->hasGlobalStorage() || V->isStaticLocal()) return true;
    if (V->isTemplated() || V->getDeclContext()->isDependentContext()) return true;
    if (!D.inRoot(V->getLocation())) return true;
    Object o;
    o["v"] = D.varDecl(V);
    o["file"] = D.fileOf(V->getLocation());
    o["def"] = V->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
    vars.push_back(std::move(o));
    return true;
  }
};

static std::string OutFile;
static int Errors = 0;

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext& C) override
  {
    Errors += C.getDiagnostics().hasErrorOccurred() ? 1 : 0;
    Visitor V(C);
    V.TraverseDecl(C.getTranslationUnitDecl());
    Object o;
    o["types"] = std::move(V.D.types);
    o["functions"] = std::move(V.fns);
    o["records"] = std::move(V.recs);
    o["enums"] = std::move(V.enums);
    o["vars"] = std::move(V.vars);
    o["errors"] = Errors;
    std::error_code ec;
    llvm::raw_fd_ostream os(OutFile, ec);
    os << Value(std::move(o));
  }
};
class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override
  {
    return std::make_unique<Consumer>();
  }
};

// usage: nsa-extract ROOT OUT.json FILE -- flags...
int main(int argc, const char** argv)
{
  if (argc < 5) {
    llvm::errs() << "usage: nsa-extract ROOT OUT FILE -- flags\n";
    return 2;
  }
  Root = argv[1];
  OutFile = argv[2];
  std::string file = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {file});
  class Fac : public tooling::FrontendActionFactory {
   public:
    std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
  } fac;
  int rc = tool.run(&fac);
  if (rc || Errors) return 3;
  return 0;
}
