// AST extractor: type-checked C++ translation unit -> JSON function bodies.
//
// Reads a TU that includes the headers of /repo (or a .cpp of /repo directly)
// and writes, for every non-dependent function with a body that is located
// under one of the given roots, the *resolved* body: overloads, implicit
// conversions, template arguments, default arguments and constants are exactly
// the ones the compiler chose.  What is dropped: parentheses, temporaries'
// cleanups, no-op casts, attributes, access specifiers, comments, the text of
// strings used only to build exceptions is kept but never interpreted.
#include <map>
#include <set>
#include <string>
#include <vector>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ExprOpenMP.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Sema/Sema.h"
#include "clang/Sema/Template.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> g_roots;
static std::string g_out;

class Emitter {
 public:
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  json::Array types, functions;
  json::Object records;
  std::map<const void *, int> typeIds;
  std::map<const Decl *, int> varIds, fnIds, lamIds;
  std::set<const RecordDecl *> recDone;
  std::vector<const CXXRecordDecl *> lambdas;
  std::vector<const FunctionDecl *> fnQueue;
  std::set<const FunctionDecl *> fnDone;
  std::vector<std::pair<const VarDecl *, const VarDecl *>> dummy;

  explicit Emitter(ASTContext &c)
      : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressInlineNamespace = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
  }

  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L);
    return P.isValid() ? std::string(P.getFilename()) : std::string();
  }
  int line(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L);
    return P.isValid() ? (int)P.getLine() : 0;
  }
  bool inRoots(SourceLocation L) {
    std::string f = file(L);
    for (auto &r : g_roots)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }

  int varId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = varIds.find(D);
    if (it != varIds.end()) return it->second;
    int n = (int)varIds.size() + 1;
    varIds[D] = n;
    return n;
  }
  int fnId(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    auto it = fnIds.find(F);
    if (it != fnIds.end()) return it->second;
    int n = (int)fnIds.size() + 1;
    fnIds[F] = n;
    const FunctionDecl *Def = nullptr;
    if (F->hasBody(Def) || true) fnQueue.push_back(Def ? Def : F);
    return n;
  }

  json::Array targs(llvm::ArrayRef<TemplateArgument> A) {
    json::Array out;
    for (auto &a : A) targ(a, out);
    return out;
  }
  void targ(const TemplateArgument &a, json::Array &out) {
    switch (a.getKind()) {
      case TemplateArgument::Type: out.push_back(json::Object{{"t", type(a.getAsType())}}); break;
      case TemplateArgument::Integral: {
        llvm::SmallString<32> s; a.getAsIntegral().toString(s, 10);
        out.push_back(json::Object{{"v", std::string(s.str())}}); break; }
      case TemplateArgument::Pack: for (auto &p : a.pack_elements()) targ(p, out); break;
      default: out.push_back(json::Object{{"o", "other"}}); break;
    }
  }

  std::string recName(const RecordDecl *R) {
    std::string s; llvm::raw_string_ostream os(s);
    PrintingPolicy P2 = PP;
    R->printQualifiedName(os, P2);
    return os.str();
  }

  int type(QualType Q) {
    QualType Cn = C.getCanonicalType(Q).getUnqualifiedType();
    const Type *T = Cn.getTypePtr();
    auto it = typeIds.find(T);
    if (it != typeIds.end()) return it->second;
    int id = (int)types.size();
    typeIds[T] = id;
    types.push_back(nullptr);
    json::Object o;
    std::string s = Cn.getAsString(PP);
    o["s"] = s;
    if (auto *B = dyn_cast<BuiltinType>(T)) {
      if (B->getKind() == BuiltinType::Bool) o["k"] = "bool";
      else if (B->isInteger()) { o["k"] = "int"; o["w"] = (int64_t)C.getTypeSize(Cn); o["sg"] = B->isSignedInteger(); }
      else if (B->isFloatingPoint()) { o["k"] = "fp"; o["w"] = (int64_t)C.getTypeSize(Cn); }
      else if (B->isVoidType()) o["k"] = "void";
      else if (B->isNullPtrType()) o["k"] = "nullptr";
      else o["k"] = "other";
    } else if (auto *E = dyn_cast<EnumType>(T)) {
      o["k"] = "enum";
      if (!E->getDecl()->getIntegerType().isNull()) {
        o["u"] = type(E->getDecl()->getIntegerType());
        json::Array vs;
        for (auto *e : E->getDecl()->enumerators()) {
          llvm::SmallString<32> st; e->getInitVal().toString(st, 10);
          vs.push_back(json::Array{e->getNameAsString(), std::string(st.str())});
        }
        o["vals"] = std::move(vs);
      }
    } else if (auto *R = dyn_cast<RecordType>(T)) {
      auto *D = R->getDecl();
      o["k"] = "rec";
      if (auto *CD = dyn_cast<CXXRecordDecl>(D); CD && CD->isLambda()) {
        o["n"] = "lambda"; o["lam"] = lamId(CD);
        o["repo"] = true;
      } else {
        o["n"] = recName(D);
        o["repo"] = inRoots(D->getLocation()) || D->getName() == "z_stream_s";
      }
      json::Array ta;
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(D)) ta = targs(S->getTemplateArgs().asArray());
      o["a"] = std::move(ta);
      o["r"] = s;
      types[id] = std::move(o);
      record(D, id);
      return id;
    } else if (auto *P = dyn_cast<PointerType>(T)) {
      o["k"] = "ptr"; o["t"] = type(P->getPointeeType()); o["c"] = P->getPointeeType().isConstQualified();
    } else if (auto *P = dyn_cast<ReferenceType>(T)) {
      o["k"] = "ref"; o["t"] = type(P->getPointeeType()); o["c"] = P->getPointeeType().isConstQualified();
      o["rv"] = isa<RValueReferenceType>(T);
    } else if (auto *A = dyn_cast<ConstantArrayType>(T)) {
      o["k"] = "arr"; o["t"] = type(A->getElementType()); o["n"] = (int64_t)A->getSize().getZExtValue();
    } else if (auto *F = dyn_cast<FunctionProtoType>(T)) {
      o["k"] = "fn"; o["ret"] = type(F->getReturnType());
      json::Array ps; for (auto p : F->param_types()) ps.push_back(type(p));
      o["ps"] = std::move(ps);
    } else {
      o["k"] = "other";
    }
    types[id] = std::move(o);
    return id;
  }

  int lamId(const CXXRecordDecl *CD) {
    auto it = lamIds.find(CD);
    if (it != lamIds.end()) return it->second;
    int n = (int)lamIds.size() + 1; lamIds[CD] = n;
    return n;
  }

  void record(const RecordDecl *D, int id) {
    if (!D->getDefinition()) return;
    D = D->getDefinition();
    if (!recDone.insert(D).second) return;
    if (D->isDependentContext()) return;
    auto *CD = dyn_cast<CXXRecordDecl>(D);
    bool repo = inRoots(D->getLocation()) || D->getName() == "z_stream_s";   // the C structure through which zlib is driven
    json::Object o;
    o["repo"] = repo;
    json::Array fs, bs;
    if (repo && !(CD && CD->isLambda())) {
      for (auto *f : D->fields()) {
        json::Object fo;
        fo["n"] = f->getNameAsString(); fo["t"] = type(f->getType());
        fs.push_back(std::move(fo));
      }
    }
    if (CD && !CD->isLambda()) for (auto &b : CD->bases()) bs.push_back(type(b.getType()));
    o["f"] = std::move(fs); o["b"] = std::move(bs); o["union"] = D->isUnion();
    o["abstract"] = CD && CD->hasDefinition() && CD->isAbstract();
    o["empty"] = CD && CD->isEmpty();
    if (CD && !CD->isLambda() && repo) {
      json::Array ms;
      for (auto *m : CD->methods()) if (m->isVirtual()) ms.push_back(json::Array{m->getNameAsString(), fnId(m)});
      o["virt"] = std::move(ms);
    }
    records[std::to_string(id)] = std::move(o);
  }

  // ---- expressions -------------------------------------------------------
  json::Value nul() { return json::Value(nullptr); }

  json::Object base(const char *k, const Expr *E) {
    json::Object o; o["k"] = k; o["t"] = type(E->getType()); o["l"] = line(E->getExprLoc());
    if (E->isGLValue()) o["lv"] = true;
    return o;
  }

  bool constFold(const Expr *E, json::Value &out) {
    if (E->isGLValue() || E->isValueDependent()) return false;
    QualType T = E->getType();
    if (!(T->isIntegralOrEnumerationType() || T->isRealFloatingType())) return false;
    if (E->HasSideEffects(C)) return false;
    Expr::EvalResult R;
    if (!E->EvaluateAsRValue(R, C) || R.HasSideEffects) return false;
    if (R.Val.isInt()) {
      json::Object o = base("const", E);
      llvm::SmallString<32> s; R.Val.getInt().toString(s, 10);
      o["v"] = std::string(s.str()); out = std::move(o); return true;
    }
    if (R.Val.isFloat()) {
      json::Object o = base("fconst", E);
      llvm::APFloat f = R.Val.getFloat();
      llvm::SmallString<40> s; 
      f.bitcastToAPInt().toString(s, 16, false);
      o["bits"] = std::string(s.str());
      o["d"] = (&f.getSemantics() == &llvm::APFloat::IEEEdouble()) ? 64 : 32;
      out = std::move(o); return true;
    }
    return false;
  }

  const Expr *strip(const Expr *E) {
    while (true) {
      if (auto *x = dyn_cast<ParenExpr>(E)) E = x->getSubExpr();
      else if (auto *x = dyn_cast<FullExpr>(E)) E = x->getSubExpr();
      else if (auto *x = dyn_cast<MaterializeTemporaryExpr>(E)) return E;
      else if (auto *x = dyn_cast<CXXBindTemporaryExpr>(E)) E = x->getSubExpr();
      else if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = x->getReplacement();
      else if (auto *x = dyn_cast<CXXDefaultArgExpr>(E)) E = x->getExpr();
      else if (auto *x = dyn_cast<CXXDefaultInitExpr>(E)) E = x->getExpr();
      else if (auto *x = dyn_cast<CXXStdInitializerListExpr>(E)) return E;
      else return E;
    }
  }

  json::Array exprs(llvm::ArrayRef<const Expr *> A) { json::Array r; for (auto *e : A) r.push_back(expr(e)); return r; }
  template <class It> json::Array exprRange(It b, It e) { json::Array r; for (; b != e; ++b) r.push_back(expr(*b)); return r; }

  void calleeInfo(json::Object &o, const FunctionDecl *F) {
    o["name"] = F->getNameAsString();
    std::string q; { llvm::raw_string_ostream os(q); F->printQualifiedName(os, PP); }
    o["q"] = q;
    o["fn"] = fnId(F);
    if (auto *TA = F->getTemplateSpecializationArgs()) o["ta"] = targs(TA->asArray());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = type(C.getRecordType(M->getParent()));
      if (M->isVirtual()) o["virt"] = true;
      if (M->isStatic()) o["static"] = true;
      if (M->isConst()) o["constm"] = true;
      if (M->isCopyAssignmentOperator()) o["copyassign"] = true;
      if (M->isMoveAssignmentOperator()) o["moveassign"] = true;
      if (M->isDefaulted()) o["defaulted"] = true;
    }
    o["ft"] = type(F->getType());
    json::Array ps;
    for (auto *p : F->parameters()) ps.push_back(type(p->getType()));
    o["pts"] = std::move(ps);
  }

  json::Value expr(const Expr *E) {
    if (!E) return nul();
    E = strip(E);
    json::Value cv = nullptr;
    if (constFold(E, cv)) return cv;
    if (auto *x = dyn_cast<MaterializeTemporaryExpr>(E)) {
      json::Object o = base("mat", E); o["e"] = expr(x->getSubExpr()); return o;
    }
    if (auto *x = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = x->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { json::Object o = base("fnref", E); calleeInfo(o, F); return o; }
      if (auto *V = dyn_cast<VarDecl>(D)) {
        json::Object o = base("var", E);
        o["id"] = varId(V); o["n"] = V->getNameAsString();
        o["vt"] = type(V->getType());
        if (V->hasGlobalStorage() && !V->isStaticLocal()) {
          o["global"] = true;
          std::string q; { llvm::raw_string_ostream os(q); V->printQualifiedName(os, PP); } o["q"] = q;
          const VarDecl *ID = nullptr; 
          if (const Expr *I = V->getAnyInitializer(ID)) if (!I->isValueDependent() && (V->getType().isConstQualified()||V->isConstexpr())) o["init"] = expr(I);
        }
        if (V->isStaticLocal()) o["staticlocal"] = true;
        return o;
      }
      if (auto *B = dyn_cast<BindingDecl>(D)) { json::Object o = base("binding", E); o["id"] = varId(B); o["n"] = B->getNameAsString(); o["e"] = expr(B->getBinding()); return o; }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { json::Object o = base("const", E); llvm::SmallString<32> s; EC->getInitVal().toString(s, 10); o["v"] = std::string(s.str()); return o; }
      json::Object o = base("unk", E); o["what"] = "declref"; return o;
    }
    if (isa<CXXThisExpr>(E)) return base("this", E);
    if (auto *x = dyn_cast<CXXBoolLiteralExpr>(E)) { json::Object o = base("const", E); o["v"] = x->getValue() ? "1" : "0"; return o; }
    if (auto *x = dyn_cast<StringLiteral>(E)) { json::Object o = base("str", E); o["v"] = x->getCharByteWidth() == 1 ? json::fixUTF8(x->getString()) : std::string(); return o; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return base("nullptr", E);
    if (auto *x = dyn_cast<MemberExpr>(E)) {
      if (auto *VD = dyn_cast<VarDecl>(x->getMemberDecl())) {
        json::Object o = base("var", E); o["id"] = varId(VD); o["n"] = VD->getNameAsString(); o["vt"] = type(VD->getType()); o["global"] = true; 
        const VarDecl *ID = nullptr; if (const Expr *I = VD->getAnyInitializer(ID)) if (!I->isValueDependent()) o["init"] = expr(I);
        return o;
      }
      json::Object o = base("member", E);
      o["f"] = x->getMemberDecl()->getNameAsString();
      o["arrow"] = x->isArrow();
      o["o"] = expr(x->getBase());
      if (auto *F = dyn_cast<FieldDecl>(x->getMemberDecl())) o["cls"] = type(C.getRecordType(F->getParent()));
      return o;
    }
    if (auto *x = dyn_cast<CXXMemberCallExpr>(E)) {
      json::Object o = base("mcall", E);
      const CXXMethodDecl *M = x->getMethodDecl();
      if (M) calleeInfo(o, M);
      o["o"] = expr(x->getImplicitObjectArgument());
      bool arrow = false;
      const Expr *cal = x->getCallee()->IgnoreParens();
      if (auto *ME = dyn_cast<MemberExpr>(cal)) { arrow = ME->isArrow(); if (ME->hasQualifier()) o["qualified"] = true; }
      o["arrow"] = arrow;
      o["a"] = exprRange(x->arg_begin(), x->arg_end());
      return o;
    }
    if (auto *x = dyn_cast<CXXOperatorCallExpr>(E)) {
      json::Object o = base("opcall", E);
      o["op"] = getOperatorSpelling(x->getOperator());
      if (auto *F = x->getDirectCallee()) calleeInfo(o, F);
      o["a"] = exprRange(x->arg_begin(), x->arg_end());
      return o;
    }
    if (auto *x = dyn_cast<CallExpr>(E)) {
      json::Object o = base("call", E);
      if (auto *F = x->getDirectCallee()) { calleeInfo(o, F); if (F->getBuiltinID()) o["builtin"] = true; }
      else o["callee"] = expr(x->getCallee());
      o["a"] = exprRange(x->arg_begin(), x->arg_end());
      return o;
    }
    if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      json::Object o = base("ctor", E); calleeInfo(o, x->getConstructor()); o["inherited"] = true; o["a"] = json::Array{}; return o;
    }
    if (auto *x = dyn_cast<CXXConstructExpr>(E)) {
      json::Object o = base("ctor", E);
      auto *K = x->getConstructor();
      calleeInfo(o, K);
      if (K->isCopyConstructor()) o["copy"] = true;
      if (K->isMoveConstructor()) o["move"] = true;
      if (K->isDefaultConstructor()) o["default"] = true;
      if (x->requiresZeroInitialization()) o["zero"] = true;
      if (x->isStdInitListInitialization()) o["ilist"] = true;
      o["a"] = exprRange(x->arg_begin(), x->arg_end());
      return o;
    }
    if (auto *x = dyn_cast<CXXScalarValueInitExpr>(E)) { (void)x; return base("zeroinit", E); }
    if (isa<ImplicitValueInitExpr>(E)) return base("zeroinit", E);
    if (auto *x = dyn_cast<CXXStdInitializerListExpr>(E)) { json::Object o = base("stdilist", E); o["e"] = expr(x->getSubExpr()); return o; }
    if (auto *x = dyn_cast<InitListExpr>(E)) {
      const InitListExpr *S = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x);
      json::Object o = base("initlist", E);
      json::Array a; for (unsigned i = 0; i < S->getNumInits(); i++) a.push_back(expr(S->getInit(i)));
      o["a"] = std::move(a);
      if (S->hasArrayFiller()) o["filler"] = expr(S->getArrayFiller());
      return o;
    }
    if (auto *x = dyn_cast<CastExpr>(E)) {
      if (x->getCastKind() == CK_NoOp || x->getCastKind() == CK_ConstructorConversion || x->getCastKind() == CK_UserDefinedConversion)
        return expr(x->getSubExpr());
      json::Object o = base("cast", E);
      o["ck"] = x->getCastKindName();
      o["ex"] = isa<ExplicitCastExpr>(E);
      o["e"] = expr(x->getSubExpr());
      return o;
    }
    if (auto *x = dyn_cast<UnaryOperator>(E)) {
      json::Object o = base("unop", E);
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()); o["post"] = x->isPostfix();
      o["e"] = expr(x->getSubExpr()); return o;
    }
    if (auto *x = dyn_cast<CompoundAssignOperator>(E)) {
      json::Object o = base("cassign", E);
      o["op"] = x->getOpcodeStr().drop_back(1);
      o["ct"] = type(x->getComputationResultType()); o["lt"] = type(x->getComputationLHSType());
      o["a"] = expr(x->getLHS()); o["b"] = expr(x->getRHS()); return o;
    }
    if (auto *x = dyn_cast<BinaryOperator>(E)) {
      json::Object o = base(x->getOpcode() == BO_Assign ? "assign" : "binop", E);
      o["op"] = x->getOpcodeStr(); o["a"] = expr(x->getLHS()); o["b"] = expr(x->getRHS()); return o;
    }
    if (auto *x = dyn_cast<AbstractConditionalOperator>(E)) {
      json::Object o = base("cond", E);
      o["c"] = expr(x->getCond()); o["a"] = expr(x->getTrueExpr()); o["b"] = expr(x->getFalseExpr()); return o;
    }
    if (auto *x = dyn_cast<ArraySubscriptExpr>(E)) {
      json::Object o = base("subscript", E); o["a"] = expr(x->getBase()); o["b"] = expr(x->getIdx()); return o;
    }
    if (auto *x = dyn_cast<CXXThrowExpr>(E)) {
      json::Object o = base("throw", E); o["e"] = x->getSubExpr() ? expr(x->getSubExpr()) : nul();
      if (x->getSubExpr()) o["et"] = type(x->getSubExpr()->getType());
      return o;
    }
    if (auto *x = dyn_cast<LambdaExpr>(E)) {
      json::Object o = base("lambda", E);
      auto *L = x->getLambdaClass();
      o["lam"] = lamId(L);
      json::Array caps;
      auto ii = x->capture_init_begin();
      for (auto &c : x->captures()) {
        json::Object co;
        if (c.capturesThis()) co["this"] = true;
        else if (c.capturesVariable()) {
          auto *V = c.getCapturedVar(); co["id"] = varId(V); co["n"] = V->getNameAsString(); co["t"] = type(V->getType());
          co["byref"] = c.getCaptureKind() == LCK_ByRef;
          if (auto *VV = dyn_cast<VarDecl>(V); VV && VV->isInitCapture()) co["init"] = expr(*ii);
        }
        if (c.getCaptureKind() == LCK_StarThis) co["starthis"] = true;
        caps.push_back(std::move(co));
        ++ii;
      }
      o["caps"] = std::move(caps);
      o["mut"] = x->isMutable();
      if (auto *M = x->getCallOperator()) if (!x->isGenericLambda()) o["fn"] = fnId(M);
      o["generic"] = x->isGenericLambda();
      return o;
    }
    if (auto *x = dyn_cast<CXXNewExpr>(E)) {
      json::Object o = base("new", E); o["nt"] = type(x->getAllocatedType());
      o["e"] = x->getConstructExpr() ? expr(x->getConstructExpr()) : (x->hasInitializer() ? expr(x->getInitializer()) : nul());
      if (x->getNumPlacementArgs() == 1) o["pl"] = expr(x->getPlacementArg(0));
      return o;
    }
    if (auto *x = dyn_cast<CXXDeleteExpr>(E)) { json::Object o = base("delete", E); o["e"] = expr(x->getArgument()); return o; }
    if (auto *x = dyn_cast<CXXTypeidExpr>(E)) { (void)x; return base("typeid", E); }
    if (auto *x = dyn_cast<CXXPseudoDestructorExpr>(E)) { (void)x; return base("pseudodtor", E); }
    json::Object o = base("unk", E); o["what"] = E->getStmtClassName(); return o;
  }

  // ---- statements --------------------------------------------------------
  json::Object varDecl(const VarDecl *V) {
    json::Object o; o["id"] = varId(V); o["n"] = V->getNameAsString(); o["t"] = type(V->getType());
    o["l"] = line(V->getLocation());
    if (V->isStaticLocal()) o["static"] = true;
    o["init"] = V->getInit() ? expr(V->getInit()) : nul();
    return o;
  }
  json::Value stmt(const Stmt *S) {
    if (!S) return nul();
    json::Object o; o["l"] = line(S->getBeginLoc());
    if (auto *x = dyn_cast<CompoundStmt>(S)) {
      o["k"] = "block"; json::Array a; for (auto *s : x->body()) a.push_back(stmt(s)); o["b"] = std::move(a);
      o["el"] = line(x->getEndLoc());
      return o; }
    if (auto *x = dyn_cast<DeclStmt>(S)) {
      o["k"] = "decl"; json::Array a;
      for (auto *d : x->decls()) {
        if (auto *V = dyn_cast<VarDecl>(d)) {
          json::Object vo = varDecl(V);
          if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
            json::Array bs; for (auto *b : DD->bindings()) { json::Object bo; bo["id"] = varId(b); bo["n"] = b->getNameAsString(); bo["e"] = expr(b->getBinding()); bs.push_back(std::move(bo)); }
            vo["bindings"] = std::move(bs);
          }
          a.push_back(std::move(vo));
        }
      }
      o["d"] = std::move(a); return o; }
    if (auto *x = dyn_cast<IfStmt>(S)) {
      if (x->isConsteval()) { o["k"] = "unk"; return o; }
      o["k"] = "if"; o["init"] = stmt(x->getInit());
      if (x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable());
      o["c"] = expr(x->getCond()); o["a"] = stmt(x->getThen()); o["b"] = stmt(x->getElse());
      if (x->isConstexpr()) o["constexpr"] = true;
      return o; }
    if (auto *x = dyn_cast<ForStmt>(S)) {
      o["k"] = "for"; o["init"] = stmt(x->getInit()); o["c"] = expr(x->getCond()); o["inc"] = expr(x->getInc()); o["b"] = stmt(x->getBody()); return o; }
    if (auto *x = dyn_cast<WhileStmt>(S)) {
      o["k"] = "while"; o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody());
      if (x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable());
      return o; }
    if (auto *x = dyn_cast<DoStmt>(S)) { o["k"] = "do"; o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody()); return o; }
    if (auto *x = dyn_cast<CXXForRangeStmt>(S)) {
      o["k"] = "rangefor";
      const VarDecl *LV = x->getLoopVariable();
      json::Object vo; vo["id"] = varId(LV); vo["n"] = LV->getNameAsString(); vo["t"] = type(LV->getType());
      if (auto *DD = dyn_cast<DecompositionDecl>(LV)) {
        json::Array bs; for (auto *b : DD->bindings()) { json::Object bo; bo["id"] = varId(b); bo["n"] = b->getNameAsString(); bo["e"] = expr(b->getBinding()); bs.push_back(std::move(bo)); }
        vo["bindings"] = std::move(bs);
      }
      o["v"] = std::move(vo);
      o["r"] = expr(x->getRangeInit()); o["b"] = stmt(x->getBody()); return o; }
    if (auto *x = dyn_cast<ReturnStmt>(S)) { o["k"] = "return"; o["e"] = x->getRetValue() ? expr(x->getRetValue()) : nul(); return o; }
    if (isa<BreakStmt>(S)) { o["k"] = "break"; return o; }
    if (isa<ContinueStmt>(S)) { o["k"] = "continue"; return o; }
    if (isa<NullStmt>(S)) { o["k"] = "null"; return o; }
    if (const auto* x = dyn_cast<GCCAsmStmt>(S)) if (x->getAsmString()->getString().empty() && x->getNumOutputs() == 0 && x->getNumInputs() == 0) { o["k"] = "null"; return o; }  // an empty assembler statement only restrains the optimizer
    if (auto *x = dyn_cast<SwitchStmt>(S)) { o["k"] = "switch"; o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody()); return o; }
    if (auto *x = dyn_cast<CaseStmt>(S)) { o["k"] = "case"; o["e"] = expr(x->getLHS()); o["s"] = stmt(x->getSubStmt()); return o; }
    if (auto *x = dyn_cast<DefaultStmt>(S)) { o["k"] = "default"; o["s"] = stmt(x->getSubStmt()); return o; }
    if (auto *x = dyn_cast<AttributedStmt>(S)) return stmt(x->getSubStmt());
    if (auto *x = dyn_cast<CXXTryStmt>(S)) {
      o["k"] = "try"; o["b"] = stmt(x->getTryBlock());
      json::Array hs;
      for (unsigned i = 0; i < x->getNumHandlers(); i++) {
        auto *h = x->getHandler(i); json::Object ho;
        if (h->getExceptionDecl()) { ho["id"] = varId(h->getExceptionDecl()); ho["t"] = type(h->getExceptionDecl()->getType()); }
        ho["b"] = stmt(h->getHandlerBlock()); hs.push_back(std::move(ho)); }
      o["h"] = std::move(hs); return o; }
    if (auto *x = dyn_cast<OMPExecutableDirective>(S)) {
      o["k"] = "omp"; o["d"] = S->getStmtClassName();
      json::Array cl;
      for (auto *c : x->clauses()) {
        if (!c) continue;
        json::Object co; co["k"] = llvm::omp::getOpenMPClauseName(c->getClauseKind()).str();
        if (auto *n = dyn_cast<OMPNumThreadsClause>(c)) { const Expr* ne = n->getNumThreads();
          if (auto *dr = dyn_cast<DeclRefExpr>(ne->IgnoreImpCasts())) if (auto *oc = dyn_cast<OMPCapturedExprDecl>(dr->getDecl())) ne = oc->getInit();
          co["e"] = expr(ne); }
        cl.push_back(std::move(co));
      }
      o["cl"] = std::move(cl);
      if (x->hasAssociatedStmt()) {
        const Stmt *A = x->getRawStmt();
        o["b"] = stmt(A);
      }
      return o; }
    if (auto *x = dyn_cast<CapturedStmt>(S)) return stmt(x->getCapturedStmt());
    if (auto *x = dyn_cast<Expr>(S)) { o["k"] = "expr"; o["e"] = expr(x); return o; }
    o["k"] = "unk"; o["what"] = S->getStmtClassName(); return o;
  }

  void function(const FunctionDecl *F) {
    const FunctionDecl *Def = nullptr;
    const FunctionDecl *Any = F;
    bool has = F->hasBody(Def) && Def;
    if (has) F = Def;
    if (!fnDone.insert(Any->getCanonicalDecl()).second) return;
    if (F->isDependentContext()) return;
    json::Object o;
    calleeInfo(o, F);
    o["id"] = fnId(F);
    o["file"] = file(F->getLocation()); o["line"] = line(F->getLocation());
    bool repo = inRoots(F->getLocation());
    o["repo"] = repo;
    json::Array ps;
    for (auto *p : F->parameters()) { json::Object po; po["id"] = varId(p); po["n"] = p->getNameAsString(); po["t"] = type(p->getType()); ps.push_back(std::move(po)); }
    o["ps"] = std::move(ps);
    o["ret"] = type(F->getReturnType());
    o["noret"] = F->isNoReturn();
    if (isa<CXXConstructorDecl>(F)) o["isctor"] = true;
    if (isa<CXXDestructorDecl>(F)) o["isdtor"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isVirtual()) { json::Array ov; for (auto *b : M->overridden_methods()) ov.push_back(fnId(b)); o["over"] = std::move(ov); o["pure"] = M->isPureVirtual(); }
      if (M->getParent()->isLambda()) o["lam"] = lamId(M->getParent());
    }
    if (repo && has) {
      if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
        json::Array is;
        for (auto *I : K->inits()) {
          json::Object io;
          if (I->isAnyMemberInitializer()) { io["field"] = I->getAnyMember()->getNameAsString(); }
          else if (I->isBaseInitializer()) { io["base"] = type(QualType(I->getBaseClass(), 0)); }
          else io["deleg"] = true;
          io["e"] = expr(I->getInit());
          is.push_back(std::move(io));
        }
        o["inits"] = std::move(is);
      }
      if (!F->isDefaulted() && !(F->isImplicit() && !isLambdaCallOp(F))) o["body"] = stmt(F->getBody());
      o["el"] = line(F->getEndLoc());
    }
    if (F->isDefaulted()) o["defaulted"] = true;
    functions.push_back(std::move(o));
  }
  bool isLambdaCallOp(const FunctionDecl *F) {
    auto *M = dyn_cast<CXXMethodDecl>(F);
    return M && M->getParent()->isLambda();
  }
  void drain() {
    while (!fnQueue.empty()) { auto *F = fnQueue.back(); fnQueue.pop_back(); function(F); }
  }
};

class V : public RecursiveASTVisitor<V> {
 public:
  Emitter &E;
  explicit V(Emitter &e) : E(e) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext()) return true;
    if (!E.inRoots(F->getLocation())) return true;
    if (F->doesThisDeclarationHaveABody()) E.fnId(F);
    return true;
  }
};

class Cons : public ASTConsumer {
 public:
  CompilerInstance &CI;
  explicit Cons(CompilerInstance &c) : CI(c) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (CI.getDiagnostics().hasErrorOccurred()) return;
    Emitter E(C);
    V v(E);
    v.TraverseDecl(C.getTranslationUnitDecl());
    E.drain();
    std::error_code ec;
    llvm::raw_fd_ostream os(g_out, ec);
    json::Object top;
    top["types"] = std::move(E.types);
    top["functions"] = std::move(E.functions);
    top["records"] = std::move(E.records);
    os << json::Value(std::move(top));
  }
};
class Act : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Cons>(CI); }
};

int main(int argc, char **argv) {
  // usage: extract OUT ROOT[:ROOT...] FILE -- flags...
  if (argc < 4) return 2;
  g_out = argv[1];
  std::string r = argv[2];
  size_t p = 0;
  while (p <= r.size()) { size_t q = r.find(':', p); if (q == std::string::npos) q = r.size(); g_roots.push_back(r.substr(p, q - p)); p = q + 1; }
  std::vector<std::string> flags;
  for (int i = 4; i < argc; i++) if (std::string(argv[i]) != "--") flags.push_back(argv[i]);
  clang::tooling::FixedCompilationDatabase db(".", flags);
  std::vector<std::string> files{argv[3]};
  clang::tooling::ClangTool tool(db, files);
  return tool.run(clang::tooling::newFrontendActionFactory<Act>().get());
}
