// yagax: mechanical extractor.  Parses a translation unit of /repo with clang 18 and writes every
// function definition whose source lies under the given root (template instantiations included, lambdas
// included) as a JSON tree of the *semantic* AST (types canonical, overloads resolved, implicit
// conversions explicit).  Nothing is rewritten; what is dropped is listed in DESIGN.md.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <deque>

using namespace clang;
namespace json = llvm::json;
static std::string Root;
static std::string OutPath;

static std::string sstr(const llvm::APSInt &v) { llvm::SmallString<32> s; v.toString(s, 10); return std::string(s.str()); }
struct Ex {
  ASTContext &C;
  std::unique_ptr<MangleContext> Mg;
  PrintingPolicy PP;
  std::map<std::string, int> typeIdx;
  json::Array types;
  json::Object funcs, records, globals;
  std::set<std::string> doneRec;
  std::set<const FunctionDecl *> seenF;
  std::deque<const FunctionDecl *> queue;
  std::map<const Decl *, int> ids;
  Ex(ASTContext &C) : C(C), Mg(C.createMangleContext()), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true;
    PP.AnonymousTagLocations = true;
  }
  int id(const Decl *D) { D = D->getCanonicalDecl(); auto it = ids.find(D); if (it != ids.end()) return it->second; int n = ids.size() + 1; ids[D] = n; return n; }

  std::string loc(SourceLocation L) {
    L = C.getSourceManager().getExpansionLoc(L);
    PresumedLoc P = C.getSourceManager().getPresumedLoc(L);
    if (P.isInvalid()) return "?";
    return std::string(P.getFilename()) + ":" + std::to_string(P.getLine()) + ":" + std::to_string(P.getColumn());
  }
  int line(SourceLocation L) { L = C.getSourceManager().getExpansionLoc(L); PresumedLoc P = C.getSourceManager().getPresumedLoc(L); return P.isInvalid() ? 0 : P.getLine(); }
  bool inRoot(SourceLocation L) {
    L = C.getSourceManager().getExpansionLoc(L);
    PresumedLoc P = C.getSourceManager().getPresumedLoc(L);
    if (P.isInvalid()) return false;
    llvm::StringRef f(P.getFilename());
    return f.starts_with(Root);
  }
  std::string tstr(QualType T) { return T.getCanonicalType().getAsString(PP); }

  int type(QualType T0) {
    if (T0.isNull()) return -1;
    QualType T = T0.getCanonicalType().getUnqualifiedType();
    bool isConst = T0.isConstQualified(); (void)isConst;
    std::string key = tstr(T);
    if (auto *RT = T->getAs<RecordType>()) // lambdas in instantiations share a printed name
      if (auto *RD = dyn_cast<CXXRecordDecl>(RT->getDecl()))
        if (RD->isLambda()) key += "#" + std::to_string(id(RD));
    auto it = typeIdx.find(key);
    if (it != typeIdx.end()) return it->second;
    int n = types.size();
    typeIdx[key] = n;
    types.push_back(json::Object{});
    json::Object o;
    o["s"] = key;
    T = T.getUnqualifiedType();
    if (auto *A = dyn_cast<ArrayType>(T.getTypePtr())) { o["k"] = "arr"; o["t"] = type(A->getElementType());
      if (auto *CA = dyn_cast<ConstantArrayType>(A)) o["n"] = (int64_t)CA->getSize().getZExtValue(); }
    else if (T->isBooleanType()) o["k"] = "bool";
    else if (auto *E = T->getAs<EnumType>()) {
      o["k"] = "enum"; o["q"] = E->getDecl()->getQualifiedNameAsString();
      QualType I = E->getDecl()->getIntegerType();
      if (!I.isNull()) { o["bits"] = (int64_t)C.getIntWidth(I); o["signed"] = I->isSignedIntegerType(); }
      json::Array vals; for (auto *c : E->getDecl()->enumerators()) vals.push_back(json::Array{c->getNameAsString(), sstr(c->getInitVal())});
      o["vals"] = std::move(vals); o["scoped"] = E->getDecl()->isScoped();
    }
    else if (T->isIntegerType()) { o["k"] = "int"; o["bits"] = (int64_t)C.getIntWidth(T); o["signed"] = T->isSignedIntegerType(); }
    else if (T->isFloatingType()) o["k"] = "float";
    else if (T->isVoidType()) o["k"] = "void";
    else if (T->isNullPtrType()) o["k"] = "nullptr";
    else if (T->isPointerType()) { o["k"] = "ptr"; o["t"] = type(T->getPointeeType()); }
    else if (T->isReferenceType()) { o["k"] = "ref"; o["rv"] = T->isRValueReferenceType(); o["t"] = type(T.getNonReferenceType()); }
    else if (auto *R = T->getAs<RecordType>()) {
      o["k"] = "rec"; auto *D = R->getDecl();
      o["q"] = D->getQualifiedNameAsString();
      if (auto *CD = dyn_cast<CXXRecordDecl>(D)) {
        if (CD->isLambda()) o["lambda"] = true;
        if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(CD)) {
          json::Array ta; for (auto &a : S->getTemplateArgs().asArray()) targ(a, ta); o["targs"] = std::move(ta);
        }
      }
      types[n] = std::move(o);
      record(D, key, n);
      return n;
    }
    else if (T->isFunctionType()) o["k"] = "func";
    else { o["k"] = "other"; }
    types[n] = std::move(o);
    return n;
  }
  void targ(const TemplateArgument &a, json::Array &out) {
    switch (a.getKind()) {
    case TemplateArgument::Type: out.push_back(json::Object{{"t", type(a.getAsType())}}); break;
    case TemplateArgument::Integral: out.push_back(json::Object{{"i", sstr(a.getAsIntegral())}}); break;
    case TemplateArgument::Pack: for (auto &b : a.pack_elements()) targ(b, out); break;
    default: out.push_back(json::Object{{"o", 1}});
    }
  }
  void record(const RecordDecl *D0, const std::string &key, int tid) {
    auto *D = D0->getDefinition();
    if (!D || doneRec.count(key)) return;
    doneRec.insert(key);
    json::Object o; o["q"] = D->getQualifiedNameAsString(); o["tid"] = tid;
    bool mine = inRoot(D->getLocation());
    o["mine"] = mine;
    if (mine || true) {
      json::Array fs;
      for (auto *f : D->fields()) {
        bool use = mine; 
        std::string q = D->getQualifiedNameAsString();
        if (!use) { if (q == "std::pair" || q == "__mpq_struct" || q == "__mpz_struct" || q == "std::unary_function") use = true; }
        if (!use) continue;
        json::Object fo{{"name", f->getNameAsString()}, {"t", type(f->getType())}};
        if (f->isMutable()) fo["mutable"] = true;
        if (mine && f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
        fs.push_back(std::move(fo));
      }
      o["fields"] = std::move(fs);
      json::Array bs;
      if (auto *CD = dyn_cast<CXXRecordDecl>(D)) if (mine) {
        for (auto &b : CD->bases()) bs.push_back(type(b.getType()));
        if (CD->isLambda()) {
          if (auto *op = CD->getLambdaCallOperator()) { o["callop"] = fkey(op); }
          json::Array caps; 
          for (auto &cp : CD->captures()) {
            json::Object co; co["this"] = cp.capturesThis(); if (cp.capturesVariable()) { co["var"] = id(cp.getCapturedVar()); co["name"] = cp.getCapturedVar()->getNameAsString(); co["t"] = type(cp.getCapturedVar()->getType()); }
            co["byref"] = cp.getCaptureKind() == LCK_ByRef; caps.push_back(std::move(co));
          }
          o["captures"] = std::move(caps);
        }
        o["poly"] = CD->isPolymorphic();
      }
      o["bases"] = std::move(bs);
    }
    records[key] = std::move(o);
  }
  std::string fkey(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    std::string s; llvm::raw_string_ostream os(s);
    GlobalDecl GD;
    if (auto *c = dyn_cast<CXXConstructorDecl>(F)) GD = GlobalDecl(c, Ctor_Complete);
    else if (auto *d = dyn_cast<CXXDestructorDecl>(F)) GD = GlobalDecl(d, Dtor_Complete);
    else GD = GlobalDecl(F);
    bool dep = F->isDependentContext();
    if (!dep && Mg->shouldMangleDeclName(F)) Mg->mangleName(GD, os); else os << F->getQualifiedNameAsString();
    os.flush();
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) s += "@" + loc(F->getLocation()) + "#" + std::to_string(id(M->getParent()));
    if (F->isInAnonymousNamespace() || F->getStorageClass() == SC_Static) if (!isa<CXXMethodDecl>(F)) s += "@" + loc(F->getLocation());
    return s;
  }
  json::Object fref(const FunctionDecl *F) {
    json::Object o; o["q"] = F->getQualifiedNameAsString(); o["n"] = F->getNameAsString(); o["rt"] = type(F->getReturnType());
    const FunctionDecl *Def = nullptr;
    bool has = F->isDefined(Def);
    SourceLocation L = (has ? Def : F)->getLocation();
    if (const FunctionDecl *P = F->getTemplateInstantiationPattern()) { const FunctionDecl* PD=nullptr; if (P->isDefined(PD)) L = PD->getLocation(); else L = P->getLocation(); }
    bool mine = inRoot(L);
    o["key"] = fkey(F);
    if (mine) { o["mine"] = true; push(F); }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { if (M->isVirtual()) o["virt"] = true; if (M->isStatic()) o["static"] = true; if (M->isConst()) o["cm"] = true;
      o["cls"] = type(C.getRecordType(M->getParent())); 
      if (F->isDefaulted()) o["defaulted"] = true; 
      if (isa<CXXConversionDecl>(M)) o["conv"] = true;}
    json::Array ps; for (auto *p : F->parameters()) ps.push_back(type(p->getType())); o["pt"] = std::move(ps);
    if (auto *ta = F->getTemplateSpecializationArgs()) { json::Array a; for (auto &x : ta->asArray()) targ(x, a); o["targs"] = std::move(a); }
    if (F->getBuiltinID()) o["builtin"] = true;
    return o;
  }
  void push(const FunctionDecl *F) { F = F->getCanonicalDecl(); if (F->isDependentContext()) return; if (seenF.insert(F).second) queue.push_back(F); }

  json::Object mk(const char *k, const Expr *E) {
    json::Object o; o["e"] = k; o["t"] = type(E->getType()); o["l"] = line(E->getExprLoc());
    if (E->isLValue()) o["lv"] = 1; else if (E->isXValue()) o["lv"] = 2;
    return o;
  }
  json::Value varInit(const VarDecl *V) { if (V->hasInit()) return expr(V->getInit()); return nullptr; }
  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    // constants
    if (!E->isValueDependent() && !E->isTypeDependent() && E->isPRValue() && (E->getType()->isIntegralOrEnumerationType())) {
      Expr::EvalResult R;
      if (!isa<CXXDefaultInitExpr>(E) && E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
        auto o = mk("int", E); llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); o["v"] = std::string(s.str()); return o;
      }
    }
    if (auto *X = dyn_cast<FullExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) { auto o = mk("mat", E); o["x"] = expr(X->getSubExpr()); return o; }
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(X->getSemanticForm());
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) { auto o = mk("stdinit", E); o["x"] = expr(X->getSubExpr()); return o; }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) { auto o = mk("int", E); llvm::SmallString<32> s; X->getValue().toString(s, 10, X->getType()->isSignedIntegerType()); o["v"] = std::string(s.str()); return o; }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { auto o = mk("int", E); o["v"] = std::to_string(X->getValue()); return o; }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { auto o = mk("int", E); o["v"] = X->getValue() ? "1" : "0"; return o; }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) { auto o = mk("flt", E); llvm::SmallString<32> s; X->getValue().toString(s); o["v"] = std::string(s.str()); return o; }
    if (auto *X = dyn_cast<StringLiteral>(E)) { auto o = mk("str", E); if (X->getCharByteWidth() == 1) o["v"] = json::fixUTF8(X->getString()); return o; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return mk("null", E);
    if (isa<CXXThisExpr>(E)) return mk("this", E);
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) return mk("zero", E);
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      auto o = mk("ref", E);
      auto *D = X->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["e"] = "fref"; o["fn"] = fref(F); return o; }
      if (auto *B = dyn_cast<BindingDecl>(D)) { o["id"] = id(B); o["name"] = B->getNameAsString(); return o; }
      o["id"] = id(D); o["name"] = D->getNameAsString();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { o["e"] = "int"; llvm::SmallString<32> s; EC->getInitVal().toString(s, 10); o["v"] = std::string(s.str()); return o; }
      if (auto *V = dyn_cast<VarDecl>(D)) if (V->hasGlobalStorage()) {
        std::string q = V->getQualifiedNameAsString(); if (V->isStaticLocal()) q += "@" + loc(V->getLocation());
        o["global"] = q;
        if (!globals.get(q)) { globals[q] = json::Object{{"t", type(V->getType())}}; 
          const VarDecl *Df = V->getInitializingDeclaration(); 
          if (Df && Df->hasInit() && inRoot(Df->getLocation()) && V->getType().isConstQualified()) { auto v = expr(Df->getInit()); (*globals.getObject(q))["init"] = std::move(v); } }
      }
      return o;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      auto *D = X->getMemberDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) { auto o = mk("ref", E); o["id"] = id(V); o["name"] = V->getNameAsString(); std::string q = V->getQualifiedNameAsString(); o["global"] = q;
        if (!globals.get(q)) { globals[q] = json::Object{{"t", type(V->getType())}}; const VarDecl *Df = V->getInitializingDeclaration(); 
          if (Df && Df->hasInit() && inRoot(Df->getLocation()) && V->getType().isConstQualified()) { auto v = expr(Df->getInit()); (*globals.getObject(q))["init"] = std::move(v); } }
        return o; }
      if (isa<CXXMethodDecl>(D)) { auto o = mk("memfn", E); o["x"] = expr(X->getBase()); o["arrow"] = X->isArrow(); o["fn"] = fref(cast<FunctionDecl>(D)); return o; }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { auto o = mk("int", E); llvm::SmallString<32> s; EC->getInitVal().toString(s, 10); o["v"] = std::string(s.str()); return o; }
      auto o = mk("mem", E); o["x"] = expr(X->getBase()); o["arrow"] = X->isArrow(); o["name"] = D->getNameAsString();
      o["cls"] = cast<FieldDecl>(D)->getParent()->getQualifiedNameAsString();
      return o;
    }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      CastKind K = X->getCastKind();
      if (K == CK_NoOp || K == CK_ConstructorConversion || K == CK_UserDefinedConversion || K == CK_FunctionToPointerDecay || K == CK_BuiltinFnToFnPtr) {
        // NoOp keeps the value; remember nothing
        return expr(X->getSubExpr());
      }
      auto o = mk("cast", E); o["ck"] = X->getCastKindName(); o["x"] = expr(X->getSubExpr());
      if (K == CK_DerivedToBase || K == CK_UncheckedDerivedToBase || K == CK_BaseToDerived || K == CK_Dynamic) o["explicit"] = !isa<ImplicitCastExpr>(X);
      return o;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) { auto o = mk("un", E); o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str(); o["x"] = expr(X->getSubExpr()); o["post"] = X->isPostfix(); return o; }
    if (auto *X = dyn_cast<BinaryOperator>(E)) { // includes compound
      auto o = mk(isa<CompoundAssignOperator>(X) ? "casg" : "bin", E); o["op"] = X->getOpcodeStr().str(); o["a"] = expr(X->getLHS()); o["b"] = expr(X->getRHS());
      if (auto *CA = dyn_cast<CompoundAssignOperator>(X)) { o["ct"] = type(CA->getComputationLHSType()); o["crt"] = type(CA->getComputationResultType()); }
      return o; }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) { auto o = mk("cond", E); o["c"] = expr(X->getCond()); o["a"] = expr(X->getTrueExpr()); o["b"] = expr(X->getFalseExpr()); return o; }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { auto o = mk("sub", E); o["a"] = expr(X->getBase()); o["b"] = expr(X->getIdx()); return o; }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      auto o = mk("mcall", E);
      if (auto *M = X->getMethodDecl()) {
        o["fn"] = fref(M);
        const Expr *callee = X->getCallee()->IgnoreParens();
        if (auto *ME = dyn_cast<MemberExpr>(callee)) { o["obj"] = expr(ME->getBase()); o["arrow"] = ME->isArrow(); if (ME->hasQualifier()) o["qualified"] = true; }
      } else o["fn"] = nullptr;
      json::Array a; for (auto *x : X->arguments()) a.push_back(expr(x)); o["args"] = std::move(a); return o;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      auto *F = X->getDirectCallee();
      if (auto *M = dyn_cast_or_null<CXXMethodDecl>(F)) {
        if (!M->isStatic()) {
        auto o = mk("mcall", E); o["fn"] = fref(M); o["obj"] = expr(X->getArg(0)); o["arrow"] = false; o["opcall"] = true;
        json::Array a; for (unsigned i = 1; i < X->getNumArgs(); ++i) a.push_back(expr(X->getArg(i))); o["args"] = std::move(a); return o; }
      }
      auto o = mk("call", E); if (F) o["fn"] = fref(F);
      json::Array a; for (auto *x : X->arguments()) a.push_back(expr(x)); o["args"] = std::move(a); return o;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      auto o = mk("call", E); auto *F = X->getDirectCallee(); if (F) o["fn"] = fref(F); else o["callee"] = expr(X->getCallee());
      json::Array a; for (auto *x : X->arguments()) a.push_back(expr(x)); o["args"] = std::move(a); return o;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) { auto o = mk("unsup", E); o["cls"] = X->getStmtClassName(); return o; }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) { // includes temporaries
      auto o = mk("ctor", E); o["fn"] = fref(X->getConstructor()); json::Array a; for (auto *x : X->arguments()) a.push_back(expr(x)); o["args"] = std::move(a);
      o["elide"] = X->isElidable(); o["list"] = X->isListInitialization(); o["zeroinit"] = X->requiresZeroInitialization(); o["copymove"] = X->getConstructor()->isCopyOrMoveConstructor();
      if (X->getConstructor()->isMoveConstructor()) o["move"] = true;
      return o;
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      if (auto *S = X->getSemanticForm()) X = S;
      auto o = mk("ilist", E); json::Array a; for (auto *x : X->inits()) a.push_back(expr(x)); o["args"] = std::move(a);
      if (auto *f = X->getInitializedFieldInUnion()) o["union"] = f->getNameAsString();
      return o;
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      auto o = mk("lambda", E); json::Array caps; auto ii = X->capture_init_begin();
      for (auto &cp : X->captures()) { json::Object co; co["this"] = cp.capturesThis(); if (cp.capturesVariable()) { co["id"] = id(cp.getCapturedVar()); co["name"] = cp.getCapturedVar()->getNameAsString(); co["t"] = type(cp.getCapturedVar()->getType()); }
        co["byref"] = cp.getCaptureKind() == LCK_ByRef; co["init"] = *ii ? expr(*ii) : json::Value(nullptr); ++ii; caps.push_back(std::move(co)); }
      o["caps"] = std::move(caps); o["callop"] = fkey(X->getCallOperator()); push(X->getCallOperator());
      if (auto *T = X->getCallOperator()->getDescribedFunctionTemplate()) { json::Array sp; for (auto *s : T->specializations()) { sp.push_back(fref(s)); } o["specs"] = std::move(sp); }
      return o;
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) { auto o = mk("new", E); o["at"] = type(X->getAllocatedType()); o["init"] = X->getInitializer() ? expr(X->getInitializer()) : json::Value(nullptr); o["array"] = X->isArray(); return o; }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { auto o = mk("delete", E); o["x"] = expr(X->getArgument()); return o; }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) { auto o = mk("throw", E); o["x"] = X->getSubExpr() ? expr(X->getSubExpr()) : json::Value(nullptr); return o; }
    if (auto *X = dyn_cast<StmtExpr>(E)) { auto o = mk("stmtexpr", E); o["x"] = stmt(X->getSubStmt()); return o; }
    if (isa<PredefinedExpr>(E) || isa<SourceLocExpr>(E)) return mk("str", E);
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) if (X->getSourceExpr()) return expr(X->getSourceExpr());
    if (auto *X = dyn_cast<CXXTypeidExpr>(E)) { (void)X; return mk("typeid", E); }
    if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) { auto o = mk("arrcopy", E); o["x"] = expr(X->getCommonExpr()->getSourceExpr()); return o; }
    auto o = mk("unsup", E); o["cls"] = E->getStmtClassName(); return o;
  }
  json::Value decl(const VarDecl *V) {
    json::Object o; o["id"] = id(V); o["name"] = V->getNameAsString(); o["t"] = type(V->getType()); o["init"] = varInit(V);
    if (V->isStaticLocal()) { o["static"] = true; o["global"] = V->getQualifiedNameAsString() + "@" + loc(V->getLocation()); }
    if (auto *D = dyn_cast<DecompositionDecl>(V)) {
      json::Array bs;
      for (auto *b : D->bindings()) { json::Object bo; bo["id"] = id(b); bo["name"] = b->getNameAsString();
        if (auto *hv = b->getHoldingVar()) { bo["hold"] = decl(hv); bo["hid"] = id(hv); }
        if (b->getBinding()) bo["x"] = expr(b->getBinding());
        bs.push_back(std::move(bo)); }
      o["bindings"] = std::move(bs);
    }
    return o;
  }
  json::Object smk(const char *k, const Stmt *S) { json::Object o; o["s"] = k; o["l"] = line(S->getBeginLoc()); return o; }
  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *X = dyn_cast<CompoundStmt>(S)) { auto o = smk("block", S); json::Array a; for (auto *x : X->body()) a.push_back(stmt(x)); o["b"] = std::move(a); return o; }
    if (auto *X = dyn_cast<DeclStmt>(S)) { auto o = smk("decl", S); json::Array a; for (auto *d : X->decls()) if (auto *V = dyn_cast<VarDecl>(d)) a.push_back(decl(V)); o["d"] = std::move(a); return o; }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      if (X->isConstexpr() && !X->getCond()->isValueDependent()) {
        Expr::EvalResult R; if (X->getCond()->EvaluateAsInt(R, C)) { bool v = R.Val.getInt().getBoolValue(); const Stmt *br = v ? X->getThen() : X->getElse(); if (!br) return smk("block", S); return stmt(br); }
      }
      auto o = smk("if", S); o["init"] = stmt(X->getInit()); o["cv"] = X->getConditionVariable() ? decl(X->getConditionVariable()) : json::Value(nullptr);
      o["c"] = expr(X->getCond()); o["a"] = stmt(X->getThen()); o["b"] = stmt(X->getElse()); return o; }
    if (auto *X = dyn_cast<ForStmt>(S)) { auto o = smk("for", S); o["init"] = stmt(X->getInit()); o["cv"] = X->getConditionVariable() ? decl(X->getConditionVariable()) : json::Value(nullptr); o["c"] = expr(X->getCond()); o["inc"] = expr(X->getInc()); o["body"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<WhileStmt>(S)) { auto o = smk("while", S); o["cv"] = X->getConditionVariable() ? decl(X->getConditionVariable()) : json::Value(nullptr); o["c"] = expr(X->getCond()); o["body"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<DoStmt>(S)) { auto o = smk("do", S); o["c"] = expr(X->getCond()); o["body"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      auto o = smk("rfor", S); o["init"] = stmt(X->getInit()); o["range"] = stmt(X->getRangeStmt()); o["begin"] = stmt(X->getBeginStmt()); o["end"] = stmt(X->getEndStmt());
      o["c"] = expr(X->getCond()); o["inc"] = expr(X->getInc()); o["var"] = stmt(X->getLoopVarStmt()); o["body"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { auto o = smk("ret", S); o["x"] = X->getRetValue() ? expr(X->getRetValue()) : json::Value(nullptr); return o; }
    if (isa<BreakStmt>(S)) return smk("break", S);
    if (isa<ContinueStmt>(S)) return smk("cont", S);
    if (isa<NullStmt>(S)) return smk("block", S);
    if (auto *X = dyn_cast<GotoStmt>(S)) { auto o = smk("goto", S); o["lab"] = X->getLabel()->getNameAsString(); return o; }
    if (auto *X = dyn_cast<LabelStmt>(S)) { auto o = smk("label", S); o["lab"] = std::string(X->getName()); o["x"] = stmt(X->getSubStmt()); return o; }
    if (auto *X = dyn_cast<SwitchStmt>(S)) { auto o = smk("switch", S); o["init"] = stmt(X->getInit()); o["cv"] = X->getConditionVariable() ? decl(X->getConditionVariable()) : json::Value(nullptr); o["c"] = expr(X->getCond()); o["body"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<CaseStmt>(S)) { auto o = smk("case", S); o["v"] = expr(X->getLHS()); o["x"] = stmt(X->getSubStmt()); return o; }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { auto o = smk("default", S); o["x"] = stmt(X->getSubStmt()); return o; }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<CXXTryStmt>(S)) { auto o = smk("try", S); o["x"] = stmt(X->getTryBlock()); json::Array h; for (unsigned i = 0; i < X->getNumHandlers(); ++i) h.push_back(stmt(X->getHandler(i)->getHandlerBlock())); o["h"] = std::move(h); return o; }
    if (auto *X = dyn_cast<Expr>(S)) { auto o = smk("expr", S); o["x"] = expr(X); return o; }
    auto o = smk("unsup", S); o["cls"] = S->getStmtClassName(); return o;
  }
  void func(const FunctionDecl *F) {
    std::string key = fkey(F);
    const FunctionDecl *Def = nullptr;
    if (!F->isDefined(Def)) {
      return;
    }
    if (funcs.get(key)) return;
    json::Object o;
    o["q"] = Def->getQualifiedNameAsString(); o["n"] = Def->getNameAsString(); o["file"] = loc(Def->getLocation()); o["ret"] = type(Def->getReturnType());
    { SourceLocation B = Def->getBeginLoc(), E = Def->getEndLoc(); o["l0"] = line(B); o["l1"] = line(E); }
    json::Array ps; for (auto *p : Def->parameters()) ps.push_back(json::Object{{"id", id(p)}, {"name", p->getNameAsString()}, {"t", type(p->getType())}});
    o["params"] = std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(Def)) { o["cls"] = type(C.getRecordType(M->getParent())); o["static"] = M->isStatic(); o["cm"] = M->isConst(); if (M->isVirtual()) {o["virt"] = true; 
        json::Array ov; for (auto *b : M->overridden_methods()) ov.push_back(fkey(b)); o["overrides"] = std::move(ov);} }
    if (auto *ta = Def->getTemplateSpecializationArgs()) { json::Array a; for (auto &x : ta->asArray()) targ(x, a); o["targs"] = std::move(a); }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(Def)) {
      o["kind"] = "ctor"; json::Array ins;
      for (auto *i : CD->inits()) { json::Object io; if (i->isAnyMemberInitializer()) { io["f"] = i->getAnyMember()->getNameAsString(); } else if (i->isBaseInitializer()) { io["base"] = type(QualType(i->getBaseClass(), 0)); } else io["deleg"] = true;
        io["x"] = expr(i->getInit()); ins.push_back(std::move(io)); }
      o["inits"] = std::move(ins);
    } else if (isa<CXXDestructorDecl>(Def)) o["kind"] = "dtor"; else o["kind"] = "fn";
    if (Def->isDefaulted()) o["defaulted"] = true;
    funcs[key] = nullptr;
    auto b = stmt(Def->getBody());
    o["body"] = std::move(b);
    funcs[key] = std::move(o);
  }
  void run() { while (!queue.empty()) { auto *F = queue.front(); queue.pop_front(); func(F); } }
};

struct V : RecursiveASTVisitor<V> {
  Ex &X; V(Ex &X) : X(X) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext() || !F->doesThisDeclarationHaveABody()) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true; // reached through LambdaExpr
    if (X.inRoot(F->getLocation())) X.push(F);
    return true;
  }
};
struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    Ex X(C); V v(X); v.TraverseDecl(C.getTranslationUnitDecl()); X.run();
    json::Object out; out["types"] = std::move(X.types); out["funcs"] = std::move(X.funcs); out["records"] = std::move(X.records); out["globals"] = std::move(X.globals);
    out["errors"] = C.getDiagnostics().hasErrorOccurred();
    std::error_code ec; llvm::raw_fd_ostream os(OutPath, ec); os << json::Value(std::move(out)); 
  }
};
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Cons>(); } };
int main(int argc, char **argv) {
  if (argc < 4) return 2;
  Root = argv[1]; OutPath = argv[2]; std::string src = argv[3];
  std::vector<std::string> args; for (int i = 4; i < argc; ++i) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", args);
  tooling::ClangTool T(DB, {src});
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
