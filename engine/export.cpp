// Exports the typed syntax trees of the functions defined under a source root as JSON.
// usage: export ROOT FILE... -- clang flags
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;
static std::string Root;

struct Exporter : RecursiveASTVisitor<Exporter> {
  ASTContext &C; SourceManager &SM; std::string stem;
  json::Object records, functions, globals, protos; std::set<std::string> seenRec;
  json::Array files; std::map<std::string,int> fileIdx;
  std::map<const Decl*, std::string> localIds; int nextLocal = 0; std::string curFn;
  Exporter(ASTContext &C, std::string stem) : C(C), SM(C.getSourceManager()), stem(stem) {}
  bool shouldVisitTemplateInstantiations() const { return false; }

  int fileOf(SourceLocation L) {
    std::string f = SM.getFilename(SM.getExpansionLoc(L)).str();
    auto it = fileIdx.find(f); if (it != fileIdx.end()) return it->second;
    int i = files.size(); files.push_back(f); fileIdx[f] = i; return i;
  }
  int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inRoot(SourceLocation L) {
    std::string f = SM.getFilename(SM.getExpansionLoc(L)).str();
    return f.compare(0, Root.size(), Root) == 0;
  }
  std::string recName(const RecordDecl *R) {
    R = R->getDefinition() ? R->getDefinition() : R;
    std::string n = R->getQualifiedNameAsString();
    if (R->getName().empty() && !R->getTypedefNameForAnonDecl()) {
      const DeclContext *P = R->getParent(); std::string pn;
      if (auto *PR = dyn_cast<RecordDecl>(P)) pn = recName(PR); 
      else if (auto *PF = dyn_cast<FunctionDecl>(P)) pn = PF->getNameAsString();
      int i = 0; for (auto *D : P->decls()) { if (D == R) break; if (isa<RecordDecl>(D)) i++; }
      return pn + ".$anon" + std::to_string(i);
    }
    if (R->getName().empty()) return R->getTypedefNameForAnonDecl()->getNameAsString();
    return n;
  }
  std::string T(QualType Q) {
    Q = Q.getCanonicalType().getUnqualifiedType();
    const Type *t = Q.getTypePtr();
    if (t->isVoidType()) return "v";
    if (t->isBooleanType()) return "b";
    if (t->isNullPtrType()) return "p:v";
    if (auto *E = t->getAs<EnumType>()) { E->getDecl(); return "e" + std::to_string(C.getTypeSize(Q)) + ":" + E->getDecl()->getNameAsString(); }
    if (t->isIntegerType()) return std::string(t->isSignedIntegerType() ? "i" : "u") + std::to_string(C.getTypeSize(Q));
    if (t->isFloatingType()) return "f" + std::to_string(C.getTypeSize(Q));
    if (t->isPointerType()) return "p:" + T(t->getPointeeType());
    if (t->isReferenceType()) return "R:" + T(t->getPointeeType());
    if (auto *A = C.getAsConstantArrayType(Q)) return "a:" + std::to_string(A->getSize().getZExtValue()) + ":" + T(A->getElementType());
    if (auto *A = C.getAsArrayType(Q)) return "a:0:" + T(A->getElementType());
    if (t->isFunctionType()) return "fn";
    if (auto *R = t->getAs<RecordType>()) { addRec(R->getDecl()); return "r:" + recName(R->getDecl()); }
    return "?";
  }
  void addRec(const RecordDecl *R) {
    R = R->getDefinition(); if (!R || R->isInvalidDecl() || R->isDependentType()) return;
    std::string n = recName(R); if (!seenRec.insert(n).second) return;
    json::Object o; json::Array fs;
    if (!n.compare(0,5,"std::") || n.find("__gnu")==0) { records[n] = json::Object{{"opaque",true}}; return; }
    const ASTRecordLayout &L = C.getASTRecordLayout(R);
    int i = 0;
    for (auto *F : R->fields()) {
      json::Object f; f["n"] = fieldName(F); f["t"] = T(F->getType()); f["o"] = (int64_t)L.getFieldOffset(i++);
      if (F->isBitField()) f["w"] = (int64_t)F->getBitWidthValue(C); else f["w"] = (int64_t)C.getTypeSize(F->getType());
      fs.push_back(std::move(f));
    }
    o["union"] = R->isUnion(); o["size"] = (int64_t)L.getSize().getQuantity(); o["fields"] = std::move(fs);
    records[n] = std::move(o);
  }
  std::string fieldName(const FieldDecl *F) {
    if (!F->getName().empty()) return F->getNameAsString();
    return "$" + std::to_string(F->getFieldIndex());
  }
  std::string fnKey(const FunctionDecl *F) {
    std::string n = F->getQualifiedNameAsString();
    if (isa<CXXMethodDecl>(F)) return n;
    if (F->getFormalLinkage() == Linkage::Internal) {
      std::string f = SM.getFilename(SM.getExpansionLoc(F->getCanonicalDecl()->getLocation())).str();
      return stem + "::" + n + ov(F);
    }
    return n + ov(F);
  }
  std::string ov(const FunctionDecl *F) { // overloads of the program get their arity attached
    int c = 0; 
    if (!inRoot(F->getLocation())) return "";
    for (auto *D : F->getDeclContext()->getRedeclContext()->lookup(F->getDeclName())) if (auto *G = dyn_cast<FunctionDecl>(D)) { (void)G; c++; }
    return c > 1 ? "/" + std::to_string(F->getNumParams()) : "";
  }
  json::Object node(const char *k, const Stmt *S) {
    json::Object o; o["k"] = k; SourceLocation L = S->getBeginLoc(); o["l"] = line(L);
    int f = fileOf(L); if (f != curFile) o["fi"] = f;
    return o;
  }
  int curFile = 0;
  json::Value E(const Expr *e0) {
    const Expr *e = e0;
    while (true) {
      if (auto *P = dyn_cast<ParenExpr>(e)) e = P->getSubExpr();
      else if (auto *P = dyn_cast<ExprWithCleanups>(e)) e = P->getSubExpr();
      else if (auto *P = dyn_cast<MaterializeTemporaryExpr>(e)) e = P->getSubExpr();
      else if (auto *P = dyn_cast<CXXBindTemporaryExpr>(e)) e = P->getSubExpr();
      else if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = P->getReplacement();
      else if (auto *P = dyn_cast<ConstantExpr>(e)) e = P->getSubExpr();
      else break;
    }
    QualType Q = e->getType();
    if (!e->isValueDependent() && e->isPRValue() && (Q->isIntegralOrEnumerationType())) {
      Expr::EvalResult R;
      if (e->EvaluateAsInt(R, C, Expr::SE_NoSideEffects) && !R.HasSideEffects) {
        json::Object o = node("int", e); auto V = R.Val.getInt();
        o["v"] = (V.isSigned() || V.getActiveBits() < 64) ? json::Value(V.getExtValue()) : json::Value((double)V.getZExtValue());
        if (!V.isSigned() && V.getActiveBits() == 64) o["v"] = std::to_string(V.getZExtValue());
        o["t"] = T(Q);
        if (auto *D = dyn_cast<DeclRefExpr>(e->IgnoreImpCasts())) if (isa<EnumConstantDecl>(D->getDecl())) o["e"] = D->getDecl()->getNameAsString();
        return o;
      }
    }
    if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) return E(x->getExpr());
    if (auto *x = dyn_cast<StringLiteral>(e)) { json::Object o = node("str", e); o["s"] = x->getCharByteWidth()==1 ? fix(x->getBytes()) : std::string(); o["n"]=(int64_t)x->getLength(); o["t"] = T(Q); return o; }
    if (auto *x = dyn_cast<PredefinedExpr>(e)) { json::Object o = node("str", e); o["s"] = x->getFunctionName() ? fix(x->getFunctionName()->getBytes()) : ""; o["t"] = T(Q); return o; }
    if (auto *x = dyn_cast<FloatingLiteral>(e)) { json::Object o = node("flt", e); o["v"] = x->getValueAsApproximateDouble(); o["t"] = T(Q); return o; }
    if (auto *x = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl *D = x->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { T(Q); json::Object o = node("fn", e); o["n"] = fnKey(F); o["b"] = F->getNameAsString(); proto(F); return o; }
      json::Object o = node("var", e); o["d"] = varId(D); o["t"] = T(D->getType()); return o;
    }
    if (auto *x = dyn_cast<MemberExpr>(e)) {
      if (auto *F = dyn_cast<FieldDecl>(x->getMemberDecl())) {
        json::Object o = node("mem", e); T(x->getBase()->getType()); 
        addRec(F->getParent());
        o["f"] = fieldName(F); o["r"] = recName(F->getParent()); o["a"] = x->isArrow(); o["b"] = E(x->getBase()); o["t"] = T(F->getType());
        if (F->isBitField()) o["w"] = (int64_t)F->getBitWidthValue(C);
        return o;
      }
      json::Object o = node("memfn", e); o["n"] = x->getMemberDecl()->getQualifiedNameAsString(); o["b"] = E(x->getBase()); return o;
    }
    if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) { json::Object o = node("idx", e); o["b"] = E(x->getBase()); o["i"] = E(x->getIdx()); o["t"] = T(Q); return o; }
    if (auto *x = dyn_cast<UnaryOperator>(e)) {
      json::Object o = node("un", e); o["o"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); o["post"] = x->isPostfix(); o["e"] = E(x->getSubExpr()); o["t"] = T(Q); return o;
    }
    if (auto *x = dyn_cast<CompoundAssignOperator>(e)) {
      json::Object o = node("cas", e); std::string s = x->getOpcodeStr().str(); s.pop_back();
      o["o"] = s; o["a"] = E(x->getLHS()); o["b"] = E(x->getRHS()); o["t"] = T(Q); o["ct"] = T(x->getComputationResultType()); o["lt"] = T(x->getComputationLHSType()); return o;
    }
    if (auto *x = dyn_cast<BinaryOperator>(e)) {
      json::Object o = node(x->getOpcode() == BO_Assign ? "asg" : "bin", e);
      o["o"] = x->getOpcodeStr().str(); o["a"] = E(x->getLHS()); o["b"] = E(x->getRHS()); o["t"] = T(Q); return o;
    }
    if (auto *x = dyn_cast<AbstractConditionalOperator>(e)) {
      if (auto *y = dyn_cast<ConditionalOperator>(x)) { json::Object o = node("cond", e); o["c"] = E(y->getCond()); o["a"] = E(y->getTrueExpr()); o["b"] = E(y->getFalseExpr()); o["t"] = T(Q); return o; }
      auto *z = cast<BinaryConditionalOperator>(x); json::Object o = node("cond", e); o["c"] = E(z->getCommon()); o["a"] = E(z->getCommon()); o["b"] = E(z->getFalseExpr()); o["t"] = T(Q); return o;
    }
    if (auto *x = dyn_cast<CastExpr>(e)) {
      switch (x->getCastKind()) {
        case CK_NoOp: case CK_ConstructorConversion: case CK_UserDefinedConversion: return E(x->getSubExpr());
        case CK_LValueToRValue: { json::Object o = node("load", e); o["e"] = E(x->getSubExpr()); o["t"] = T(Q); return o; }
        default: break;
      }
      json::Object o = node("cast", e); o["c"] = x->getCastKindName(); o["e"] = E(x->getSubExpr()); o["t"] = T(Q); o["ft"] = T(x->getSubExpr()->getType());
      if (isa<ExplicitCastExpr>(x)) o["x"] = true;
      return o;
    }
    if (auto *x = dyn_cast<CallExpr>(e)) {
      json::Object o = node("call", e); o["t"] = T(Q); json::Array as;
      if (auto *m = dyn_cast<CXXMemberCallExpr>(x)) {
        o["n"] = m->getMethodDecl() ? m->getMethodDecl()->getQualifiedNameAsString() : "?"; o["bn"] = m->getMethodDecl() ? m->getMethodDecl()->getNameAsString() : "?"; o["m"] = true; as.push_back(E(m->getImplicitObjectArgument()));
      } else if (const FunctionDecl *F = x->getDirectCallee()) {
        o["n"] = fnKey(F); o["bn"] = F->getNameAsString(); proto(F);
        if (F->isNoReturn() ) o["nr"] = true;
      } else o["f"] = E(x->getCallee());
      for (auto *a : x->arguments()) as.push_back(E(a));
      o["as"] = std::move(as); return o;
    }
    if (auto *x = dyn_cast<InitListExpr>(e)) {
      const InitListExpr *s = x->isSemanticForm() ? x : x->getSemanticForm(); if (!s) s = x;
      json::Object o = node("init", e); json::Array as; 
      for (auto *a : s->inits()) as.push_back(a ? E(a) : json::Value(nullptr));
      if (s->getInitializedFieldInUnion()) o["uf"] = fieldName(s->getInitializedFieldInUnion());
      o["as"] = std::move(as); o["t"] = T(Q); return o;
    }
    if (auto *x = dyn_cast<DesignatedInitUpdateExpr>(e)) { return E(x->getBase()); }
    if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) { json::Object o = node("zero", e); o["t"] = T(Q); return o; }
    if (isa<GNUNullExpr>(e) || isa<CXXNullPtrLiteralExpr>(e)) { json::Object o = node("int", e); o["v"] = 0; o["t"] = "p:v"; return o; }
    if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
      auto *D = x->getConstructor();
      if (x->getNumArgs() == 1 && D->isCopyOrMoveConstructor() && D->isTrivial()) { json::Object o = node("load", e); o["e"] = E(x->getArg(0)); o["t"] = T(Q); return o; }
      if (x->getNumArgs() == 1 && D->isCopyOrMoveConstructor()) { json::Object o = node("load", e); o["e"] = E(x->getArg(0)); o["t"] = T(Q); return o; }
      json::Object o = node("ctor", e); json::Array as; for (auto *a : x->arguments()) as.push_back(E(a)); o["as"] = std::move(as); o["t"] = T(Q); o["triv"] = D->isTrivial() && x->getNumArgs()==0; return o;
    }
    if (auto *x = dyn_cast<CXXNewExpr>(e)) { json::Object o = node("new", e); o["t"] = T(Q); o["at"] = T(x->getAllocatedType()); return o; }
    if (auto *x = dyn_cast<CXXDeleteExpr>(e)) { json::Object o = node("delete", e); o["e"] = E(x->getArgument()); o["t"] = "v"; return o; }
    if (auto *x = dyn_cast<StmtExpr>(e)) { json::Object o = node("stexpr", e); o["s"] = S(x->getSubStmt()); o["t"] = T(Q); return o; }
    if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) { json::Object o = node("unk", e); o["w"] = "sizeof"; o["t"] = T(Q); return o; }
    if (auto *x = dyn_cast<OpaqueValueExpr>(e)) { if (x->getSourceExpr()) return E(x->getSourceExpr()); }
    json::Object o = node("unk", e); o["w"] = e->getStmtClassName(); o["t"] = T(Q); return o;
  }
  static std::string fix(llvm::StringRef s) { // bytes -> latin-1 as UTF-8
    std::string r; for (unsigned char c : s) { if (c < 0x80) r += c; else { r += (char)(0xC0 | (c >> 6)); r += (char)(0x80 | (c & 0x3F)); } } return r;
  }
  std::string varId(const ValueDecl *D) {
    if (auto *V = dyn_cast<VarDecl>(D)) {
      if (V->hasGlobalStorage()) {
        std::string k;
        if (V->isStaticLocal()) k = stem + "::" + curFn + "::" + V->getNameAsString();
        else if (V->getFormalLinkage() == Linkage::Internal) k = "g:" + stem + "::" + V->getQualifiedNameAsString();
        else k = "g:" + V->getQualifiedNameAsString();
        if (V->isStaticLocal()) k = "g:" + k;
        addGlobal(k, V); return k;
      }
    }
    auto it = localIds.find(D); if (it != localIds.end()) return it->second;
    std::string id = "l" + std::to_string(nextLocal++) + ":" + D->getNameAsString(); localIds[D] = id; return id;
  }
  void addGlobal(const std::string &k, const VarDecl *V) {
    const VarDecl *Def = V->getDefinition();
    if (globals.get(k) && !(Def && !(*globals.getObject(k)).getBoolean("def").value_or(false))) return;
    json::Object o; o["t"] = T(V->getType()); o["l"] = line(V->getLocation()); o["fi"] = fileOf(V->getLocation());
    o["vol"] = V->getType().isVolatileQualified(); o["const"] = V->getType().isConstQualified() || (V->getType()->isArrayType() && C.getAsArrayType(V->getType())->getElementType().isConstQualified());
    o["tls"] = V->getTLSKind() != VarDecl::TLS_None;
    o["root"] = inRoot(V->getLocation());
    o["def"] = (bool)Def; o["static"] = V->getFormalLinkage() == Linkage::Internal;
    globals[k] = json::Object(o);
    if (Def && Def->getInit() && inRoot(Def->getLocation())) { json::Value iv = E(Def->getInit()); (*globals.getObject(k))["init"] = std::move(iv); }
  }
  void proto(const FunctionDecl *F) {
    std::string k = fnKey(F); if (protos.get(k)) return;
    protos[k] = json::Object{};
    json::Object o; json::Array ps; for (auto *p : F->parameters()) ps.push_back(T(p->getType()));
    o["ps"] = std::move(ps); o["r"] = T(F->getReturnType()); o["va"] = F->isVariadic(); o["nr"] = F->isNoReturn(); o["b"]=F->getNameAsString();
    protos[k] = std::move(o);
  }
  json::Value S(const Stmt *s) {
    if (!s) return nullptr;
    if (auto *x = dyn_cast<Expr>(s)) { json::Object o = node("expr", s); o["e"] = E(x); return o; }
    if (auto *x = dyn_cast<CompoundStmt>(s)) { json::Object o = node("blk", s); json::Array b; for (auto *c : x->body()) b.push_back(S(c)); o["b"] = std::move(b); return o; }
    if (auto *x = dyn_cast<DeclStmt>(s)) {
      json::Object o = node("decl", s); json::Array ds;
      for (auto *D : x->decls()) if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->hasGlobalStorage()) { varId(V); continue; }
        json::Object d; d["d"] = varId(V); d["t"] = T(V->getType()); d["n"] = V->getNameAsString();
        bool triv = false; if (V->getInit()) if (auto *cx = dyn_cast<CXXConstructExpr>(V->getInit())) triv = cx->getConstructor()->isTrivial() && cx->getNumArgs()==0;
        if (V->getInit() && !triv) d["i"] = E(V->getInit());
        ds.push_back(std::move(d));
      }
      o["ds"] = std::move(ds); return o;
    }
    if (auto *x = dyn_cast<IfStmt>(s)) {
      json::Object o = node("if", s); if (x->getInit()) o["init"] = S(x->getInit()); if (x->getConditionVariableDeclStmt()) o["cv"] = S(x->getConditionVariableDeclStmt());
      o["c"] = E(x->getCond()); o["a"] = S(x->getThen()); o["b"] = S(x->getElse()); return o;
    }
    if (auto *x = dyn_cast<WhileStmt>(s)) { json::Object o = node("while", s); if (x->getConditionVariableDeclStmt()) o["cv"] = S(x->getConditionVariableDeclStmt()); o["c"] = E(x->getCond()); o["b"] = S(x->getBody()); return o; }
    if (auto *x = dyn_cast<DoStmt>(s)) { json::Object o = node("do", s); o["c"] = E(x->getCond()); o["b"] = S(x->getBody()); return o; }
    if (auto *x = dyn_cast<ForStmt>(s)) { json::Object o = node("for", s); o["i"] = S(x->getInit()); if (x->getCond()) o["c"] = E(x->getCond()); if (x->getInc()) o["u"] = E(x->getInc()); o["b"] = S(x->getBody()); return o; }
    if (auto *x = dyn_cast<CXXForRangeStmt>(s)) {
      json::Object o = node("rfor", s); json::Array pre; pre.push_back(S(x->getRangeStmt())); pre.push_back(S(x->getBeginStmt())); pre.push_back(S(x->getEndStmt()));
      o["pre"] = std::move(pre); o["c"] = E(x->getCond()); o["u"] = E(x->getInc()); o["v"] = S(x->getLoopVarStmt()); o["b"] = S(x->getBody()); return o;
    }
    if (auto *x = dyn_cast<SwitchStmt>(s)) { json::Object o = node("switch", s); if (x->getConditionVariableDeclStmt()) o["cv"] = S(x->getConditionVariableDeclStmt()); o["c"] = E(x->getCond()); o["b"] = S(x->getBody()); return o; }
    if (auto *x = dyn_cast<CaseStmt>(s)) { json::Object o = node("case", s); o["v"] = E(x->getLHS()); if (x->getRHS()) o["hi"] = E(x->getRHS()); o["s"] = S(x->getSubStmt()); return o; }
    if (auto *x = dyn_cast<DefaultStmt>(s)) { json::Object o = node("default", s); o["s"] = S(x->getSubStmt()); return o; }
    if (isa<BreakStmt>(s)) return node("break", s);
    if (isa<ContinueStmt>(s)) return node("continue", s);
    if (isa<NullStmt>(s)) return node("null", s);
    if (auto *x = dyn_cast<ReturnStmt>(s)) { json::Object o = node("ret", s); if (x->getRetValue()) o["e"] = E(x->getRetValue()); return o; }
    if (auto *x = dyn_cast<GotoStmt>(s)) { json::Object o = node("goto", s); o["n"] = x->getLabel()->getNameAsString(); return o; }
    if (auto *x = dyn_cast<LabelStmt>(s)) { json::Object o = node("label", s); o["n"] = x->getDecl()->getNameAsString(); o["s"] = S(x->getSubStmt()); return o; }
    if (auto *x = dyn_cast<AttributedStmt>(s)) return S(x->getSubStmt());
    json::Object o = node("unks", s); o["w"] = s->getStmtClassName(); return o;
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() || F->isDependentContext() || !inRoot(F->getLocation())) return true;
    if (F->isImplicit() || isa<CXXConstructorDecl>(F) || isa<CXXDestructorDecl>(F) || (isa<CXXMethodDecl>(F) && cast<CXXMethodDecl>(F)->isDefaulted())) return true;
    curFn = F->getNameAsString(); localIds.clear(); nextLocal = 0;
    std::string k = fnKey(F); 
    json::Object o; o["n"] = F->getNameAsString(); o["l"] = line(F->getLocation()); curFile = fileOf(F->getLocation()); o["fi"] = curFile;
    o["el"] = line(F->getEndLoc());
    o["static"] = F->getFormalLinkage() == Linkage::Internal; o["r"] = T(F->getReturnType());
    json::Array ps; for (auto *p : F->parameters()) { json::Object q; q["d"] = varId(p); q["n"] = p->getNameAsString(); q["t"] = T(p->getType()); ps.push_back(std::move(q)); }
    o["ps"] = std::move(ps); o["b"] = S(F->getBody());
    functions[k] = std::move(o); return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->hasGlobalStorage() && !V->isStaticLocal() && inRoot(V->getLocation()) && !V->isInvalidDecl()) { varId(V); }
    return true;
  }
  bool VisitRecordDecl(RecordDecl *R) { if (R->isThisDeclarationADefinition() && inRoot(R->getLocation()) && !R->isDependentType()) addRec(R); return true; }
  json::Object enums;
  bool VisitEnumDecl(EnumDecl *D) { if (inRoot(D->getLocation())) { json::Object o; for (auto *c : D->enumerators()) o[c->getNameAsString()] = c->getInitVal().getExtValue(); enums[D->getNameAsString().empty() ? "enum@" + std::to_string(D->getLocation().getRawEncoding()) : D->getNameAsString()] = std::move(o); } return true; }
};
static json::Object Out;
struct Cons : ASTConsumer {
  std::string file; Cons(std::string f) : file(f) {}
  void HandleTranslationUnit(ASTContext &C) override {
    std::string stem = file.substr(file.rfind('/') + 1); stem = stem.substr(0, stem.rfind('.'));
    Exporter X(C, stem); X.TraverseDecl(C.getTranslationUnitDecl());
    json::Object o; o["records"] = std::move(X.records); o["functions"] = std::move(X.functions); o["globals"] = std::move(X.globals); o["files"] = std::move(X.files); o["enums"] = std::move(X.enums); o["protos"] = std::move(X.protos);
    o["errors"] = (int64_t)C.getDiagnostics().getClient()->getNumErrors();
    Out[file] = std::move(o);
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef F) override { return std::make_unique<Cons>(F.str()); }
};
int main(int argc, char **argv) {
  Root = argv[1]; std::vector<std::string> fs, flags; int i = 2;
  for (; i < argc && std::string(argv[i]) != "--"; i++) fs.push_back(argv[i]);
  for (i++; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool Tool(DB, fs);
  struct F : tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); } } f;
  int rc = Tool.run(&f);
  llvm::outs() << json::Value(std::move(Out)) << "\n";
  return rc;
}
