// Extractor: dumps the bodies of all functions of the repository (including
// template instantiations and lambdas) as a compact JSON AST.
// What is dropped: parentheses, temporaries/cleanups bookkeeping, value
// category casts, derived-to-base pointer adjustments, source locations
// (except line numbers), attributes, comments, local class declarations
// (listed as records instead), static_asserts and type aliases.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;
static std::string Root;

struct Dumper {
  ASTContext &C;
  PrintingPolicy PP;
  std::map<const Decl *, int> ids;
  std::map<std::string, int> types;
  json::Array type_table;
  std::set<const CXXRecordDecl *> records;
  std::set<const EnumDecl *> enums;
  std::vector<const FunctionDecl *> queue;
  std::set<const FunctionDecl *> queued;
  json::Array functions;
  size_t drained = 0;
  Dumper(ASTContext &C) : C(C), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressUnwrittenScope = false;
    PP.AnonymousTagLocations = false;
    PP.Bool = true;
  }
  int id(const Decl *d) {
    d = d->getCanonicalDecl();
    return ids.emplace(d, (int)ids.size() + 1).first->second;
  }
  bool inRepo(const Decl *d) {
    auto &sm = C.getSourceManager();
    auto loc = sm.getExpansionLoc(d->getLocation());
    if (loc.isInvalid()) return false;
    auto f = sm.getFilename(loc);
    return f.starts_with(Root);
  }
  std::string fileOf(const Decl *d) {
    auto &sm = C.getSourceManager();
    auto f = sm.getFilename(sm.getExpansionLoc(d->getLocation()));
    if (f.consume_front(Root)) f.consume_front("/");
    return f.str();
  }
  unsigned lineOf(SourceLocation l) {
    return C.getSourceManager().getExpansionLineNumber(l);
  }
  std::string qname(const NamedDecl *d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    if (auto *rd = dyn_cast<CXXRecordDecl>(d); rd && rd->isLambda()) {
      return "lambda#" + std::to_string(id(rd->getLambdaCallOperator()));
    }
    PrintingPolicy p(C.getLangOpts());
    p.SuppressUnwrittenScope = false;
    p.AnonymousTagLocations = false;
    d->printQualifiedName(os, p);
    return s;
  }
  void noteRecord(const CXXRecordDecl *r) {
    if (!r) return;
    r = r->getDefinition();
    if (!r || !records.insert(r).second) return;
    if (r->isDependentContext()) return;
    for (auto &b : r->bases())
      noteRecord(b.getType()->getAsCXXRecordDecl());
  }
  int type(QualType q) {
    q = q.getCanonicalType();
    json::Object o;
    QualType n = q;
    if (q->isReferenceType()) {
      o["ref"] = q->isRValueReferenceType() ? 2 : 1;
      n = q->getPointeeType();
    }
    if (n.isConstQualified()) o["const"] = true;
    n = n.getUnqualifiedType();
    std::string s;
    if (auto *rd = n->getAsCXXRecordDecl(); rd && rd->isLambda())
      s = qname(rd);
    else
      s = n.getAsString(PP);
    std::string key = s + "|" + (o.get("ref") ? (q->isRValueReferenceType() ? "2" : "1") : "0") + (o.get("const") ? "c" : "");
    auto it = types.find(key);
    if (it != types.end()) return it->second;
    int idx = (int)types.size();
    types[key] = idx;
    o["s"] = s;
    type_table.push_back(nullptr);
    if (n->isBooleanType()) o["k"] = "bool";
    else if (n->isEnumeralType()) {
      o["k"] = "enum";
      o["rec"] = qname(n->getAs<EnumType>()->getDecl());
      enums.insert(n->getAs<EnumType>()->getDecl());
      noteRecord(nullptr);
    } else if (n->isAnyCharacterType()) {
      o["k"] = "char"; o["signed"] = n->isSignedIntegerType();
      o["bits"] = (int)C.getTypeSize(n);
    } else if (n->isIntegerType()) {
      o["k"] = "int"; o["signed"] = n->isSignedIntegerType();
      o["bits"] = (int)C.getTypeSize(n);
    } else if (n->isPointerType()) {
      o["k"] = "ptr";
      o["to"] = type(n->getPointeeType());
    } else if (n->isVoidType()) o["k"] = "void";
    else if (auto *r = n->getAsCXXRecordDecl()) {
      o["k"] = "rec";
      o["rec"] = qname(r);
      if (r->isLambda()) { o["lambda"] = id(r->getLambdaCallOperator()); }
      noteRecord(r);
      if (auto *s = dyn_cast<ClassTemplateSpecializationDecl>(r)) {
        json::Array a;
        for (auto &ta : s->getTemplateArgs().asArray()) pushTA(a, ta);
        o["targs"] = std::move(a);
      }
    } else if (auto *at = dyn_cast<ConstantArrayType>(n.getTypePtr())) {
      o["k"] = "array"; o["n"] = (int64_t)at->getSize().getZExtValue();
      o["to"] = type(at->getElementType());
    } else if (n->isNullPtrType()) o["k"] = "nullptr";
    else if (n->isFunctionType()) o["k"] = "fn";
    else o["k"] = "other";
    type_table[idx] = std::move(o);
    return idx;
  }
  void pushTA(json::Array &a, const TemplateArgument &ta) {
    switch (ta.getKind()) {
    case TemplateArgument::Type: a.push_back(type(ta.getAsType())); break;
    case TemplateArgument::Integral: {
      json::Object o; o["int"] = ta.getAsIntegral().getExtValue(); a.push_back(std::move(o)); break; }
    case TemplateArgument::Pack:
      for (auto &x : ta.pack_elements()) pushTA(a, x);
      break;
    default: { std::string s; llvm::raw_string_ostream os(s); ta.print(PP, os, true); json::Object o; o["other"] = s; a.push_back(std::move(o)); }
    }
  }
  void enqueue(const FunctionDecl *f) {
    if (!f) return;
    const FunctionDecl *def = nullptr;
    if (!f->hasBody(def)) { if (f->isDefaulted() && !f->isDeleted()) def = f; else return; }
    if (def->isDependentContext()) return;
    if (queued.insert(def->getCanonicalDecl()).second) queue.push_back(def);
  }
  bool repoFn(const FunctionDecl *f) {
    const FunctionDecl *p = f;
    if (auto *pt = f->getTemplateInstantiationPattern()) p = pt;
    return inRepo(p);
  }
  json::Object fnref(const FunctionDecl *f) {
    json::Object o;
    o["q"] = qname(f);
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = qname(m->getParent());
      if (m->getParent()->isLambda()) o["lambda"] = id(f);
      if (m->isStatic()) o["static"] = true;
      if (m->isConst()) o["const"] = true;
      if (m->isVirtual()) o["virtual"] = true;
      o["clst"] = type(C.getTypeDeclType(m->getParent()));
      if (isa<CXXConversionDecl>(m)) o["conv"] = true;
    }
    json::Array ps;
    for (auto *p : f->parameters()) ps.push_back(type(p->getType()));
    o["pt"] = std::move(ps);
    if (auto *ta = f->getTemplateSpecializationArgs()) {
      json::Array a;
      for (auto &x : ta->asArray()) pushTA(a, x);
      o["targs"] = std::move(a);
    }
    o["id"] = id(f);
    if (repoFn(f) || (isa<CXXMethodDecl>(f) && cast<CXXMethodDecl>(f)->getParent()->isLambda())) {
      o["repo"] = true;
      enqueue(f);
    }
    if (f->isNoReturn()) o["noreturn"] = true;
    if (f->isDefaulted()) o["defaulted"] = true;
    if (f->isOverloadedOperator()) o["op"] = getOperatorSpelling(f->getOverloadedOperator());
    return o;
  }
  json::Value vardecl(const VarDecl *v) {
    json::Object o;
    o["id"] = id(v);
    o["n"] = v->getNameAsString();
    o["t"] = type(v->getType());
    if (v->isStaticLocal()) o["static"] = true;
    if (v->hasInit()) o["init"] = expr(v->getInit());
    if (auto *dd = dyn_cast<DecompositionDecl>(v)) {
      json::Array bs;
      for (auto *b : dd->bindings()) {
        json::Object bo;
        bo["id"] = id(b); bo["n"] = b->getNameAsString(); bo["t"] = type(b->getType());
        if (auto *e = b->getBinding()) bo["e"] = expr(e);
        if (auto *hv = b->getHoldingVar()) { bo["hold"] = vardecl(hv); }
        bs.push_back(std::move(bo));
      }
      o["bind"] = std::move(bs);
    }
    return std::move(o);
  }
  json::Value args(ArrayRef<const Expr *> as) {
    json::Array a;
    for (auto *x : as) a.push_back(expr(x));
    return std::move(a);
  }
  json::Value expr(const Expr *e) {
    if (!e) return nullptr;
    // stripping
    while (true) {
      if (auto *p = dyn_cast<ParenExpr>(e)) { e = p->getSubExpr(); continue; }
      if (auto *p = dyn_cast<FullExpr>(e)) { e = p->getSubExpr(); continue; }
      if (auto *p = dyn_cast<MaterializeTemporaryExpr>(e)) { e = p->getSubExpr(); continue; }
      if (auto *p = dyn_cast<CXXBindTemporaryExpr>(e)) { e = p->getSubExpr(); continue; }
      if (auto *p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = p->getReplacement(); continue; }
      if (auto *p = dyn_cast<CXXDefaultInitExpr>(e)) { e = p->getExpr(); continue; }
      if (auto *p = dyn_cast<CXXStdInitializerListExpr>(e)) { e = p->getSubExpr(); continue; }
      if (auto *p = dyn_cast<CXXRewrittenBinaryOperator>(e)) { e = p->getSemanticForm(); continue; }
      if (auto *p = dyn_cast<OpaqueValueExpr>(e)) { if (p->getSourceExpr()) { e = p->getSourceExpr(); continue; } }
      if (auto *p = dyn_cast<CastExpr>(e)) {
        switch (p->getCastKind()) {
        case CK_LValueToRValue: case CK_NoOp: case CK_DerivedToBase: case CK_UncheckedDerivedToBase:
        case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay: case CK_ConstructorConversion:
        case CK_UserDefinedConversion: case CK_BuiltinFnToFnPtr: case CK_Dependent: case CK_LValueBitCast:
        case CK_AtomicToNonAtomic: case CK_NonAtomicToAtomic:
          e = p->getSubExpr(); continue;
        default: break;
        }
      }
      break;
    }
    json::Object o;
    o["t"] = type(e->getType());
    o["l"] = lineOf(e->getBeginLoc());
    auto K = [&](const char *k) { o["k"] = k; };
    if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) { K("defarg"); o["e"] = expr(x->getExpr()); }
    else if (auto *x = dyn_cast<IntegerLiteral>(e)) { K("int"); o["v"] = std::to_string(x->getValue().getLimitedValue()); }
    else if (auto *x = dyn_cast<CharacterLiteral>(e)) { K("chr"); o["v"] = (int)x->getValue(); }
    else if (auto *x = dyn_cast<StringLiteral>(e)) {
      K("str"); json::Array a; for (unsigned char c : x->getBytes()) a.push_back((int)c); o["v"] = std::move(a);
    }
    else if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) { K("bool"); o["v"] = x->getValue(); }
    else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) K("null");
    else if (isa<CXXThisExpr>(e)) K("this");
    else if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) K("zero");
    else if (auto *x = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl *d = x->getDecl();
      if (auto *ec = dyn_cast<EnumConstantDecl>(d)) { K("enumc"); o["n"] = qname(ec); o["v"] = ec->getInitVal().getExtValue(); 
        if (auto *ed = dyn_cast<EnumDecl>(ec->getDeclContext())) enums.insert(ed); }
      else if (auto *f = dyn_cast<FunctionDecl>(d)) { K("fnref"); o["fn"] = fnref(f); }
      else { K("var"); o["id"] = id(d); o["n"] = d->getNameAsString();
        if (auto *v = dyn_cast<VarDecl>(d)) {
          if (v->hasGlobalStorage() && !v->isStaticLocal()) { o["global"] = qname(v); 
            if (inRepo(v)) if (const VarDecl* dv = nullptr; const Expr *in = v->getAnyInitializer(dv)) { if (globals.insert(v->getCanonicalDecl()).second) globals_out.push_back(json::Object{{"id", id(v)}, {"q", qname(v)}, {"t", type(v->getType())}, {"init", expr(in)}}); }
          }
        }
        if (isa<BindingDecl>(d)) o["binding"] = true; }
    }
    else if (auto *x = dyn_cast<MemberExpr>(e)) {
      K("mem"); o["b"] = expr(x->getBase()); o["arrow"] = x->isArrow();
      if (auto *f = dyn_cast<FieldDecl>(x->getMemberDecl())) { o["f"] = f->getNameAsString(); if (f->isAnonymousStructOrUnion()) o["anon"] = true; o["in"] = qname(f->getParent()); o["fid"]=id(f);}
      else if (auto *m = dyn_cast<FunctionDecl>(x->getMemberDecl())) { o["m"] = fnref(m); }
      else if (auto *v = dyn_cast<VarDecl>(x->getMemberDecl())) { o["k"] = "var"; o["id"] = id(v); o["n"] = v->getNameAsString(); o["global"] = qname(v); }
      else { o["f"] = x->getMemberDecl()->getNameAsString(); }
    }
    else if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
      K("call"); o["opcall"] = getOperatorSpelling(x->getOperator());
      const FunctionDecl *f = x->getDirectCallee();
      SmallVector<const Expr *, 4> as(x->arg_begin(), x->arg_end());
      if (f) o["fn"] = fnref(f); else o["callee"] = expr(x->getCallee());
      if (f && isa<CXXMethodDecl>(f) ) {
        o["obj"] = expr(as[0]);
        as.erase(as.begin());
      }
      o["a"] = args(as);
    }
    else if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
      K("call");
      if (auto *f = x->getMethodDecl()) o["fn"] = fnref(f);
      if (auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) {
        o["obj"] = expr(me->getBase()); o["arrow"] = me->isArrow();
        if (me->hasQualifier()) o["qualified"] = true;
      } else o["callee"] = expr(x->getCallee());
      SmallVector<const Expr *, 4> as(x->arg_begin(), x->arg_end());
      o["a"] = args(as);
    }
    else if (auto *x = dyn_cast<CallExpr>(e)) {
      K("call");
      if (auto *f = x->getDirectCallee()) o["fn"] = fnref(f); else o["callee"] = expr(x->getCallee());
      SmallVector<const Expr *, 4> as(x->arg_begin(), x->arg_end());
      o["a"] = args(as);
    }
    else if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
      K("ctor"); o["fn"] = fnref(x->getConstructor());
      if (x->isElidable()) o["elide"] = true;
      if (x->getConstructor()->isCopyConstructor()) o["copy"] = true;
      if (x->getConstructor()->isMoveConstructor()) o["move"] = true;
      SmallVector<const Expr *, 4> as(x->arg_begin(), x->arg_end());
      o["a"] = args(as);
      if (isa<CXXTemporaryObjectExpr>(x)) o["temp"] = true;
    }
    else if (auto *x = dyn_cast<CXXNewExpr>(e)) { K("new"); o["of"] = type(x->getAllocatedType()); o["init"] = expr(x->getInitializer()); }
    else if (auto *x = dyn_cast<CXXDeleteExpr>(e)) { K("delete"); o["e"] = expr(x->getArgument()); if (x->isArrayForm()) o["array"]=true; }
    else if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) { K("sizeof");
      Expr::EvalResult r; if (x->EvaluateAsInt(r, C)) { o["k"]="int"; o["v"] = std::to_string(r.Val.getInt().getLimitedValue()); } }
    else if (auto *x = dyn_cast<UnaryOperator>(e)) { K("un"); o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); o["post"] = x->isPostfix(); o["e"] = expr(x->getSubExpr()); }
    else if (auto *x = dyn_cast<BinaryOperator>(e)) { K("bin"); o["op"] = x->getOpcodeStr().str(); o["x"] = expr(x->getLHS()); o["y"] = expr(x->getRHS()); 
      if (x->isCompoundAssignmentOp()) o["compound"] = true; }
    else if (auto *x = dyn_cast<AbstractConditionalOperator>(e)) { K("cond"); o["c"] = expr(x->getCond()); o["x"] = expr(x->getTrueExpr()); o["y"] = expr(x->getFalseExpr()); }
    else if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) { K("idx"); o["b"] = expr(x->getBase()); o["i"] = expr(x->getIdx()); }
    else if (auto *x = dyn_cast<InitListExpr>(e)) { K("list"); json::Array a; for (auto *i : x->inits()) a.push_back(expr(i)); o["a"] = std::move(a); }
    else if (auto *x = dyn_cast<CXXParenListInitExpr>(e)) { K("list"); json::Array a; for (auto *i : x->getInitExprs()) a.push_back(expr(i)); o["a"] = std::move(a); }
    else if (auto *x = dyn_cast<LambdaExpr>(e)) {
      K("lambda");
      o["op"] = id(x->getCallOperator());
      if (!x->isGenericLambda()) enqueue(x->getCallOperator());
      else if (auto *ft = x->getLambdaClass()->getDependentLambdaCallOperator()) {
        json::Array ops;
        for (auto *sp : ft->specializations()) { enqueue(sp); ops.push_back(id(sp)); }
        o["ops"] = std::move(ops);
      }
      json::Array caps;
      auto fi = x->getLambdaClass()->field_begin();
      auto ci = x->capture_init_begin();
      for (auto &c : x->captures()) {
        json::Object co;
        if (c.capturesThis()) { co["this"] = true; }
        else if (c.capturesVariable()) {
          auto *v = c.getCapturedVar();
          co["id"] = id(v); co["n"] = v->getNameAsString();
          co["byref"] = c.getCaptureKind() == LCK_ByRef;
          if (x->isInitCapture(&c)) { co["init"] = true; co["e"] = expr(cast<VarDecl>(v)->getInit()); co["t"] = type(v->getType()); }
        }
        caps.push_back(std::move(co));
        if (fi != x->getLambdaClass()->field_end()) ++fi;
        ++ci;
      }
      o["caps"] = std::move(caps);
    }
    else if (auto *x = dyn_cast<CastExpr>(e)) { K("cast"); o["ck"] = x->getCastKindName(); o["e"] = expr(x->getSubExpr()); }
    else if (auto *x = dyn_cast<StmtExpr>(e)) { K("stmtexpr"); o["s"] = stmt(x->getSubStmt()); }
    else if (isa<PredefinedExpr>(e) || isa<SourceLocExpr>(e)) { K("opaquestr"); }
    else { K("unsupported"); o["what"] = e->getStmtClassName(); 
      Expr::EvalResult r; if (!e->isValueDependent() && e->EvaluateAsInt(r, C)) { o["k"]="int"; o["v"] = std::to_string(r.Val.getInt().getLimitedValue()); } }
    return std::move(o);
  }
  std::set<const Decl*> globals; json::Array globals_out;
  json::Value stmt(const Stmt *s) {
    if (!s) return nullptr;
    if (auto *e = dyn_cast<Expr>(s)) { json::Object o; o["k"] = "expr"; o["e"] = expr(e); o["l"] = lineOf(s->getBeginLoc()); return std::move(o); }
    json::Object o;
    o["l"] = lineOf(s->getBeginLoc());
    auto K = [&](const char *k) { o["k"] = k; };
    if (auto *x = dyn_cast<CompoundStmt>(s)) { K("block"); json::Array a; for (auto *c : x->body()) a.push_back(stmt(c)); o["b"] = std::move(a); }
    else if (auto *x = dyn_cast<DeclStmt>(s)) { K("decl"); json::Array a;
      for (auto *d : x->decls()) { if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(vardecl(v)); else if (auto *r = dyn_cast<CXXRecordDecl>(d)) { noteRecord(r); } }
      o["d"] = std::move(a); }
    else if (auto *x = dyn_cast<IfStmt>(s)) {
      K("if"); if (x->getInit()) o["init"] = stmt(x->getInit());
      if (x->getConditionVariable()) o["cv"] = vardecl(x->getConditionVariable());
      o["c"] = expr(x->getCond()); o["x"] = stmt(x->getThen()); o["y"] = stmt(x->getElse());
      if (x->isConstexpr()) { o["constexpr"] = true; Expr::EvalResult r; if (!x->getCond()->isValueDependent() && x->getCond()->EvaluateAsInt(r, C)) o["cval"] = r.Val.getInt().getBoolValue(); }
    }
    else if (auto *x = dyn_cast<WhileStmt>(s)) { K("while"); if (x->getConditionVariable()) o["cv"] = vardecl(x->getConditionVariable()); o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody()); }
    else if (auto *x = dyn_cast<DoStmt>(s)) { K("do"); o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody()); }
    else if (auto *x = dyn_cast<ForStmt>(s)) { K("for"); o["init"] = stmt(x->getInit()); if (x->getConditionVariable()) o["cv"] = vardecl(x->getConditionVariable()); o["c"] = expr(x->getCond()); o["inc"] = expr(x->getInc()); o["b"] = stmt(x->getBody()); }
    else if (auto *x = dyn_cast<CXXForRangeStmt>(s)) { K("rfor"); if (x->getInit()) o["init"] = stmt(x->getInit()); o["range"] = expr(x->getRangeInit()); o["v"] = vardecl(x->getLoopVariable()); o["b"] = stmt(x->getBody()); }
    else if (auto *x = dyn_cast<SwitchStmt>(s)) { K("switch"); if (x->getInit()) o["init"] = stmt(x->getInit()); if (x->getConditionVariable()) o["cv"] = vardecl(x->getConditionVariable()); o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody()); }
    else if (auto *x = dyn_cast<CaseStmt>(s)) { K("case"); o["v"] = expr(x->getLHS()); if (x->getRHS()) o["v2"] = expr(x->getRHS()); o["s"] = stmt(x->getSubStmt()); }
    else if (auto *x = dyn_cast<DefaultStmt>(s)) { K("default"); o["s"] = stmt(x->getSubStmt()); }
    else if (isa<BreakStmt>(s)) K("break");
    else if (isa<ContinueStmt>(s)) K("continue");
    else if (auto *x = dyn_cast<ReturnStmt>(s)) { K("return"); o["e"] = expr(x->getRetValue()); }
    else if (isa<NullStmt>(s)) K("null");
    else if (auto *x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
    else { K("unsupported"); o["what"] = s->getStmtClassName(); }
    return std::move(o);
  }
  void dumpFn(const FunctionDecl *f) {
    json::Object o;
    o["fn"] = fnref(f);
    o["file"] = fileOf(f->getTemplateInstantiationPattern() ? f->getTemplateInstantiationPattern() : f);
    o["line"] = lineOf(f->getLocation());
    o["ret"] = type(f->getReturnType());
    json::Array ps;
    for (auto *p : f->parameters()) { json::Object po; po["id"] = id(p); po["n"] = p->getNameAsString(); po["t"] = type(p->getType()); 
      if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) po["def"] = expr(p->getDefaultArg());
      ps.push_back(std::move(po)); }
    o["params"] = std::move(ps);
    if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
      json::Array is;
      for (auto *i : c->inits()) {
        json::Object io;
        if (i->isAnyMemberInitializer()) { auto *fd = i->getAnyMember(); io["f"] = fd->getNameAsString(); io["fid"]=id(fd);
           if (i->isIndirectMemberInitializer()) io["indirect"] = true; }
        else if (i->isBaseInitializer()) io["base"] = type(QualType(i->getBaseClass(), 0));
        else io["deleg"] = true;
        io["written"] = i->isWritten();
        io["e"] = expr(i->getInit());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    if (f->isDefaulted()) o["defaulted"] = true;
    if (f->hasBody()) o["body"] = stmt(f->getBody());
    functions.push_back(std::move(o));
  }
  void drain() {
    for (; drained < queue.size(); ++drained) dumpFn(queue[drained]);
  }
  json::Object finish() {
    drain();
    // members of local classes that only library templates call
    for (size_t n = 0; n != records.size();) {
      n = records.size();
      std::vector<const CXXRecordDecl *> rs(records.begin(), records.end());
      for (auto *r : rs)
        if (inRepo(r) && !r->isDependentContext() && r->isLocalClass() && !r->isLambda())
          for (auto *m : r->methods()) if (m->hasBody() && !m->isImplicit()) enqueue(m);
      drain();
    }
    json::Object recs;
    for (auto *r : records) {
      json::Object ro;
      json::Array bs, fs;
      if (!r->isDependentContext())
      for (auto &b : r->bases()) if (auto *bd = b.getType()->getAsCXXRecordDecl()) bs.push_back(qname(bd));
      bool rep = inRepo(r);
      if (rep && !r->isDependentContext()) {
        for (auto *f : r->fields()) { json::Object fo; fo["n"] = f->getNameAsString(); fo["t"] = type(f->getType()); fo["id"]=id(f);
          if (f->isAnonymousStructOrUnion()) fo["anon"] = true;
          if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
          fs.push_back(std::move(fo)); }
        ro["fields"] = std::move(fs);
        ro["repo"] = true;
        if (r->isUnion()) ro["union"] = true;
      }
      ro["bases"] = std::move(bs);
      recs[qname(r)] = std::move(ro);
    }
    drain();
    json::Object ens;
    for (auto *e : enums) { json::Object eo; for (auto *c : e->enumerators()) eo[c->getNameAsString()] = c->getInitVal().getExtValue(); ens[qname(e)] = std::move(eo); }
    json::Object out;
    out["functions"] = std::move(functions);
    out["types"] = std::move(type_table);
    out["records"] = std::move(recs);
    out["enums"] = std::move(ens);
    out["globals"] = std::move(globals_out);
    return out;
  }
};
// Walks namespaces and classes; instantiations and lambdas are reached through
// the calls and expressions that mention them.
static void walk(Dumper &D, const DeclContext *dc) {
  for (const Decl *d : dc->decls()) {
    if (isa<NamespaceDecl>(d) || isa<LinkageSpecDecl>(d)) { walk(D, cast<DeclContext>(d)); continue; }
    if (!D.inRepo(d)) continue;
    if (auto *f = dyn_cast<FunctionDecl>(d)) { if (!f->isDependentContext()) D.enqueue(f); }
    else if (auto *r = dyn_cast<CXXRecordDecl>(d)) {
      if (!r->isThisDeclarationADefinition() || r->isDependentContext()) continue;
      D.noteRecord(r); walk(D, r);
    }
    else if (auto *e = dyn_cast<EnumDecl>(d)) D.enums.insert(e);
    else if (auto *v = dyn_cast<VarDecl>(d)) { if (v->hasInit() && !v->getInit()->isValueDependent()) D.expr(v->getInit()); }
    else if (auto *ct = dyn_cast<ClassTemplateDecl>(d)) { for (auto *sp : ct->specializations()) if (!sp->isDependentContext()) walk(D, sp); }
  }
}
struct Consumer : ASTConsumer {
  std::string out;
  Consumer(std::string o) : out(o) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C);
    walk(D, C.getTranslationUnitDecl());
    std::error_code ec;
    llvm::raw_fd_ostream os(out, ec);
    os << json::Value(D.finish());
  }
};
static std::string Out;
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(Out); }
};
// usage: extract ROOT OUT.json SOURCE -- flags...
int main(int argc, char **argv) {
  Root = argv[1]; Out = argv[2];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {argv[3]});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
