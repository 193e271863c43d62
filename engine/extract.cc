// Mechanical extractor: dumps, as JSON, the type-checked bodies of every
// function reachable from the contract harness that is defined in the
// gCP sources (or in the contract files).  Nothing is rewritten: each
// node below is one clang AST node after template instantiation and
// overload resolution; only syntactic sugar (parentheses, temporaries,
// full-expression wrappers, elided copies) is dropped.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <deque>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> roots;      // directories whose bodies are emitted
static std::string outfile;
static std::string entryPrefix;

struct Dumper
{
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> fid;
  std::deque<const FunctionDecl *> todo;
  std::vector<json::Value> funs;
  std::map<std::string, int> tid;
  std::vector<json::Value> types;
  std::map<const Decl *, int> rid;
  std::vector<json::Value> recs;
  std::deque<std::pair<int, const CXXRecordDecl *>> rectodo;
  std::map<const Decl *, int> vid;
  std::map<const Decl*, const FunctionDecl*> patternBody;
  json::Array globals;
  std::set<const Decl*> globalsDone;

  Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts())
  {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
  }

  bool inRoots(SourceLocation L)
  {
    if (L.isInvalid()) return false;
    L = SM.getExpansionLoc(L);
    auto f = SM.getFilename(L);
    for (auto &r : roots)
      if (f.starts_with(r)) return true;
    return false;
  }

  int varId(const Decl *d)
  {
    d = d->getCanonicalDecl();
    auto it = vid.find(d);
    if (it != vid.end()) return it->second;
    int n = vid.size();
    vid[d] = n;
    return n;
  }

  int typeId(QualType q)
  {
    q = q.getCanonicalType();
    std::string s = q.getAsString(PP);
    auto it = tid.find(s);
    if (it != tid.end()) return it->second;
    int id = types.size();
    tid[s] = id;
    types.push_back(nullptr);
    json::Object o;
    o["s"] = s;
    if (q.isConstQualified()) o["const"] = true;
    const Type *t = q.getTypePtr();
    if (auto *r = dyn_cast<ReferenceType>(t))
    {
      o["k"] = "ref"; o["to"] = typeId(r->getPointeeType());
      if (isa<RValueReferenceType>(t)) o["rv"] = true;
    }
    else if (auto *p = dyn_cast<PointerType>(t))
    {
      o["k"] = "ptr"; o["to"] = typeId(p->getPointeeType());
    }
    else if (auto *a = dyn_cast<ConstantArrayType>(t))
    {
      o["k"] = "array"; o["to"] = typeId(a->getElementType());
      o["n"] = (int64_t)a->getSize().getZExtValue();
    }
    else if (t->isBooleanType()) o["k"] = "bool";
    else if (t->isEnumeralType())
    {
      o["k"] = "enum";
      json::Array vals;
      for (auto *e : cast<EnumType>(t)->getDecl()->enumerators())
        vals.push_back(json::Array{e->getNameAsString(), e->getInitVal().getExtValue()});
      o["values"] = std::move(vals);
    }
    else if (t->isIntegerType())
    {
      o["k"] = "int"; o["uns"] = t->isUnsignedIntegerType();
      o["bits"] = (int64_t)C.getTypeSize(q);
    }
    else if (t->isRealFloatingType()) o["k"] = "float";
    else if (t->isVoidType()) o["k"] = "void";
    else if (t->isNullPtrType()) o["k"] = "nullptr";
    else if (auto *rd = t->getAsCXXRecordDecl())
    {
      o["k"] = "rec"; o["rec"] = recId(rd);
    }
    else if (t->isFunctionType()) o["k"] = "fn";
    else o["k"] = "other";
    types[id] = std::move(o);
    return id;
  }

  json::Value targ(const TemplateArgument &a)
  {
    switch (a.getKind())
    {
      case TemplateArgument::Type: return json::Object{{"t", typeId(a.getAsType())}};
      case TemplateArgument::Integral: return json::Object{{"i", a.getAsIntegral().getExtValue()}};
      case TemplateArgument::Pack:
      {
        json::Array arr;
        for (auto &x : a.pack_elements()) arr.push_back(targ(x));
        return json::Object{{"pack", std::move(arr)}};
      }
      default: return json::Object{{"other", 1}};
    }
  }

  int recId(const CXXRecordDecl *rd)
  {
    if (rd->getDefinition()) rd = rd->getDefinition();
    auto it = rid.find(rd);
    if (it != rid.end()) return it->second;
    int id = recs.size();
    rid[rd] = id;
    recs.push_back(nullptr);
    rectodo.push_back({id, rd});
    return id;
  }

  void emitRec(int id, const CXXRecordDecl *rd)
  {
    json::Object o;
    o["name"] = rd->getQualifiedNameAsString();
    if (auto *s = dyn_cast<ClassTemplateSpecializationDecl>(rd))
    {
      json::Array a;
      for (auto &x : s->getTemplateArgs().asArray()) a.push_back(targ(x));
      o["args"] = std::move(a);
    }
    bool mine = rd->hasDefinition() && inRoots(rd->getLocation());
    o["mine"] = mine;
    o["lambda"] = rd->isLambda();
    if (rd->hasDefinition())
    {
      json::Array bases;
      for (auto &b : rd->bases())
        if (!b.getType()->isDependentType())
          bases.push_back(typeId(b.getType()));
      o["bases"] = std::move(bases);
    }
    if (mine && !rd->isLambda())
    {
      json::Array f;
      for (auto *fd : rd->fields())
      {
        json::Object fo;
        fo["n"] = fd->getNameAsString();
        fo["t"] = typeId(fd->getType());
        if (fd->isMutable()) fo["mut"] = true;
        if (fd->hasInClassInitializer() && fd->getInClassInitializer())
          fo["init"] = E(fd->getInClassInitializer());
        f.push_back(std::move(fo));
      }
      o["fields"] = std::move(f);
      if (auto *d = rd->getDestructor()) if (d->isUserProvided()) o["dtor"] = funId(d);
    }
    recs[id] = std::move(o);
  }

  const FunctionDecl *bodyOf(const FunctionDecl *fd)
  {
    const FunctionDecl *def = nullptr;
    if (fd->hasBody(def)) return def;
    return nullptr;
  }

  int funId(const FunctionDecl *fd)
  {
    const FunctionDecl *c = fd->getCanonicalDecl();
    auto it = fid.find(c);
    if (it != fid.end()) return it->second;
    int id = funs.size();
    fid[c] = id;
    funs.push_back(nullptr);
    todo.push_back(c);
    // the constructors behind make_unique and make_shared
    if (auto *ii = c->getIdentifier())
      if (ii->getName() == "make_unique" || ii->getName() == "make_shared")
        if (auto *ta = c->getTemplateSpecializationArgs())
          if (ta->size() && ta->get(0).getKind() == TemplateArgument::Type)
            if (auto *rd = ta->get(0).getAsType()->getAsCXXRecordDecl())
              if (rd->getDefinition() && inRoots(rd->getDefinition()->getLocation()))
                for (auto *k : rd->getDefinition()->ctors())
                  if (bodyOf(k) && !k->isCopyOrMoveConstructor())
                    funId(k);
    return id;
  }

  void emitFun(const FunctionDecl *c)
  {
    int id = fid[c];
    json::Object o;
    const FunctionDecl *def = bodyOf(c);
    const FunctionDecl *d = def ? def : c;
    std::string nm = d->getQualifiedNameAsString();
    o["name"] = nm;
    std::string s;
    {
      llvm::raw_string_ostream os(s);
      d->getNameForDiagnostic(os, PP, true);
    }
    o["full"] = s;
    o["ret"] = typeId(d->getReturnType());
    if (auto *ta = d->getTemplateSpecializationArgs())
    {
      json::Array a;
      for (auto &x : ta->asArray()) a.push_back(targ(x));
      o["targs"] = std::move(a);
    }
    if (auto *m = dyn_cast<CXXMethodDecl>(d))
    {
      o["rec"] = recId(m->getParent());
      o["static"] = m->isStatic();
      o["const"] = m->isConst();
      o["virtual"] = m->isVirtual();
      if (isa<CXXConstructorDecl>(d))
      {
        o["ctor"] = true;
        auto *cd = cast<CXXConstructorDecl>(d);
        if (cd->isCopyConstructor()) o["copy"] = true;
        if (cd->isMoveConstructor()) o["move"] = true;
        if (cd->isDefaultConstructor()) o["defctor"] = true;
      }
      if (isa<CXXDestructorDecl>(d)) o["dtor"] = true;
      if (m->isCopyAssignmentOperator() || m->isMoveAssignmentOperator()) o["assign"] = true;
      o["defaulted"] = d->isDefaulted();
      o["implicit"] = d->isImplicit();
    }
    bool mine = inRoots(d->getLocation());
    o["mine"] = mine;
    json::Array ps;
    for (auto *p : d->parameters())
    {
      json::Object po;
      po["id"] = varId(p);
      po["n"] = p->getNameAsString();
      po["t"] = typeId(p->getType());
      ps.push_back(std::move(po));
    }
    o["params"] = std::move(ps);
    auto L = SM.getExpansionLoc(d->getLocation());
    if (mine)
    {
      o["file"] = SM.getFilename(L).str();
      o["line"] = (int)SM.getExpansionLineNumber(L);
    }
    if (mine && def && !def->isDependentContext() && !(def->isDefaulted() && !def->isUserProvided() && !isa<CXXConstructorDecl>(def)))
    {
      if (auto *cd = dyn_cast<CXXConstructorDecl>(def))
      {
        json::Array in;
        for (auto *i : cd->inits())
        {
          json::Object io;
          if (i->isAnyMemberInitializer()) io["m"] = i->getAnyMember()->getNameAsString();
          else if (i->isBaseInitializer()) io["base"] = typeId(QualType(i->getBaseClass(), 0));
          else io["deleg"] = true;
          io["e"] = E(i->getInit());
          in.push_back(std::move(io));
        }
        o["inits"] = std::move(in);
      }
      o["body"] = S(def->getBody());
    }
    funs[id] = std::move(o);
  }

  json::Object node(const char *k, const Stmt *s)
  {
    json::Object o;
    o["k"] = k;
    auto L = SM.getExpansionLoc(s->getBeginLoc());
    o["l"] = (int)SM.getExpansionLineNumber(L);
    return o;
  }

  json::Array exprs(llvm::ArrayRef<const Expr *> a)
  {
    json::Array r;
    for (auto *e : a) r.push_back(E(e));
    return r;
  }

  json::Value E(const Expr *e)
  {
    if (!e) return nullptr;
    // strip sugar
    for (;;)
    {
      if (auto *x = dyn_cast<ParenExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<FullExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) { 
        json::Object o = node("temp", e); o["t"] = typeId(x->getType()); o["e"] = E(x->getSubExpr()); return o; }
      if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = x->getReplacement(); continue; }
      if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) { e = x->getExpr(); continue; }
      if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) { e = x->getExpr(); continue; }
      if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(e)) { e = x->getSemanticForm(); continue; }
      if (auto *x = dyn_cast<OpaqueValueExpr>(e)) { if (x->getSourceExpr()) { e = x->getSourceExpr(); continue; } }
      break;
    }
    int t = typeId(e->getType());
    auto N = [&](const char *k) { json::Object o = node(k, e); o["t"] = t; return o; };

    if (!e->isValueDependent() && e->isPRValue() && e->getType()->isIntegralOrEnumerationType() && !isa<CXXBoolLiteralExpr>(e) && !isa<CallExpr>(e))
    {
      Expr::EvalResult r;
      if (e->EvaluateAsInt(r, C) && !r.HasSideEffects)
      {
        json::Object o = N("lit");
        if (e->getType()->isBooleanType()) o["v"] = r.Val.getInt().getBoolValue();
        else o["v"] = r.Val.getInt().isSigned() ? json::Value(r.Val.getInt().getExtValue()) : json::Value((int64_t)r.Val.getInt().getZExtValue());
        return o;
      }
    }
    if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) { auto o = N("lit"); o["v"] = x->getValue(); return o; }
    if (auto *x = dyn_cast<IntegerLiteral>(e)) { auto o = N("lit"); o["v"] = (int64_t)x->getValue().getZExtValue(); return o; }
    if (auto *x = dyn_cast<CharacterLiteral>(e)) { auto o = N("lit"); o["v"] = (int64_t)x->getValue(); return o; }
    if (auto *x = dyn_cast<FloatingLiteral>(e))
    {
      auto o = N("flit");
      llvm::SmallString<40> s;
      x->getValue().toString(s, 40);
      // exact value of the double
      bool lossy;
      llvm::APFloat v = x->getValue();
      v.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &lossy);
      char buf[64];
      snprintf(buf, sizeof buf, "%a", v.convertToDouble());
      o["hex"] = std::string(buf);
      // spelling as written in the source
      auto SL = SM.getSpellingLoc(x->getLocation());
      llvm::SmallString<32> sp;
      bool inv = false;
      llvm::StringRef txt = Lexer::getSpelling(SL, sp, SM, C.getLangOpts(), &inv);
      if (!inv) o["txt"] = txt.str();
      return o;
    }
    if (auto *x = dyn_cast<clang::StringLiteral>(e)) { auto o = N("str"); 
        if (x->isOrdinary() && json::isUTF8(x->getString())) o["v"] = x->getString().str(); else o["v"] = "?"; return o; }
    if (isa<PredefinedExpr>(e)) { auto o = N("str"); o["v"] = "__func__"; return o; }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return N("null");
    if (isa<CXXThisExpr>(e)) return N("this");
    if (auto *x = dyn_cast<DeclRefExpr>(e))
    {
      const ValueDecl *d = x->getDecl();
      if (auto *f = dyn_cast<FunctionDecl>(d)) { auto o = N("fn"); o["f"] = funId(f); return o; }
      if (auto *b = dyn_cast<BindingDecl>(d))
      {
        if (auto *hv = b->getHoldingVar()) { auto o = N("var"); o["id"] = varId(hv); o["n"] = b->getNameAsString(); o["binding"] = true; return o; }
        auto o = N("bind"); o["e"] = E(b->getBinding()); o["n"] = b->getNameAsString(); return o;
      }
      if (auto *en = dyn_cast<EnumConstantDecl>(d)) { auto o = N("lit"); o["v"] = en->getInitVal().getExtValue(); return o; }
      auto o = N("var");
      o["id"] = varId(d);
      o["n"] = d->getNameAsString();
      if (auto *v = dyn_cast<VarDecl>(d))
      {
        if (v->hasGlobalStorage() && !v->isStaticLocal())
        {
          o["g"] = v->getQualifiedNameAsString();
          if (v->getType()->isArithmeticType() || v->getType()->isEnumeralType())
            if (v->getType().isConstQualified())
              if (auto *val = v->getAnyInitializer() ? v->evaluateValue() : nullptr)
              {
                if (val->isInt()) { auto q = N("lit"); q["v"] = val->getInt().getExtValue(); return q; }
                if (val->isFloat()) { auto q = N("flit"); char buf[64]; snprintf(buf, sizeof buf, "%a", val->getFloat().convertToDouble()); q["hex"] = std::string(buf); return q; }
              }
        }
      }
      return o;
    }
    if (auto *x = dyn_cast<MemberExpr>(e))
    {
      auto *md = x->getMemberDecl();
      if (auto *f = dyn_cast<CXXMethodDecl>(md))
      {
        auto o = N("mfn"); o["f"] = funId(f); o["b"] = E(x->getBase()); o["arrow"] = x->isArrow(); return o;
      }
      if (auto *v = dyn_cast<VarDecl>(md))
      {
        if (auto *val = v->getAnyInitializer() ? v->evaluateValue() : nullptr)
          if (val->isInt()) { auto o = N("lit"); o["v"] = val->getInt().getExtValue(); return o; }
        auto o = N("var"); o["id"] = varId(v); o["n"] = v->getNameAsString(); o["g"] = v->getQualifiedNameAsString(); return o;
      }
      auto o = N("mem");
      o["b"] = E(x->getBase());
      o["arrow"] = x->isArrow();
      o["n"] = md->getNameAsString();
      if (auto *fd = dyn_cast<FieldDecl>(md))
        if (auto *rd = dyn_cast<CXXRecordDecl>(fd->getParent())) o["own"] = recId(rd);
      return o;
    }
    if (auto *x = dyn_cast<CXXOperatorCallExpr>(e))
    {
      const FunctionDecl *f = x->getDirectCallee();
      if (f)
      {
        auto *m = dyn_cast<CXXMethodDecl>(f);
        if (m && !m->isStatic())
        {
          auto o = N("mcall");
          o["f"] = funId(f);
          o["obj"] = E(x->getArg(0));
          json::Array a;
          for (unsigned i = 1; i < x->getNumArgs(); ++i) a.push_back(E(x->getArg(i)));
          o["args"] = std::move(a);
          return o;
        }
        auto o = N("call");
        o["f"] = funId(f);
        json::Array a;
        for (unsigned i = 0; i < x->getNumArgs(); ++i) a.push_back(E(x->getArg(i)));
        o["args"] = std::move(a);
        return o;
      }
    }
    if (auto *x = dyn_cast<CXXMemberCallExpr>(e))
    {
      auto *m = x->getMethodDecl();
      if (m)
      {
        auto o = N("mcall");
        o["f"] = funId(m);
        const Expr *ce = x->getCallee()->IgnoreParens();
        auto *me = dyn_cast<MemberExpr>(ce);
        o["obj"] = me ? E(me->getBase()) : E(x->getImplicitObjectArgument());
        if (me && me->isArrow()) o["arrow"] = true;
        if (me && me->hasQualifier()) o["nonvirt"] = true;
        json::Array a;
        for (auto *y : x->arguments()) a.push_back(E(y));
        o["args"] = std::move(a);
        return o;
      }
    }
    if (auto *x = dyn_cast<CallExpr>(e))
    {
      const FunctionDecl *f = x->getDirectCallee();
      json::Array a;
      for (auto *y : x->arguments()) a.push_back(E(y));
      if (f)
      {
        auto o = N("call");
        o["f"] = funId(f);
        o["args"] = std::move(a);
        return o;
      }
      auto o = N("icall");
      o["fn"] = E(x->getCallee());
      o["args"] = std::move(a);
      return o;
    }
    if (auto *x = dyn_cast<CXXConstructExpr>(e))
    {
      if (x->isElidable() && x->getNumArgs() == 1) return E(x->getArg(0));
      auto o = N("ctor");
      o["f"] = funId(x->getConstructor());
      json::Array a;
      for (auto *y : x->arguments()) a.push_back(E(y));
      o["args"] = std::move(a);
      if (x->requiresZeroInitialization()) o["zero"] = true;
      if (x->isListInitialization()) o["list"] = true;
      return o;
    }
    if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) { auto o = N("unsup"); o["what"] = "inherited ctor"; (void)x; return o; }
    if (auto *x = dyn_cast<CastExpr>(e))
    {
      auto o = N("cast");
      o["ck"] = x->getCastKindName();
      o["e"] = E(x->getSubExpr());
      if (isa<CXXDynamicCastExpr>(e)) o["dyn"] = true;
      if (o["ck"] == "UserDefinedConversion" || o["ck"] == "ConstructorConversion")
        return E(x->getSubExpr());
      return o;
    }
    if (auto *x = dyn_cast<CompoundAssignOperator>(e))
    {
      auto o = N("cassign");
      o["op"] = x->getOpcodeStr().drop_back(1).str();
      o["a"] = E(x->getLHS()); o["b"] = E(x->getRHS());
      o["ct"] = typeId(x->getComputationResultType());
      return o;
    }
    if (auto *x = dyn_cast<BinaryOperator>(e))
    {
      auto o = N("bin");
      o["op"] = x->getOpcodeStr().str();
      o["a"] = E(x->getLHS()); o["b"] = E(x->getRHS());
      return o;
    }
    if (auto *x = dyn_cast<UnaryOperator>(e))
    {
      auto o = N("un");
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      o["post"] = x->isPostfix();
      o["a"] = E(x->getSubExpr());
      return o;
    }
    if (auto *x = dyn_cast<ConditionalOperator>(e))
    {
      auto o = N("cond");
      o["c"] = E(x->getCond()); o["a"] = E(x->getTrueExpr()); o["b"] = E(x->getFalseExpr());
      return o;
    }
    if (auto *x = dyn_cast<ArraySubscriptExpr>(e))
    {
      auto o = N("sub"); o["a"] = E(x->getBase()); o["i"] = E(x->getIdx()); return o;
    }
    if (auto *x = dyn_cast<InitListExpr>(e))
    {
      if (!x->isSemanticForm() && x->getSemanticForm()) x = x->getSemanticForm();
      auto o = N("initlist");
      json::Array a;
      for (auto *y : x->inits()) a.push_back(E(y));
      o["args"] = std::move(a);
      return o;
    }
    if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e))
    {
      auto o = N("stdinit"); o["e"] = E(x->getSubExpr()); return o;
    }
    if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) return N("zero");
    if (auto *x = dyn_cast<CXXNewExpr>(e))
    {
      auto o = N("new"); o["at"] = typeId(x->getAllocatedType());
      if (x->getInitializer()) o["init"] = E(x->getInitializer());
      if (x->isArray()) o["arr"] = true;
      return o;
    }
    if (auto *x = dyn_cast<CXXDeleteExpr>(e)) { auto o = N("delete"); o["e"] = E(x->getArgument()); return o; }
    if (auto *x = dyn_cast<CXXThrowExpr>(e)) { auto o = N("throw"); if (x->getSubExpr()) o["e"] = E(x->getSubExpr()); return o; }
    if (auto *x = dyn_cast<LambdaExpr>(e))
    {
      auto o = N("lambda");
      o["f"] = funId(x->getCallOperator());
      json::Array caps;
      auto ci = x->capture_init_begin();
      for (auto &c : x->captures())
      {
        json::Object co;
        if (c.capturesThis()) co["this"] = true;
        else if (c.capturesVariable())
        {
          co["id"] = varId(c.getCapturedVar());
          co["n"] = c.getCapturedVar()->getNameAsString();
          co["ref"] = c.getCaptureKind() == LCK_ByRef;
          if (*ci) co["e"] = E(*ci);
        }
        caps.push_back(std::move(co));
        ++ci;
      }
      o["caps"] = std::move(caps);
      return o;
    }
    if (auto *x = dyn_cast<StmtExpr>(e)) { auto o = N("stmtexpr"); o["s"] = S(x->getSubStmt()); return o; }
    if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) { auto o = N("unsup"); o["what"] = "sizeof"; (void)x; return o; }
    if (isa<CXXTypeidExpr>(e)) { auto o = N("opaque"); o["what"] = "typeid"; return o; }
    auto o = N("unsup");
    o["what"] = e->getStmtClassName();
    return o;
  }

  json::Value varDecl(const VarDecl *v, const Stmt *at)
  {
    json::Object o = node("decl", at);
    o["id"] = varId(v);
    o["n"] = v->getNameAsString();
    o["t"] = typeId(v->getType());
    if (v->isStaticLocal()) o["static"] = true;
    if (v->getInit()) o["init"] = E(v->getInit());
    return o;
  }

  json::Value S(const Stmt *s)
  {
    if (!s) return nullptr;
    if (auto *x = dyn_cast<CompoundStmt>(s))
    {
      auto o = node("block", s);
      json::Array a;
      for (auto *y : x->body()) a.push_back(S(y));
      o["body"] = std::move(a);
      return o;
    }
    if (auto *x = dyn_cast<DeclStmt>(s))
    {
      auto o = node("decls", s);
      json::Array a;
      for (auto *d : x->decls())
      {
        if (auto *dd = dyn_cast<DecompositionDecl>(d))
        {
          a.push_back(varDecl(dd, s));
          for (auto *b : dd->bindings())
            if (auto *hv = b->getHoldingVar()) a.push_back(varDecl(hv, s));
        }
        else if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(varDecl(v, s));
      }
      o["d"] = std::move(a);
      return o;
    }
    if (auto *x = dyn_cast<IfStmt>(s))
    {
      auto o = node("if", s);
      if (x->getInit()) o["init"] = S(x->getInit());
      if (x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable(), s);
      if (x->isConstexpr())
      {
        Expr::EvalResult r;
        if (x->getCond()->EvaluateAsInt(r, C))
        {
          bool v = r.Val.getInt().getBoolValue();
          const Stmt *b = v ? x->getThen() : x->getElse();
          if (!b) return node("null", s);
          return S(b);
        }
      }
      o["c"] = E(x->getCond());
      o["a"] = S(x->getThen());
      if (x->getElse()) o["b"] = S(x->getElse());
      return o;
    }
    if (auto *x = dyn_cast<ForStmt>(s))
    {
      auto o = node("for", s);
      if (x->getInit()) o["init"] = S(x->getInit());
      if (x->getCond()) o["c"] = E(x->getCond());
      if (x->getInc()) o["inc"] = E(x->getInc());
      o["body"] = S(x->getBody());
      return o;
    }
    if (auto *x = dyn_cast<CXXForRangeStmt>(s))
    {
      auto o = node("rfor", s);
      if (x->getInit()) o["init"] = S(x->getInit());
      o["range"] = E(x->getRangeInit());
      o["var"] = varDecl(x->getLoopVariable(), s);
      if (auto *dd = dyn_cast<DecompositionDecl>(x->getLoopVariable()))
      {
        json::Array a;
        for (auto *b : dd->bindings())
          if (auto *hv = b->getHoldingVar()) a.push_back(varDecl(hv, s));
        o["hold"] = std::move(a);
      }
      o["body"] = S(x->getBody());
      return o;
    }
    if (auto *x = dyn_cast<WhileStmt>(s))
    {
      auto o = node("while", s); o["c"] = E(x->getCond()); o["body"] = S(x->getBody()); return o;
    }
    if (auto *x = dyn_cast<DoStmt>(s))
    {
      auto o = node("do", s); o["c"] = E(x->getCond()); o["body"] = S(x->getBody()); return o;
    }
    if (auto *x = dyn_cast<SwitchStmt>(s))
    {
      auto o = node("switch", s); o["c"] = E(x->getCond()); o["body"] = S(x->getBody()); return o;
    }
    if (auto *x = dyn_cast<CaseStmt>(s))
    {
      auto o = node("case", s); o["v"] = E(x->getLHS()); o["s"] = S(x->getSubStmt()); return o;
    }
    if (auto *x = dyn_cast<DefaultStmt>(s)) { auto o = node("default", s); o["s"] = S(x->getSubStmt()); return o; }
    if (isa<BreakStmt>(s)) return node("break", s);
    if (isa<ContinueStmt>(s)) return node("continue", s);
    if (isa<NullStmt>(s)) return node("null", s);
    if (auto *x = dyn_cast<ReturnStmt>(s))
    {
      auto o = node("return", s); if (x->getRetValue()) o["e"] = E(x->getRetValue()); return o;
    }
    if (auto *x = dyn_cast<CXXTryStmt>(s))
    {
      auto o = node("try", s);
      o["body"] = S(x->getTryBlock());
      json::Array h;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i)
      {
        json::Object ho;
        auto *ct = x->getHandler(i);
        if (ct->getExceptionDecl()) ho["t"] = typeId(ct->getCaughtType()), ho["id"] = varId(ct->getExceptionDecl());
        ho["body"] = S(ct->getHandlerBlock());
        h.push_back(std::move(ho));
      }
      o["h"] = std::move(h);
      return o;
    }
    if (auto *x = dyn_cast<AttributedStmt>(s)) return S(x->getSubStmt());
    if (auto *x = dyn_cast<Expr>(s)) { auto o = node("expr", s); o["e"] = E(x); return o; }
    auto o = node("unsup", s);
    o["what"] = s->getStmtClassName();
    return o;
  }

  void run(std::vector<const FunctionDecl *> entries)
  {
    json::Array ent;
    for (auto *f : entries) ent.push_back(funId(f));
    while (!todo.empty() || !rectodo.empty())
    {
      if (!todo.empty()) { auto *f = todo.front(); todo.pop_front(); emitFun(f); }
      else { auto p = rectodo.front(); rectodo.pop_front(); emitRec(p.first, p.second); }
    }
    json::Object o;
    o["entries"] = std::move(ent);
    json::Array F(std::move(funs)), T(std::move(types)), R(std::move(recs));
    o["funs"] = std::move(F);
    o["types"] = std::move(T);
    o["recs"] = std::move(R);
    std::error_code ec;
    llvm::raw_fd_ostream os(outfile, ec);
    os << json::Value(std::move(o));
  }
};

struct Finder : RecursiveASTVisitor<Finder>
{
  std::vector<const FunctionDecl *> found;
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *f)
  {
    if (f->isDependentContext()) return true;
    if (!f->hasBody()) return true;
    if (f->isThisDeclarationADefinition())
    {
      auto n = f->getQualifiedNameAsString();
      if (n.rfind(entryPrefix, 0) == 0) found.push_back(f);
    }
    return true;
  }
};

struct Consumer : ASTConsumer
{
  void HandleTranslationUnit(ASTContext &C) override
  {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Finder F;
    // Only descend into the namespace of the harness
    for (auto *d : C.getTranslationUnitDecl()->decls())
      if (auto *ns = dyn_cast<NamespaceDecl>(d))
        if (ns->getName() == "contracts") F.TraverseDecl(ns);
    Dumper D(C);
    D.run(F.found);
  }
};

struct Action : ASTFrontendAction
{
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override
  {
    return std::make_unique<Consumer>();
  }
};

int main(int argc, const char **argv)
{
  // extract OUT ROOT[,ROOT...] FILE -- clang args
  if (argc < 5) return 2;
  outfile = argv[1];
  {
    std::string r = argv[2];
    size_t p = 0;
    while (p != std::string::npos)
    {
      size_t q = r.find(',', p);
      roots.push_back(r.substr(p, q == std::string::npos ? q : q - p));
      p = q == std::string::npos ? q : q + 1;
    }
  }
  entryPrefix = "contracts::C";
  std::string file = argv[3];
  std::vector<std::string> args;
  for (int i = 5; i < argc; ++i) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool tool(db, {file});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
