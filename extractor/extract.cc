// Program-database extractor: parses every translation unit it is given with
// clang (libTooling) and writes the *resolved* program (functions with bodies,
// template instantiations, records, enums, globals) as one JSON document.
// Usage: extract OUT.json ROOT -- <compile flags> -- file1.cc file2.cc ...
#include <map>
#include <set>
#include <string>
#include <vector>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Decl.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/Expr.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/Stmt.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;

static std::string g_root;
static json::Object g_funcs, g_records, g_enums, g_globals;
static json::Array g_types;
static std::map<std::string, int> g_type_ids;
static json::Array g_tus;
static int g_var_counter = 0;

namespace {

class Dumper {
 public:
  Dumper(ASTContext& ctx) : ctx_(ctx), sm_(ctx.getSourceManager()), pp_(ctx.getPrintingPolicy()) {
    mc_.reset(ItaniumMangleContext::create(ctx, ctx.getDiagnostics()));
    pp_.SuppressTagKeyword = true;
    pp_.Bool = true;
    pp_.SuppressUnwrittenScope = false;
    pp_.FullyQualifiedName = true;
  }

  std::string FileOf(SourceLocation loc, unsigned* line = nullptr) {
    loc = sm_.getExpansionLoc(loc);
    PresumedLoc p = sm_.getPresumedLoc(loc);
    if (p.isInvalid()) return "";
    if (line) *line = p.getLine();
    return p.getFilename();
  }
  static std::string Clean(const std::string& s) {
    // normalise "a/../b"
    std::vector<std::string> parts; std::string cur;
    auto push = [&]() {
      if (cur == "..") { if (!parts.empty()) parts.pop_back(); }
      else if (!cur.empty() && cur != ".") parts.push_back(cur);
      cur.clear();
    };
    for (char c : s) { if (c == '/') push(); else cur += c; }
    push();
    std::string r = (!s.empty() && s[0] == '/') ? "/" : "";
    for (size_t i = 0; i < parts.size(); ++i) { if (i) r += "/"; r += parts[i]; }
    return r;
  }
  bool InRoot(SourceLocation loc) {
    std::string f = Clean(FileOf(loc));
    return f.compare(0, g_root.size(), g_root) == 0;
  }
  std::string Rel(SourceLocation loc, unsigned* line) {
    std::string f = Clean(FileOf(loc, line));
    if (f.compare(0, g_root.size(), g_root) == 0) f = f.substr(g_root.size());
    return f;
  }

  int TypeId(QualType t) {
    std::string s = t.isNull() ? "?" : t.getCanonicalType().getAsString(pp_);
    auto it = g_type_ids.find(s);
    if (it != g_type_ids.end()) return it->second;
    int id = g_types.size();
    g_type_ids[s] = id;
    json::Object o;
    o["s"] = s;
    if (!t.isNull()) {
      QualType c = t.getCanonicalType();
      QualType nr = c.getNonReferenceType();
      std::string kind = "other";
      if (c->isReferenceType()) o["ref"] = c->isRValueReferenceType() ? 2 : 1;
      if (nr->isBooleanType()) kind = "bool";
      else if (nr->isEnumeralType()) kind = "enum";
      else if (nr->isIntegerType()) kind = "int";
      else if (nr->isFloatingType()) kind = "flt";
      else if (nr->isPointerType()) kind = "ptr";
      else if (nr->isArrayType()) kind = "arr";
      else if (nr->isRecordType()) kind = "rec";
      else if (nr->isVoidType()) kind = "void";
      else if (nr->isFunctionType()) kind = "fun";
      o["k"] = kind;
      if (nr->isIntegerType() && !nr->isDependentType() && !nr->isIncompleteType()) {
        o["u"] = nr->isUnsignedIntegerOrEnumerationType();
        o["w"] = (int)ctx_.getTypeSize(nr);
      }
      if (nr->isPointerType()) o["p"] = nr->getPointeeType().getUnqualifiedType().getCanonicalType().getAsString(pp_);
      if (nr->isPointerType() && nr->getPointeeType().isConstQualified()) o["pc"] = true;
      if (nr.isConstQualified()) o["c"] = true;
      o["n"] = nr.getUnqualifiedType().getAsString(pp_);
      if (const ConstantArrayType* a = ctx_.getAsConstantArrayType(nr)) {
        o["len"] = (int64_t)a->getSize().getZExtValue();
        o["el"] = TypeStr(a->getElementType());
      }
    }
    g_types.push_back(std::move(o));
    return id;
  }
  std::string TypeStr(QualType t) {
    return t.getCanonicalType().getUnqualifiedType().getAsString(pp_);
  }
  std::string RecName(const RecordDecl* r) {
    return TypeStr(ctx_.getTypeDeclType(r));
  }
  std::string FnId(const FunctionDecl* f) {
    f = f->getCanonicalDecl();
    auto it = fnids_.find(f);
    if (it != fnids_.end()) return it->second;
    std::string s;
    llvm::raw_string_ostream os(s);
    if (const auto* c = dyn_cast<CXXConstructorDecl>(f)) mc_->mangleName(GlobalDecl(c, Ctor_Complete), os);
    else if (const auto* d = dyn_cast<CXXDestructorDecl>(f)) mc_->mangleName(GlobalDecl(d, Dtor_Complete), os);
    else if (mc_->shouldMangleDeclName(f)) mc_->mangleName(GlobalDecl(f), os);
    else os << f->getNameAsString();
    os.flush();
    if (!f->isExternallyVisible() && !f->isImplicit()) {
      unsigned l; s += "@" + Rel(f->getLocation(), &l);
      // lambdas share mangling within a file only
    }
    fnids_[f] = s;
    return s;
  }
  std::string QN(const NamedDecl* d) {
    std::string s; llvm::raw_string_ostream os(s);
    d->printQualifiedName(os, pp_);
    return os.str();
  }
  std::string GlobalVarId(const VarDecl* v) {
    v = v->getCanonicalDecl();
    std::string s = QN(v);
    if (v->isStaticLocal()) {
      unsigned l; std::string f = Rel(v->getLocation(), &l);
      s = s + "@" + f + ":static";
    } else if (!v->isExternallyVisible()) {
      unsigned l; s += "@" + Rel(v->getLocation(), &l);
    }
    return s;
  }
  json::Value VarId(const VarDecl* v) {
    if (v->hasGlobalStorage()) return GlobalVarId(v);
    v = v->getCanonicalDecl();
    auto it = varids_.find(v);
    if (it != varids_.end()) return it->second;
    int id = ++g_var_counter;
    varids_[v] = id;
    return id;
  }

  unsigned Line(SourceLocation l) { unsigned n = 0; FileOf(l, &n); return n; }

  static json::Value IntV(const llvm::APSInt& v) {
    if (v.isRepresentableByInt64()) return json::Value(v.getExtValue());
    return json::Value((uint64_t)v.getZExtValue());
  }
  json::Object N(const char* k, const Expr* e) {
    json::Object o; o["k"] = k;
    o["t"] = TypeId(e->getType());
    o["l"] = (int)Line(e->getExprLoc());
    if (e->isGLValue()) o["gl"] = 1;
    return o;
  }
  json::Value Unk(const Expr* e) {
    json::Object o = N("unk", e);
    o["cls"] = e->getStmtClassName();
    json::Array a;
    for (const Stmt* c : e->children()) if (c) if (auto* ce = dyn_cast<Expr>(c)) a.push_back(E(ce));
    o["a"] = std::move(a);
    return o;
  }
  void NoteFn(const FunctionDecl* f) {
    // record signature of external callee lazily
    std::string id = FnId(f);
    if (g_funcs.find(id) == g_funcs.end()) g_funcs[id] = Sig(f);
  }
  json::Object Sig(const FunctionDecl* f) {
    json::Object o;
    o["qn"] = QN(f);
    o["n"] = f->getNameAsString();
    unsigned l = 0; o["file"] = Rel(f->getLocation(), &l); o["line"] = (int)l;
    o["ret"] = TypeId(f->getReturnType());
    if (f->isVariadic()) o["variadic"] = true;
    if (f->isImplicit()) o["implicit"] = true;
    if (f->isDefaulted()) o["defaulted"] = true;
    if (f->isDeleted()) o["deleted"] = true;
    if (f->isInlined()) o["inl"] = true;
    const char* kind = "fn";
    if (const auto* m = dyn_cast<CXXMethodDecl>(f)) {
      kind = "method";
      if (isa<CXXConstructorDecl>(m)) {
        kind = "ctor";
        const auto* c = cast<CXXConstructorDecl>(m);
        if (c->isCopyOrMoveConstructor()) o["copy"] = true;
      } else if (isa<CXXDestructorDecl>(m)) kind = "dtor";
      else if (isa<CXXConversionDecl>(m)) kind = "conv";
      o["cls"] = RecName(m->getParent());
      if (m->isStatic()) o["static"] = true;
      if (m->isConst()) o["const"] = true;
      if (m->isVirtual()) o["virt"] = true;
      if (m->isPureVirtual()) o["pure"] = true;
      o["acc"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private";
      if (m->isCopyAssignmentOperator() || m->isMoveAssignmentOperator()) o["copy"] = true;
      json::Array ov;
      for (const CXXMethodDecl* b : m->overridden_methods()) ov.push_back(FnId(b));
      if (!ov.empty()) o["ovr"] = std::move(ov);
    }
    if (f->isOverloadedOperator()) o["op"] = getOperatorSpelling(f->getOverloadedOperator());
    if (const TemplateArgumentList* ta = f->getTemplateSpecializationArgs()) {
      json::Array a;
      for (const TemplateArgument& x : ta->asArray()) {
        std::string s; llvm::raw_string_ostream os(s);
        x.print(pp_, os, true);
        a.push_back(os.str());
      }
      o["targs"] = std::move(a);
    }
    o["kind"] = kind;
    json::Array ps;
    for (const ParmVarDecl* p : f->parameters()) {
      json::Object po;
      po["id"] = VarId(p); po["n"] = p->getNameAsString(); po["t"] = TypeId(p->getType());
      if (p->hasDefaultArg()) po["def"] = true;
      ps.push_back(std::move(po));
    }
    o["params"] = std::move(ps);
    return o;
  }

  json::Value E(const Expr* e) {
    if (!e) return nullptr;
    e = Strip(e);
    // constant fold (integers), but keep enumerator/constant names.
    if (!e->isValueDependent() && !e->isTypeDependent()) {
      QualType t = e->getType();
      if (!e->isGLValue() && t->isIntegralOrEnumerationType() && !isa<IntegerLiteral>(e)) {
        Expr::EvalResult r;
        if (e->EvaluateAsInt(r, ctx_, Expr::SE_NoSideEffects)) {
          json::Object o = N("int", e);
          o["v"] = IntV(r.Val.getInt());
          const Expr* in = e->IgnoreParenImpCasts();
          if (const auto* d = dyn_cast<DeclRefExpr>(in)) o["n"] = d->getDecl()->getNameAsString();
          return o;
        }
      }
    }
    switch (e->getStmtClass()) {
      case Stmt::IntegerLiteralClass: {
        json::Object o = N("int", e);
        o["v"] = (int64_t)cast<IntegerLiteral>(e)->getValue().getLimitedValue();
        return o;
      }
      case Stmt::CharacterLiteralClass: {
        json::Object o = N("int", e); o["v"] = (int64_t)cast<CharacterLiteral>(e)->getValue(); return o;
      }
      case Stmt::FloatingLiteralClass: {
        json::Object o = N("flt", e); o["v"] = cast<FloatingLiteral>(e)->getValueAsApproximateDouble(); return o;
      }
      case Stmt::CXXBoolLiteralExprClass: {
        json::Object o = N("int", e); o["v"] = (int64_t)cast<CXXBoolLiteralExpr>(e)->getValue(); return o;
      }
      case Stmt::CXXNullPtrLiteralExprClass:
      case Stmt::GNUNullExprClass: { return N("null", e); }
      case Stmt::StringLiteralClass: {
        json::Object o = N("str", e);
        std::string s = cast<StringLiteral>(e)->getBytes().str();
        if (!json::isUTF8(s)) { s = json::fixUTF8(s); o["bad8"] = true; }
        o["v"] = s; return o;
      }
      case Stmt::PredefinedExprClass: {
        json::Object o = N("str", e); o["v"] = "__func__"; return o;
      }
      case Stmt::DeclRefExprClass: return Ref(cast<DeclRefExpr>(e));
      case Stmt::CXXThisExprClass: return N("this", e);
      case Stmt::MemberExprClass: {
        const auto* m = cast<MemberExpr>(e);
        if (const auto* f = dyn_cast<FieldDecl>(m->getMemberDecl())) {
          json::Object o = N("mem", e);
          o["b"] = E(m->getBase()); o["arrow"] = m->isArrow();
          o["c"] = RecName(f->getParent()); o["n"] = f->getNameAsString();
          if (f->getType()->isReferenceType()) o["fref"] = 1;
          return o;
        }
        if (const auto* v = dyn_cast<VarDecl>(m->getMemberDecl())) {
          json::Object o = N("var", e); o["id"] = VarId(v); o["n"] = QN(v); o["s"] = "g";
          return o;
        }
        if (const auto* f = dyn_cast<FunctionDecl>(m->getMemberDecl())) {
          NoteFn(f);
          json::Object o = N("mfn", e); o["f"] = FnId(f); o["b"] = E(m->getBase()); o["arrow"] = m->isArrow();
          return o;
        }
        return Unk(e);
      }
      case Stmt::CXXMemberCallExprClass:
      case Stmt::CXXOperatorCallExprClass:
      case Stmt::UserDefinedLiteralClass:
      case Stmt::CallExprClass: return Call(cast<CallExpr>(e));
      case Stmt::CXXTemporaryObjectExprClass:
      case Stmt::CXXConstructExprClass: {
        const auto* c = cast<CXXConstructExpr>(e);
        NoteFn(c->getConstructor());
        json::Object o = N("ctor", e);
        o["f"] = FnId(c->getConstructor());
        o["c"] = RecName(c->getConstructor()->getParent());
        if (c->requiresZeroInitialization()) o["zi"] = 1;
        if (c->getConstructor()->isCopyOrMoveConstructor()) o["copy"] = 1;
        json::Array a;
        for (unsigned i = 0; i < c->getNumArgs(); ++i) a.push_back(E(c->getArg(i)));
        o["a"] = std::move(a);
        return o;
      }
      case Stmt::CXXInheritedCtorInitExprClass: return Unk(e);
      case Stmt::CXXNewExprClass: {
        const auto* n = cast<CXXNewExpr>(e);
        json::Object o = N("new", e);
        o["ty"] = TypeId(n->getAllocatedType());
        if (n->isArray()) { o["arr"] = 1; if (n->getArraySize()) o["sz"] = E(*n->getArraySize()); }
        if (n->hasInitializer()) o["i"] = E(n->getInitializer());
        else if (n->getConstructExpr()) o["i"] = E(n->getConstructExpr());
        return o;
      }
      case Stmt::CXXDeleteExprClass: {
        const auto* d = cast<CXXDeleteExpr>(e);
        json::Object o = N("del", e); o["e"] = E(d->getArgument()); if (d->isArrayForm()) o["arr"] = 1; return o;
      }
      case Stmt::UnaryOperatorClass: {
        const auto* u = cast<UnaryOperator>(e);
        json::Object o = N("un", e);
        std::string op = UnaryOperator::getOpcodeStr(u->getOpcode()).str();
        if (u->isPostfix()) op = "p" + op;
        o["op"] = op; o["e"] = E(u->getSubExpr());
        return o;
      }
      case Stmt::CompoundAssignOperatorClass:
      case Stmt::BinaryOperatorClass: {
        const auto* b = cast<BinaryOperator>(e);
        json::Object o = N(b->isAssignmentOp() ? "asg" : "bin", e);
        o["op"] = b->getOpcodeStr().str(); o["x"] = E(b->getLHS()); o["y"] = E(b->getRHS());
        return o;
      }
      case Stmt::ConditionalOperatorClass: {
        const auto* c = cast<ConditionalOperator>(e);
        json::Object o = N("cond", e);
        o["c"] = E(c->getCond()); o["x"] = E(c->getTrueExpr()); o["y"] = E(c->getFalseExpr());
        return o;
      }
      case Stmt::ArraySubscriptExprClass: {
        const auto* s = cast<ArraySubscriptExpr>(e);
        json::Object o = N("sub", e); o["b"] = E(s->getBase()); o["i"] = E(s->getIdx());
        return o;
      }
      case Stmt::InitListExprClass: {
        const auto* il = cast<InitListExpr>(e);
        if (il->isSemanticForm() == false && il->getSemanticForm()) il = il->getSemanticForm();
        json::Object o = N("ilist", e);
        json::Array a;
        for (unsigned i = 0; i < il->getNumInits(); ++i) a.push_back(E(il->getInit(i)));
        o["a"] = std::move(a);
        return o;
      }
      case Stmt::CXXStdInitializerListExprClass: {
        json::Object o = N("stdil", e); o["e"] = E(cast<CXXStdInitializerListExpr>(e)->getSubExpr()); return o;
      }
      case Stmt::ImplicitValueInitExprClass:
      case Stmt::CXXScalarValueInitExprClass: return N("zero", e);
      case Stmt::LambdaExprClass: {
        const auto* l = cast<LambdaExpr>(e);
        json::Object o = N("lambda", e);
        CXXMethodDecl* m = l->getCallOperator();
        NoteFn(m);
        std::string id = FnId(m);
        unsigned ln = 0; std::string f = Rel(l->getBeginLoc(), &ln);
        id += "#lambda" + f + ":" + std::to_string(ln) + ":" + std::to_string(sm_.getPresumedColumnNumber(sm_.getExpansionLoc(l->getBeginLoc())));
        lambda_ids_[m->getCanonicalDecl()] = id;
        json::Object fo = Sig(m);
        fo["body"] = S(l->getBody());
        fo["lambda"] = true;
        g_funcs[id] = std::move(fo);
        o["f"] = id;
        json::Array caps;
        unsigned i = 0;
        for (const LambdaCapture& c : l->captures()) {
          json::Object co;
          if (c.capturesThis()) co["this"] = 1;
          else if (c.capturesVariable()) {
            co["id"] = VarId(cast<VarDecl>(c.getCapturedVar()));
            co["ref"] = c.getCaptureKind() == LCK_ByRef;
            co["i"] = E(*(l->capture_init_begin() + i));
          }
          ++i;
          caps.push_back(std::move(co));
        }
        o["caps"] = std::move(caps);
        return o;
      }
      case Stmt::CXXThrowExprClass: {
        json::Object o = N("throw", e); o["e"] = E(cast<CXXThrowExpr>(e)->getSubExpr()); return o;
      }
      case Stmt::UnaryExprOrTypeTraitExprClass: return Unk(e);
      default: break;
    }
    if (const auto* c = dyn_cast<CastExpr>(e)) {
      json::Object o = N("cast", e);
      o["ck"] = c->getCastKindName();
      if (isa<ExplicitCastExpr>(c)) o["ex"] = 1;
      if (isa<CXXReinterpretCastExpr>(c)) o["ex"] = 2;
      o["e"] = E(c->getSubExpr());
      return o;
    }
    return Unk(e);
  }

  const Expr* Strip(const Expr* e) {
    while (true) {
      if (auto* x = dyn_cast<ParenExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<ExprWithCleanups>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<ConstantExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = x->getReplacement(); continue; }
      if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) { e = x->getExpr(); continue; }
      if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) { e = x->getExpr(); continue; }
      if (auto* x = dyn_cast<OpaqueValueExpr>(e)) { if (x->getSourceExpr()) { e = x->getSourceExpr(); continue; } }
      if (auto* x = dyn_cast<ImplicitCastExpr>(e)) {
        switch (x->getCastKind()) {
          case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay:
          case CK_ConstructorConversion: case CK_UserDefinedConversion: case CK_BuiltinFnToFnPtr:
            e = x->getSubExpr(); continue;
          default: break;
        }
      } else if (auto* x = dyn_cast<ExplicitCastExpr>(e)) {
        switch (x->getCastKind()) {
          case CK_NoOp: case CK_ConstructorConversion: case CK_UserDefinedConversion: case CK_LValueToRValue:
            e = x->getSubExpr(); continue;
          default: break;
        }
      }
      return e;
    }
  }

  json::Value Ref(const DeclRefExpr* d) {
    const ValueDecl* v = d->getDecl();
    if (const auto* ec = dyn_cast<EnumConstantDecl>(v)) {
      json::Object o = N("int", d);
      o["v"] = ec->getInitVal().getExtValue(); o["n"] = ec->getNameAsString();
      return o;
    }
    if (const auto* f = dyn_cast<FunctionDecl>(v)) {
      NoteFn(f);
      json::Object o = N("fn", d); o["f"] = FnId(f); return o;
    }
    if (const auto* var = dyn_cast<VarDecl>(v)) {
      json::Object o = N("var", d);
      o["id"] = VarId(var); o["n"] = var->getNameAsString();
      o["s"] = var->hasGlobalStorage() ? "g" : isa<ParmVarDecl>(var) ? "p" : "l";
      if (var->getType()->isReferenceType()) o["vref"] = 1;
      if (var->hasGlobalStorage()) NoteGlobal(var);
      return o;
    }
    if (const auto* b = dyn_cast<BindingDecl>(v)) {
      if (b->getBinding()) return E(b->getBinding());
    }
    return Unk(d);
  }

  void NoteGlobal(const VarDecl* v) {
    std::string id = GlobalVarId(v);
    const VarDecl* def = nullptr;
    const Expr* init = v->getAnyInitializer(def);
    auto* existing = g_globals.getObject(id);
    if (existing && (existing->get("i") || !init)) return;
    if (noting_.count(id)) return;
    noting_.insert(id);
    json::Object o;
    o["n"] = QN(v); o["t"] = TypeId(v->getType());
    unsigned l; o["file"] = Rel((def ? def : v)->getLocation(), &l); o["line"] = (int)l;
    if (v->isStaticLocal()) o["local"] = true;
    if (init && !init->isValueDependent() && InRoot((def ? def : v)->getLocation())) o["i"] = E(init);
    g_globals[id] = std::move(o);
    noting_.erase(id);
  }

  json::Value Call(const CallExpr* c) {
    json::Object o = N("call", c);
    const FunctionDecl* f = c->getDirectCallee();
    json::Array args;
    unsigned first = 0;
    if (f) {
      auto it = lambda_ids_.find(f->getCanonicalDecl());
      if (it != lambda_ids_.end()) o["f"] = it->second;
      else { NoteFn(f); o["f"] = FnId(f); }
      if (f->isOverloadedOperator()) o["op"] = getOperatorSpelling(f->getOverloadedOperator());
    }
    if (const auto* mc = dyn_cast<CXXMemberCallExpr>(c)) {
      const Expr* callee = mc->getCallee()->IgnoreParens();
      if (const auto* me = dyn_cast<MemberExpr>(callee)) {
        o["o"] = E(me->getBase());
        o["arrow"] = me->isArrow();
        const auto* md = dyn_cast<CXXMethodDecl>(me->getMemberDecl());
        if (md && md->isVirtual() && !me->hasQualifier()) o["virt"] = 1;
      } else {
        o["fe"] = E(callee);
      }
    } else if (const auto* oc = dyn_cast<CXXOperatorCallExpr>(c)) {
      if (f && isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic()) {
        o["o"] = E(oc->getArg(0)); o["arrow"] = false; first = 1;
        if (cast<CXXMethodDecl>(f)->isVirtual()) o["virt"] = 1;
      }
    } else if (!f) {
      o["fe"] = E(c->getCallee());
    }
    for (unsigned i = first; i < c->getNumArgs(); ++i) args.push_back(E(c->getArg(i)));
    o["a"] = std::move(args);
    return o;
  }

  json::Object SN(const char* k, const Stmt* s) {
    json::Object o; o["k"] = k; o["l"] = (int)Line(s->getBeginLoc()); return o;
  }
  json::Value VarDeclJ(const VarDecl* v) {
    json::Object o;
    o["id"] = VarId(v); o["n"] = v->getNameAsString(); o["t"] = TypeId(v->getType());
    o["l"] = (int)Line(v->getLocation());
    if (v->hasGlobalStorage()) { o["static"] = 1; NoteGlobal(v); }
    if (v->hasInit()) o["i"] = E(v->getInit());
    return o;
  }
  json::Value S(const Stmt* s) {
    if (!s) return nullptr;
    switch (s->getStmtClass()) {
      case Stmt::CompoundStmtClass: {
        json::Object o = SN("blk", s);
        json::Array a;
        for (const Stmt* c : cast<CompoundStmt>(s)->body()) a.push_back(S(c));
        o["b"] = std::move(a);
        o["el"] = (int)Line(s->getEndLoc());
        return o;
      }
      case Stmt::DeclStmtClass: {
        json::Object o = SN("decl", s);
        json::Array a;
        for (const Decl* d : cast<DeclStmt>(s)->decls()) {
          if (const auto* v = dyn_cast<VarDecl>(d)) {
            a.push_back(VarDeclJ(v));
          }
        }
        o["d"] = std::move(a);
        return o;
      }
      case Stmt::IfStmtClass: {
        const auto* i = cast<IfStmt>(s);
        json::Object o = SN("if", s);
        if (i->getInit()) o["init"] = S(i->getInit());
        if (i->getConditionVariable()) o["cv"] = VarDeclJ(i->getConditionVariable());
        o["c"] = E(i->getCond());
        o["x"] = S(i->getThen()); o["y"] = S(i->getElse());
        return o;
      }
      case Stmt::WhileStmtClass: {
        const auto* w = cast<WhileStmt>(s);
        json::Object o = SN("while", s);
        if (w->getConditionVariable()) o["cv"] = VarDeclJ(w->getConditionVariable());
        o["c"] = E(w->getCond()); o["b"] = S(w->getBody());
        return o;
      }
      case Stmt::DoStmtClass: {
        const auto* w = cast<DoStmt>(s);
        json::Object o = SN("do", s); o["c"] = E(w->getCond()); o["b"] = S(w->getBody());
        return o;
      }
      case Stmt::ForStmtClass: {
        const auto* f = cast<ForStmt>(s);
        json::Object o = SN("for", s);
        o["init"] = S(f->getInit());
        if (f->getConditionVariable()) o["cv"] = VarDeclJ(f->getConditionVariable());
        o["c"] = E(f->getCond()); o["inc"] = E(f->getInc()); o["b"] = S(f->getBody());
        return o;
      }
      case Stmt::CXXForRangeStmtClass: {
        const auto* f = cast<CXXForRangeStmt>(s);
        json::Object o = SN("rfor", s);
        o["r"] = E(f->getRangeInit());
        o["v"] = VarDeclJ(f->getLoopVariable());
        o["b"] = S(f->getBody());
        return o;
      }
      case Stmt::SwitchStmtClass: {
        const auto* w = cast<SwitchStmt>(s);
        json::Object o = SN("switch", s);
        if (w->getInit()) o["init"] = S(w->getInit());
        if (w->getConditionVariable()) o["cv"] = VarDeclJ(w->getConditionVariable());
        o["c"] = E(w->getCond()); o["b"] = S(w->getBody());
        return o;
      }
      case Stmt::CaseStmtClass: {
        const auto* c = cast<CaseStmt>(s);
        json::Object o = SN("case", s); o["v"] = E(c->getLHS());
        if (c->getRHS()) o["v2"] = E(c->getRHS());
        o["s"] = S(c->getSubStmt());
        return o;
      }
      case Stmt::DefaultStmtClass: {
        json::Object o = SN("default", s); o["s"] = S(cast<DefaultStmt>(s)->getSubStmt()); return o;
      }
      case Stmt::BreakStmtClass: return SN("break", s);
      case Stmt::ContinueStmtClass: return SN("continue", s);
      case Stmt::NullStmtClass: return SN("null", s);
      case Stmt::ReturnStmtClass: {
        json::Object o = SN("ret", s);
        if (cast<ReturnStmt>(s)->getRetValue()) o["e"] = E(cast<ReturnStmt>(s)->getRetValue());
        return o;
      }
      case Stmt::CXXTryStmtClass: {
        const auto* t = cast<CXXTryStmt>(s);
        json::Object o = SN("try", s); o["b"] = S(t->getTryBlock());
        json::Array a;
        for (unsigned i = 0; i < t->getNumHandlers(); ++i) a.push_back(S(t->getHandler(i)->getHandlerBlock()));
        o["h"] = std::move(a);
        return o;
      }
      case Stmt::LabelStmtClass: {
        json::Object o = SN("label", s); o["n"] = cast<LabelStmt>(s)->getName(); o["s"] = S(cast<LabelStmt>(s)->getSubStmt()); return o;
      }
      case Stmt::GotoStmtClass: {
        json::Object o = SN("goto", s); o["n"] = cast<GotoStmt>(s)->getLabel()->getNameAsString(); return o;
      }
      case Stmt::AttributedStmtClass: return S(cast<AttributedStmt>(s)->getSubStmt());
      default: break;
    }
    if (const auto* e = dyn_cast<Expr>(s)) {
      json::Object o = SN("expr", s); o["e"] = E(e); return o;
    }
    json::Object o = SN("unks", s); o["cls"] = s->getStmtClassName();
    return o;
  }

  void Function(const FunctionDecl* f) {
    const FunctionDecl* def = nullptr;
    if (!f->hasBody(def)) return;
    if (def != f) return;
    if (f->isDependentContext()) return;
    if (!InRoot(f->getLocation())) return;
    if (const auto* m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return;
    std::string id = FnId(f);
    auto* ex = g_funcs.getObject(id);
    if (ex && ex->get("body")) return;
    json::Object o = Sig(f);
    if (const auto* c = dyn_cast<CXXConstructorDecl>(f)) {
      json::Array in;
      for (const CXXCtorInitializer* i : c->inits()) {
        json::Object io;
        if (i->isBaseInitializer()) io["base"] = TypeStr(QualType(i->getBaseClass(), 0));
        else if (i->isMemberInitializer()) { io["m"] = i->getMember()->getNameAsString(); io["c"] = RecName(i->getMember()->getParent()); }
        else if (i->isDelegatingInitializer()) io["deleg"] = 1;
        io["w"] = i->isWritten();
        io["e"] = E(i->getInit());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    unsigned el = 0; FileOf(f->getEndLoc(), &el); o["eline"] = (int)el;
    o["body"] = S(f->getBody());
    g_funcs[id] = std::move(o);
  }
  void Record(const CXXRecordDecl* r) {
    if (!r->isThisDeclarationADefinition() || r->isDependentContext()) return;
    if (!InRoot(r->getLocation())) return;
    std::string n = RecName(r);
    if (g_records.find(n) != g_records.end()) return;
    json::Object o;
    unsigned l; o["file"] = Rel(r->getLocation(), &l); o["line"] = (int)l;
    json::Array bs;
    for (const auto& b : r->bases()) {
      json::Object bo; bo["n"] = TypeStr(b.getType()); if (b.isVirtual()) bo["virt"] = 1;
      bs.push_back(std::move(bo));
    }
    o["bases"] = std::move(bs);
    json::Array fs;
    for (const FieldDecl* f : r->fields()) {
      json::Object fo; fo["n"] = f->getNameAsString(); fo["t"] = TypeId(f->getType());
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["i"] = E(f->getInClassInitializer());
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    json::Array ms;
    for (const CXXMethodDecl* m : r->methods()) {
      if (m->isImplicit() && !m->isUserProvided() && !m->doesThisDeclarationHaveABody()) { if (!isa<CXXDestructorDecl>(m)) continue; }
      NoteFn(m);
      ms.push_back(FnId(m));
    }
    o["methods"] = std::move(ms);
    o["abstract"] = r->isAbstract();
    if (r->isUnion()) o["union"] = true;
    g_records[n] = std::move(o);
  }
  void Enum(const EnumDecl* e) {
    if (!InRoot(e->getLocation()) || !e->isThisDeclarationADefinition()) return;
    std::string n = TypeStr(ctx_.getTypeDeclType(e));
    if (n.find("(unnamed") != std::string::npos) { unsigned l; n = "anon@" + Rel(e->getLocation(), &l) + ":" + std::to_string(l); }
    if (g_enums.find(n) != g_enums.end()) return;
    json::Object o; json::Array a;
    unsigned l; o["file"] = Rel(e->getLocation(), &l); o["line"] = (int)l;
    for (const EnumConstantDecl* c : e->enumerators()) {
      json::Array p; p.push_back(c->getNameAsString()); p.push_back(c->getInitVal().getExtValue());
      a.push_back(std::move(p));
    }
    o["e"] = std::move(a);
    g_enums[n] = std::move(o);
  }
  void Global(const VarDecl* v) {
    if (v->hasGlobalStorage() && !v->isStaticLocal() && InRoot(v->getLocation()) && !v->getDeclContext()->isDependentContext())
      NoteGlobal(v);
  }
  ASTContext& ctx_;
  SourceManager& sm_;
  PrintingPolicy pp_;
  std::unique_ptr<ItaniumMangleContext> mc_;
  std::map<const FunctionDecl*, std::string> fnids_;
  std::map<const VarDecl*, int> varids_;
  std::map<const FunctionDecl*, std::string> lambda_ids_;
  std::set<std::string> noting_;
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  Visitor(Dumper& d) : d_(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl* f) { d_.Function(f); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) { d_.Record(r); return true; }
  bool VisitEnumDecl(EnumDecl* e) { d_.Enum(e); return true; }
  bool VisitVarDecl(VarDecl* v) { d_.Global(v); return true; }
  Dumper& d_;
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext& ctx) override {
    Dumper d(ctx);
    Visitor v(d);
    v.TraverseDecl(ctx.getTranslationUnitDecl());
  }
};
class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, StringRef) override {
    return std::make_unique<Consumer>();
  }
};
}  // namespace

int main(int argc, char** argv) {
  std::string out = argv[1];
  g_root = argv[2];
  std::vector<std::string> flags, files;
  int i = 3;
  if (std::string(argv[i]) == "--") ++i;
  for (; i < argc && std::string(argv[i]) != "--"; ++i) flags.push_back(argv[i]);
  ++i;
  for (; i < argc; ++i) files.push_back(argv[i]);
  int rc = 0;
  for (const auto& f : files) {
    bool isc = f.size() > 2 && f.substr(f.size() - 2) == ".c";
    std::vector<std::string> fl;
    for (const auto& x : flags) if (!(isc && x.rfind("-std=", 0) == 0) && !(isc && x == "-fno-rtti")) fl.push_back(x);
    tooling::FixedCompilationDatabase db(".", fl);
    tooling::ClangTool tool(db, {f});
    int r = tool.run(tooling::newFrontendActionFactory<Action>().get());
    if (r) rc = 1;
    g_tus.push_back(json::Object{{"file", f}, {"rc", r}});
  }
  json::Object top;
  top["functions"] = std::move(g_funcs); top["records"] = std::move(g_records);
  top["enums"] = std::move(g_enums); top["globals"] = std::move(g_globals);
  top["types"] = std::move(g_types); top["tus"] = std::move(g_tus);
  std::error_code ec;
  llvm::raw_fd_ostream os(out, ec);
  os << json::Value(std::move(top));
  return rc;
}
