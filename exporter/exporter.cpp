// Extracts, mechanically and on every run, the function definitions of the
// code under verification from /repo's current sources as resolved by clang
// (types, overloads, templates, implicit members, conversions, lifetimes), as
// JSON for the verification condition generator (../vc).
//
// Usage: exporter SRC TU-NAME OUT.json ROOT[,ROOT...] -- clang flags
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <fstream>
using namespace clang;
using std::string;
static string TU, OUT; static std::vector<string> ROOTS;

struct J {  // tiny JSON writer value: already serialised text
  string s;
};
static string q(llvm::StringRef in) {
  string o = "\"";
  for (unsigned char c : in) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
struct Obj {
  string s = "{"; bool first = true;
  Obj& raw(const char* k, const string& v) { if (!first) s += ","; first = false; s += "\""; s += k; s += "\":"; s += v; return *this; }
  Obj& str(const char* k, llvm::StringRef v) { return raw(k, q(v)); }
  Obj& num(const char* k, long long v) { return raw(k, std::to_string(v)); }
  Obj& flag(const char* k, bool v) { if (v) raw(k, "1"); return *this; }
  string done() { return s + "}"; }
};
static string arr(const std::vector<string>& v) {
  string s = "["; bool f = true;
  for (auto& e : v) { if (!f) s += ","; f = false; s += e; }
  return s + "]";
}

struct Exporter {
  ASTContext& C; SourceManager& SM; std::unique_ptr<MangleContext> MC; PrintingPolicy PP;
  std::map<const void*, int> ids; int nextId = 0;
  std::map<string, int> typeIdx; std::vector<string> typeOut;
  std::map<string, string> fnInfo, defs, recs, globals; std::vector<string> globalOrder;
  std::vector<const FunctionDecl*> work; std::set<const FunctionDecl*> queued;
  Exporter(ASTContext& c) : C(c), SM(c.getSourceManager()), MC(c.createMangleContext()), PP(c.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.SuppressUnwrittenScope = false; PP.SuppressInlineNamespace = true;
  }
  string id(const void* p) { auto it = ids.find(p); if (it == ids.end()) it = ids.emplace(p, nextId++).first; return TU + "#" + std::to_string(it->second); }

  bool ours(SourceLocation L) {
    if (L.isInvalid()) return false;
    auto f = SM.getFilename(SM.getExpansionLoc(L));
    for (auto& r : ROOTS) if (f.starts_with(r)) return true;
    return false;
  }
  static bool hasInlineNs(const DeclContext*) { return false; }
  // qualified name without template arguments and inline namespaces
  string qname(const NamedDecl* D) {
    string n;
    if (auto* cd = dyn_cast<CXXConstructorDecl>(D)) n = cd->getParent()->getNameAsString();
    else if (auto* dd = dyn_cast<CXXDestructorDecl>(D)) n = "~" + dd->getParent()->getNameAsString();
    else if (isa<CXXConversionDecl>(D)) n = "operator conv";
    else n = D->getNameAsString();
    if (n.empty()) n = "(anon)";
    for (const DeclContext* dc = D->getDeclContext(); dc; dc = dc->getParent()) {
      if (auto* ns = dyn_cast<NamespaceDecl>(dc)) {
        if (ns->isInline()) continue;
        n = (ns->isAnonymousNamespace() ? string("(anon)") : ns->getNameAsString()) + "::" + n;
      } else if (auto* rd = dyn_cast<RecordDecl>(dc)) {
        string rn = rd->getNameAsString(); if (rn.empty()) rn = "(lambda)";
        n = rn + "::" + n;
      } else if (auto* ed = dyn_cast<EnumDecl>(dc)) { if (ed->isScoped()) n = ed->getNameAsString() + "::" + n; }
      else if (auto* fd = dyn_cast<FunctionDecl>(dc)) { n = qname(fd) + "()::" + n; break; }
    }
    return n;
  }
  string recKey(const RecordDecl* rd) {
    if (auto* cxx = dyn_cast<CXXRecordDecl>(rd)) if (cxx->isLambda() || !cxx->isExternallyVisible()) return id(cxx->getCanonicalDecl());
    return C.getRecordType(rd).getAsString(PP);
  }
  int type(QualType T) {
    QualType can = T.getCanonicalType();
    string key = can.getAsString(PP);
    const Type* p = can.getTypePtr();
    if (auto* rt = dyn_cast<RecordType>(p)) { key += "@" + recKey(rt->getDecl()); }
    else if (p->getPointeeType().isNull() == false) { key += "@" + std::to_string(type(p->getPointeeType())); }
    auto it = typeIdx.find(key); if (it != typeIdx.end()) return it->second;
    int ix = (int)typeOut.size(); typeIdx[key] = ix; typeOut.push_back("null");
    Obj o; o.str("s", can.getAsString(PP)).flag("c", can.isConstQualified());
    if (auto* bt = dyn_cast<BuiltinType>(p)) {
      if (bt->isBooleanType()) o.str("k", "bool");
      else if (bt->isInteger()) { o.str("k", "int").num("w", C.getTypeSize(can)).flag("sg", bt->isSignedInteger()); }
      else if (bt->isFloatingPoint()) o.str("k", "float");
      else if (bt->isVoidType()) o.str("k", "void");
      else if (bt->isNullPtrType()) o.str("k", "nullptr");
      else o.str("k", "?");
    } else if (auto* et = dyn_cast<EnumType>(p)) {
      o.str("k", "enum").str("n", qname(et->getDecl())).num("u", type(et->getDecl()->getIntegerType()));
    } else if (auto* pt = dyn_cast<PointerType>(p)) o.str("k", "ptr").num("t", type(pt->getPointeeType()));
    else if (auto* lr = dyn_cast<LValueReferenceType>(p)) o.str("k", "ref").num("t", type(lr->getPointeeType()));
    else if (auto* rr = dyn_cast<RValueReferenceType>(p)) o.str("k", "rref").num("t", type(rr->getPointeeType()));
    else if (auto* mp = dyn_cast<MemberPointerType>(p)) o.str("k", "memptr").num("t", type(mp->getPointeeType())).num("cl", type(QualType(mp->getClass(), 0)));
    else if (auto* ca = dyn_cast<ConstantArrayType>(p)) o.str("k", "arr").num("t", type(ca->getElementType())).num("n", ca->getSize().getZExtValue());
    else if (auto* fp = dyn_cast<FunctionProtoType>(p)) {
      std::vector<string> ps; for (auto& x : fp->param_types()) ps.push_back(std::to_string(type(x)));
      o.str("k", "fn").num("r", type(fp->getReturnType())).raw("p", arr(ps)).flag("va", fp->isVariadic());
    } else if (auto* rt = dyn_cast<RecordType>(p)) {
      auto* rd = rt->getDecl();
      o.str("k", "rec").str("n", qname(rd));
      if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
        std::vector<string> as; collectArgs(sp->getTemplateArgs().asArray(), as);
        o.raw("a", arr(as));
      }
      if (ours(rd->getLocation())) { o.str("id", recKey(rd)); record(rd); }
    } else o.str("k", "?");
    typeOut[ix] = o.done();
    return ix;
  }
  void collectArgs(llvm::ArrayRef<TemplateArgument> A, std::vector<string>& out) {
    for (auto& a : A) {
      if (a.getKind() == TemplateArgument::Type) out.push_back(std::to_string(type(a.getAsType())));
      else if (a.getKind() == TemplateArgument::Integral) out.push_back(q("#" + std::string(llvm::toString(a.getAsIntegral(), 10))));
      else if (a.getKind() == TemplateArgument::Pack) collectArgs(a.getPackAsArray(), out);
      else out.push_back("null");
    }
  }
  string T(QualType t) { return std::to_string(type(t)); }

  string fnKey(const FunctionDecl* F) {
    F = F->getCanonicalDecl();
    bool local = false;
    if (auto* m = dyn_cast<CXXMethodDecl>(F)) local = m->getParent()->isLambda();
    if (!F->isExternallyVisible() || local) return id(F);
    if (auto* cd = dyn_cast<CXXConstructorDecl>(F)) { string s; llvm::raw_string_ostream os(s); MC->mangleName(GlobalDecl(cd, Ctor_Complete), os); return os.str(); }
    if (auto* dd = dyn_cast<CXXDestructorDecl>(F)) { string s; llvm::raw_string_ostream os(s); MC->mangleName(GlobalDecl(dd, Dtor_Complete), os); return os.str(); }
    if (!MC->shouldMangleDeclName(F)) return F->getNameAsString();
    string s; llvm::raw_string_ostream os(s); MC->mangleName(GlobalDecl(F), os); return os.str();
  }
  string fn(const FunctionDecl* F) {
    string k = fnKey(F);
    auto it = fnInfo.find(k);
    if (it == fnInfo.end()) {
      fnInfo[k] = "";
      Obj o; o.str("q", qname(F)).num("r", type(F->getReturnType()));
      std::vector<string> ps; for (auto* p : F->parameters()) ps.push_back(T(p->getType()));
      o.raw("p", arr(ps)).flag("va", F->isVariadic());
      if (auto* ta = F->getTemplateSpecializationArgs()) { std::vector<string> as; collectArgs(ta->asArray(), as); o.raw("ta", arr(as)); }
      if (auto* m = dyn_cast<CXXMethodDecl>(F)) {
        o.num("cls", type(C.getRecordType(m->getParent())));
        o.flag("virt", m->isVirtual()).flag("static", m->isStatic()).flag("const", m->isConst());
        std::vector<string> ov; for (auto* b : m->overridden_methods()) ov.push_back(q(fnKey(b)));
        if (!ov.empty()) o.raw("ov", arr(ov));
        o.flag("pure", m->isPureVirtual());
      }
      o.str("kind", isa<CXXConstructorDecl>(F) ? "ctor" : isa<CXXDestructorDecl>(F) ? "dtor" : isa<CXXConversionDecl>(F) ? "conv" : isa<CXXMethodDecl>(F) ? "method" : "func");
      if (auto* cd = dyn_cast<CXXConstructorDecl>(F)) { o.flag("copy", cd->isCopyConstructor()).flag("move", cd->isMoveConstructor()).flag("def", cd->isDefaultConstructor()); o.flag("implicit", cd->isDefaulted()); }
      if (auto* fpt = F->getType()->getAs<FunctionProtoType>()) { auto es = fpt->getExceptionSpecType(); o.flag("nt", es == EST_BasicNoexcept || es == EST_NoexceptTrue || es == EST_DynamicNone || es == EST_NoThrow); }
      o.flag("del", F->isDeleted());
      // our own function?
      bool mine = ours(F->getLocation());
      if (auto* m = dyn_cast<CXXMethodDecl>(F)) mine = mine || ours(m->getParent()->getLocation());
      o.flag("our", mine);
      if (mine) {
        auto pl = SM.getPresumedLoc(SM.getExpansionLoc(F->getLocation()));
        if (pl.isValid()) { o.str("file", pl.getFilename()).num("line", pl.getLine()); }
        std::vector<string> pd; bool any = false;
        for (auto* p : F->parameters()) { bool h = p->hasDefaultArg() && !p->hasUnparsedDefaultArg() && !p->hasUninstantiatedDefaultArg(); any |= h; pd.push_back(h ? expr(p->getDefaultArg()) : "null"); }
        if (any) o.raw("pd", arr(pd));
      }
      fnInfo[k] = o.done();
      if (mine) enqueue(F);
    }
    return q(k);
  }
  void enqueue(const FunctionDecl* F) {
    const FunctionDecl* D = nullptr;
    if (F->hasBody(D) || (F->isDefined(D) && D)) { if (D && queued.insert(D->getCanonicalDecl()).second) work.push_back(D); }
  }
  void record(const RecordDecl* rd) {
    string k = recKey(rd);
    if (recs.count(k)) return;
    recs[k] = "null";
    Obj o; o.str("q", qname(rd));
    auto* def = rd->getDefinition();
    if (!def) { recs.erase(k); return; }
    std::vector<string> fs, bs, vm;
    int n = 0;
    for (auto* f : def->fields()) {
      Obj fo; string nm = f->getNameAsString(); if (nm.empty()) nm = "$" + std::to_string(n);
      n++;
      fo.str("n", nm).num("t", type(f->getType()));
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo.raw("init", expr(f->getInClassInitializer()));
      fs.push_back(fo.done());
    }
    o.raw("f", arr(fs));
    if (auto* cr = dyn_cast<CXXRecordDecl>(def)) {
      for (auto& b : cr->bases()) bs.push_back(T(b.getType()));
      o.raw("b", arr(bs)).flag("poly", cr->isPolymorphic()).flag("lambda", cr->isLambda());
      o.flag("agg", cr->isAggregate()).flag("union", cr->isUnion());
      if (auto* d = cr->getDestructor()) { o.raw("dtor", fn(d)); }
      if (cr->isLambda()) {
        if (auto* ft = cr->getDependentLambdaCallOperator()) { std::vector<string> cs; for (auto* sp : ft->specializations()) if (sp->isDefined()) cs.push_back(fn(sp)); if (!cs.empty()) o.raw("call", cs[0]); o.raw("calls", arr(cs)); }
        else if (auto* co = cr->getLambdaCallOperator()) o.raw("call", fn(co));
      }
      for (auto* m : cr->methods()) if (m->isVirtual()) { vm.push_back(fn(m)); }
      o.raw("vm", arr(vm));
    }
    recs[k] = o.done();
  }
  string varKey(const VarDecl* V) {
    V = V->getCanonicalDecl();
    if (V->hasGlobalStorage() && !V->isStaticLocal()) {
      if (V->isExternallyVisible()) return qname(V);
      return TU + ":" + qname(V);
    }
    return id(V);
  }
  string var(const VarDecl* V) {
    Obj o; o.str("v", varKey(V)).str("n", V->getNameAsString()).num("t", type(V->getType()));
    if (V->hasGlobalStorage()) o.flag("static", true);
    if (V->getTLSKind() != VarDecl::TLS_None) o.flag("tls", true);
    if (V->getInit()) o.raw("init", expr(V->getInit()));
    auto pl = SM.getPresumedLoc(SM.getExpansionLoc(V->getLocation()));
    if (pl.isValid()) o.num("L", pl.getLine());
    return o.done();
  }
  void global(const VarDecl* V) {
    string k = varKey(V);
    if (globals.count(k)) return;
    const VarDecl* D = V->getDefinition(); if (!D) D = V;
    globals[k] = "null"; 
    string s = var(D);
    globals[k] = s; globalOrder.push_back(k);
  }

  std::vector<string> exprs(llvm::ArrayRef<const Expr*> es) { std::vector<string> v; for (auto* e : es) v.push_back(expr(e)); return v; }
  template <class R> std::vector<string> args(R r) { std::vector<string> v; for (auto* e : r) v.push_back(expr(e)); return v; }
  static const char* vc(const Expr* E) { return E->isLValue() ? "l" : E->isXValue() ? "x" : "r"; }
  string un(const Expr* E, const char* why = nullptr) { Obj o; o.str("k", "unsupported").str("w", why ? why : E->getStmtClassName()); return fin(o, E); }
  string fin(Obj& o, const Expr* E) {
    o.num("t", type(E->getType())).str("vc", vc(E));
    auto pl = SM.getPresumedLoc(SM.getExpansionLoc(E->getExprLoc()));
    if (pl.isValid()) o.num("L", pl.getLine());
    return o.done();
  }
  void cval(Obj& o, const VarDecl* v) {
    const VarDecl* D = nullptr; auto* in = v->getAnyInitializer(D);
    if (in && D && !in->isValueDependent() && v->getType().isConstQualified() && v->getType()->isIntegralOrEnumerationType()) if (auto* ev = D->evaluateValue()) if (ev->isInt()) o.str("cv", llvm::toString(ev->getInt(), 10));
  }
  string expr(const Expr* E) {
    if (!E) return "null";
    Obj o;
    if (auto* e = dyn_cast<ParenExpr>(E)) return expr(e->getSubExpr());
    if (auto* e = dyn_cast<ConstantExpr>(E)) return expr(e->getSubExpr());
    if (auto* e = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(e->getReplacement());
    if (auto* e = dyn_cast<CXXDefaultArgExpr>(E)) { o.str("k", "defarg").raw("e", expr(e->getExpr())); return fin(o, E); }
    if (auto* e = dyn_cast<CXXDefaultInitExpr>(E)) { o.str("k", "definit").raw("e", expr(e->getExpr())); return fin(o, E); }
    if (auto* e = dyn_cast<IntegerLiteral>(E)) { o.str("k", "int").str("v", llvm::toString(e->getValue(), 10, e->getType()->isSignedIntegerType())); return fin(o, E); }
    if (auto* e = dyn_cast<CharacterLiteral>(E)) { o.str("k", "int").str("v", std::to_string(e->getValue())); return fin(o, E); }
    if (auto* e = dyn_cast<CXXBoolLiteralExpr>(E)) { o.str("k", "boollit").num("v", e->getValue()); return fin(o, E); }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { o.str("k", "null"); return fin(o, E); }
    if (isa<FloatingLiteral>(E)) { o.str("k", "floatlit"); llvm::SmallString<32> s; cast<FloatingLiteral>(E)->getValue().toString(s); o.str("v", s); return fin(o, E); }
    if (auto* e = dyn_cast<StringLiteral>(E)) { if (e->getCharByteWidth() != 1) return un(E); o.str("k", "str").str("v", e->getString()); return fin(o, E); }
    if (auto* e = dyn_cast<PredefinedExpr>(E)) { if (e->getFunctionName()) { o.str("k", "str").str("v", e->getFunctionName()->getString()).flag("pre", true); return fin(o, E); } return un(E); }
    if (auto* e = dyn_cast<DeclRefExpr>(E)) {
      auto* D = e->getDecl();
      if (auto* v = dyn_cast<VarDecl>(D)) {
        o.str("k", "var").str("v", varKey(v)).str("n", v->getNameAsString());
        if (v->hasGlobalStorage() && !v->isStaticLocal()) {
          o.flag("g", true);
          if (ours(v->getLocation())) global(v); else { o.str("ext", qname(v)); cval(o, v); }
        } else if (v->isStaticLocal()) o.flag("sl", true);
        if (v->getTLSKind() != VarDecl::TLS_None) o.flag("tls", true);
        o.flag("cap", e->refersToEnclosingVariableOrCapture());
        if (isa<ParmVarDecl>(v)) o.flag("parm", true);
        return fin(o, E);
      }
      if (auto* f = dyn_cast<FunctionDecl>(D)) { o.str("k", "fnref").raw("fn", fn(f)); return fin(o, E); }
      if (auto* c = dyn_cast<EnumConstantDecl>(D)) { o.str("k", "int").str("v", llvm::toString(c->getInitVal(), 10)).str("en", c->getNameAsString()); return fin(o, E); }
      if (auto* f = dyn_cast<FieldDecl>(D)) { o.str("k", "fieldref").str("f", f->getNameAsString()).num("cls", type(C.getRecordType(f->getParent()))); return fin(o, E); }
      if (auto* b = dyn_cast<BindingDecl>(D)) { o.str("k", "binding").raw("e", b->getBinding() ? expr(b->getBinding()) : "null"); if (auto* hv = b->getHoldingVar()) o.str("hv", varKey(hv)); return fin(o, E); }
      return un(E, "DeclRef");
    }
    if (auto* e = dyn_cast<MemberExpr>(E)) {
      auto* D = e->getMemberDecl();
      if (auto* f = dyn_cast<FieldDecl>(D)) {
        string nm = f->getNameAsString();
        o.str("k", "mem").raw("b", expr(e->getBase())).str("f", nm).flag("arrow", e->isArrow()).num("cls", type(C.getRecordType(f->getParent())));
        o.flag("isref", f->getType()->isReferenceType());
        return fin(o, E);
      }
      if (auto* v = dyn_cast<VarDecl>(D)) { o.str("k", "var").str("v", varKey(v)).str("n", v->getNameAsString()).flag("g", true); if (ours(v->getLocation())) global(v); else o.str("ext", qname(v)); cval(o, v); return fin(o, E); }
      if (auto* f = dyn_cast<FunctionDecl>(D)) { o.str("k", "fnref").raw("fn", fn(f)).raw("b", expr(e->getBase())).flag("arrow", e->isArrow()); return fin(o, E); }
      return un(E, "Member");
    }
    if (isa<CXXThisExpr>(E)) { o.str("k", "this"); return fin(o, E); }
    if (auto* e = dyn_cast<ExprWithCleanups>(E)) { o.str("k", "cleanup").raw("e", expr(e->getSubExpr())); return fin(o, E); }
    if (auto* e = dyn_cast<MaterializeTemporaryExpr>(E)) {
      o.str("k", "mat").raw("e", expr(e->getSubExpr()));
      if (e->getExtendingDecl()) o.flag("ext", true);
      return fin(o, E);
    }
    if (auto* e = dyn_cast<CXXBindTemporaryExpr>(E)) { o.str("k", "bind").raw("e", expr(e->getSubExpr())); return fin(o, E); }
    if (auto* e = dyn_cast<CXXOperatorCallExpr>(E)) {
      auto* f = e->getDirectCallee();
      if (!f) return un(E, "opcall");
      if (isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic()) {
        std::vector<string> as; for (unsigned i = 1; i < e->getNumArgs(); i++) as.push_back(expr(e->getArg(i)));
        o.str("k", "mcall").raw("fn", fn(f)).raw("o", expr(e->getArg(0))).raw("a", arr(as)).flag("op", true);
      } else o.str("k", "call").raw("fn", fn(f)).raw("a", arr(args(e->arguments()))).flag("op", true);
      return fin(o, E);
    }
    if (auto* e = dyn_cast<CXXMemberCallExpr>(E)) {
      if (auto* me = dyn_cast<MemberExpr>(e->getCallee()->IgnoreParens())) {
        auto* f = cast<CXXMethodDecl>(me->getMemberDecl());
        o.str("k", "mcall").raw("fn", fn(f)).raw("o", expr(me->getBase())).flag("arrow", me->isArrow()).raw("a", arr(args(e->arguments())));
        o.flag("qual", me->hasQualifier());
        return fin(o, E);
      }
      auto* bo = dyn_cast<BinaryOperator>(e->getCallee()->IgnoreParens());
      if (bo) { o.str("k", "pmcall").raw("o", expr(bo->getLHS())).flag("arrow", bo->getOpcode() == BO_PtrMemI).raw("f", expr(bo->getRHS())).raw("a", arr(args(e->arguments()))); return fin(o, E); }
      return un(E, "membercall");
    }
    if (auto* e = dyn_cast<CallExpr>(E)) {
      auto* f = e->getDirectCallee();
      if (f) { o.str("k", "call").raw("fn", fn(f)).raw("a", arr(args(e->arguments()))); return fin(o, E); }
      o.str("k", "icall").raw("f", expr(e->getCallee())).raw("a", arr(args(e->arguments())));
      return fin(o, E);
    }
    if (auto* e = dyn_cast<CXXConstructExpr>(E)) {
      o.str("k", "ctor").raw("fn", fn(e->getConstructor())).raw("a", arr(args(e->arguments()))).flag("el", e->isElidable()).flag("list", e->isListInitialization()).flag("stdinit", e->isStdInitListInitialization());
      o.flag("zi", e->requiresZeroInitialization()).flag("tmp", isa<CXXTemporaryObjectExpr>(e));
      return fin(o, E);
    }
    if (auto* e = dyn_cast<CastExpr>(E)) {
      o.str("k", "cast").str("ck", e->getCastKindName()).raw("e", expr(e->getSubExpr()));
      return fin(o, E);
    }
    if (auto* e = dyn_cast<UnaryOperator>(E)) {
      if (e->getOpcode() == UO_AddrOf) if (auto* dr = dyn_cast<DeclRefExpr>(e->getSubExpr()->IgnoreParens())) if (auto* m = dyn_cast<CXXMethodDecl>(dr->getDecl())) if (!m->isStatic()) {
        o.str("k", "memfn").raw("fn", fn(m)); return fin(o, E);
      }
      o.str("k", "un").str("op", UnaryOperator::getOpcodeStr(e->getOpcode())).flag("post", e->isPostfix()).raw("e", expr(e->getSubExpr()));
      return fin(o, E);
    }
    if (auto* e = dyn_cast<CompoundAssignOperator>(E)) {
      o.str("k", "cassign").str("op", BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(e->getOpcode()))).raw("l", expr(e->getLHS())).raw("r", expr(e->getRHS())).num("lt", type(e->getComputationLHSType())).num("rt", type(e->getComputationResultType()));
      return fin(o, E);
    }
    if (auto* e = dyn_cast<BinaryOperator>(E)) {
      o.str("k", "bin").str("op", e->getOpcodeStr()).raw("l", expr(e->getLHS())).raw("r", expr(e->getRHS()));
      return fin(o, E);
    }
    if (auto* e = dyn_cast<ConditionalOperator>(E)) { o.str("k", "cond").raw("c", expr(e->getCond())).raw("l", expr(e->getTrueExpr())).raw("r", expr(e->getFalseExpr())); return fin(o, E); }
    if (auto* e = dyn_cast<InitListExpr>(E)) {
      if (e->isSyntacticForm() && e->getSemanticForm()) e = e->getSemanticForm();
      std::vector<string> v; for (unsigned i = 0; i < e->getNumInits(); i++) v.push_back(expr(e->getInit(i)));
      o.str("k", "init").raw("a", arr(v)).flag("transp", e->isTransparent());
      return fin(o, E);
    }
    if (auto* e = dyn_cast<CXXStdInitializerListExpr>(E)) { o.str("k", "stdinit").raw("e", expr(e->getSubExpr())); return fin(o, E); }
    if (auto* e = dyn_cast<ArraySubscriptExpr>(E)) { o.str("k", "idx").raw("b", expr(e->getBase())).raw("i", expr(e->getIdx())); return fin(o, E); }
    if (auto* e = dyn_cast<CXXNewExpr>(E)) {
      if (e->isArray()) { o.str("k", "newarr").num("at", type(e->getAllocatedType())).raw("n", e->getArraySize() && *e->getArraySize() ? expr(*e->getArraySize()) : "null"); return fin(o, E); }
      o.str("k", "new").num("at", type(e->getAllocatedType())).raw("init", e->getInitializer() ? expr(e->getInitializer()) : "null").num("np", e->getNumPlacementArgs());
      return fin(o, E);
    }
    if (auto* e = dyn_cast<CXXDeleteExpr>(E)) { o.str("k", "delete").flag("arr", e->isArrayForm()).raw("e", expr(e->getArgument())); return fin(o, E); }
    if (auto* e = dyn_cast<CXXThrowExpr>(E)) { o.str("k", "throw").raw("e", e->getSubExpr() ? expr(e->getSubExpr()) : "null"); return fin(o, E); }
    if (auto* e = dyn_cast<LambdaExpr>(E)) {
      auto* cls = e->getLambdaClass(); record(cls);
      std::vector<string> caps; auto fi = cls->field_begin(); int n = 0;
      auto init = e->capture_init_begin();
      for (auto& c : e->captures()) {
        Obj co; co.str("f", "$" + std::to_string(n));
        if (c.capturesThis()) co.str("kind", c.getCaptureKind() == LCK_This ? "this" : "starthis");
        else if (c.capturesVariable()) { co.str("kind", c.getCaptureKind() == LCK_ByRef ? "ref" : "copy").str("v", varKey(cast<VarDecl>(c.getCapturedVar()))).str("n", c.getCapturedVar()->getNameAsString()); }
        else co.str("kind", "?");
        if (fi != cls->field_end()) { string nm = fi->getNameAsString(); co.num("t", type(fi->getType())); ++fi; }
        co.raw("init", *init ? expr(*init) : "null"); ++init; n++;
        caps.push_back(co.done());
      }
      o.str("k", "lambda").str("cls", recKey(cls)).raw("caps", arr(caps)).raw("call", fn(e->getCallOperator()));
      return fin(o, E);
    }
    if (auto* e = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Expr::EvalResult r; if (e->EvaluateAsInt(r, C)) { o.str("k", "int").str("v", llvm::toString(r.Val.getInt(), 10)).flag("sizeof", true); return fin(o, E); }
      return un(E);
    }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) { o.str("k", "zero"); return fin(o, E); }
    if (auto* e = dyn_cast<StmtExpr>(E)) { o.str("k", "stmtexpr").raw("b", stmt(e->getSubStmt())); return fin(o, E); }
    if (auto* e = dyn_cast<TypeTraitExpr>(E)) { o.str("k", "boollit").num("v", e->getValue()); return fin(o, E); }
    if (auto* e = dyn_cast<CXXNoexceptExpr>(E)) { o.str("k", "boollit").num("v", e->getValue()); return fin(o, E); }
    if (auto* e = dyn_cast<CXXTypeidExpr>(E)) { (void)e; return un(E); }
    if (auto* e = dyn_cast<OpaqueValueExpr>(E)) { return expr(e->getSourceExpr()); }
    if (auto* e = dyn_cast<PackExpansionExpr>(E)) return expr(e->getPattern());
    return un(E);
  }
  int line(const Stmt* S) { auto pl = SM.getPresumedLoc(SM.getExpansionLoc(S->getBeginLoc())); return pl.isValid() ? (int)pl.getLine() : 0; }
  string decomposition(const DecompositionDecl* D) {
    Obj o; std::vector<string> b;
    for (auto* x : D->bindings()) { Obj bo; bo.str("n", x->getNameAsString()); if (auto* hv = x->getHoldingVar()) bo.raw("hv", var(hv)); b.push_back(bo.done()); }
    o.raw("var", var(D)).raw("b", arr(b)); return o.done();
  }
  string stmt(const Stmt* S) {
    if (!S) return "null";
    if (auto* e = dyn_cast<Expr>(S)) { Obj o; o.str("k", "expr").raw("e", expr(e)).num("L", line(S)); return o.done(); }
    Obj o; o.num("L", line(S));
    if (auto* s = dyn_cast<CompoundStmt>(S)) { std::vector<string> v; for (auto* c : s->body()) v.push_back(stmt(c)); o.str("k", "block").raw("b", arr(v)); return o.done(); }
    if (auto* s = dyn_cast<DeclStmt>(S)) {
      std::vector<string> v;
      for (auto* d : s->decls()) {
        if (auto* vd = dyn_cast<VarDecl>(d)) {
          v.push_back(var(vd));
          if (auto* dd = dyn_cast<DecompositionDecl>(d)) for (auto* x : dd->bindings()) if (auto* hv = x->getHoldingVar()) v.push_back(var(hv));
        }
      }
      o.str("k", "decl").raw("v", arr(v)); return o.done();
    }
    if (auto* s = dyn_cast<IfStmt>(S)) {
      if (s->isConsteval()) { o.str("k", "unsupported"); return o.done(); }
      o.str("k", "if").raw("i", stmt(s->getInit())).raw("cv", s->getConditionVariable() ? var(s->getConditionVariable()) : "null").raw("c", expr(s->getCond())).raw("th", stmt(s->getThen())).raw("el", stmt(s->getElse())).flag("cx", s->isConstexpr());
      return o.done();
    }
    if (auto* s = dyn_cast<WhileStmt>(S)) { o.str("k", "while").raw("cv", s->getConditionVariable() ? var(s->getConditionVariable()) : "null").raw("c", expr(s->getCond())).raw("b", stmt(s->getBody())).str("id", id(S)); return o.done(); }
    if (auto* s = dyn_cast<DoStmt>(S)) { o.str("k", "do").raw("c", expr(s->getCond())).raw("b", stmt(s->getBody())).str("id", id(S)); return o.done(); }
    if (auto* s = dyn_cast<ForStmt>(S)) { o.str("k", "for").raw("i", stmt(s->getInit())).raw("cv", s->getConditionVariable() ? var(s->getConditionVariable()) : "null").raw("c", expr(s->getCond())).raw("inc", expr(s->getInc())).raw("b", stmt(s->getBody())).str("id", id(S)); return o.done(); }
    if (auto* s = dyn_cast<CXXForRangeStmt>(S)) {
      o.str("k", "rfor").raw("i", stmt(s->getInit())).raw("range", stmt(s->getRangeStmt())).raw("begin", stmt(s->getBeginStmt())).raw("end", stmt(s->getEndStmt())).raw("c", expr(s->getCond())).raw("inc", expr(s->getInc())).raw("lv", stmt(s->getLoopVarStmt())).raw("b", stmt(s->getBody())).str("id", id(S));
      return o.done();
    }
    if (auto* s = dyn_cast<ReturnStmt>(S)) { o.str("k", "return").raw("e", expr(s->getRetValue())); o.flag("nrvo", s->getNRVOCandidate() != nullptr); return o.done(); }
    if (isa<BreakStmt>(S)) { o.str("k", "break"); return o.done(); }
    if (isa<ContinueStmt>(S)) { o.str("k", "continue"); return o.done(); }
    if (isa<NullStmt>(S)) { o.str("k", "nop"); return o.done(); }
    if (auto* s = dyn_cast<SwitchStmt>(S)) { o.str("k", "switch").raw("i", stmt(s->getInit())).raw("c", expr(s->getCond())).raw("b", stmt(s->getBody())); if (s->getConditionVariable()) o.raw("cv", var(s->getConditionVariable())); return o.done(); }
    if (auto* s = dyn_cast<CaseStmt>(S)) { o.str("k", "case").raw("v", expr(s->getLHS())).raw("b", stmt(s->getSubStmt())); return o.done(); }
    if (auto* s = dyn_cast<DefaultStmt>(S)) { o.str("k", "default").raw("b", stmt(s->getSubStmt())); return o.done(); }
    if (auto* s = dyn_cast<AttributedStmt>(S)) return stmt(s->getSubStmt());
    if (auto* s = dyn_cast<CXXTryStmt>(S)) {
      std::vector<string> hs;
      for (unsigned i = 0; i < s->getNumHandlers(); i++) { auto* h = s->getHandler(i); Obj ho; ho.raw("var", h->getExceptionDecl() ? var(h->getExceptionDecl()) : "null"); if (h->getCaughtType().isNull()) ho.raw("t", "null"); else ho.num("t", type(h->getCaughtType())); ho.raw("b", stmt(h->getHandlerBlock())); hs.push_back(ho.done()); }
      o.str("k", "try").raw("b", stmt(s->getTryBlock())).raw("h", arr(hs)); return o.done();
    }
    o.str("k", "unsupported").str("w", S->getStmtClassName());
    return o.done();
  }
  void define(const FunctionDecl* F) {
    string k = fnKey(F);
    if (defs.count(k)) return;
    fn(F);
    defs[k] = "null";
    Obj o; std::vector<string> ps;
    for (auto* p : F->parameters()) ps.push_back(var(p));
    o.raw("params", arr(ps));
    if (auto* cd = dyn_cast<CXXConstructorDecl>(F)) {
      std::vector<string> is;
      for (auto* in : cd->inits()) {
        Obj io;
        if (in->isAnyMemberInitializer()) { auto* m = in->getAnyMember(); io.str("f", m->getNameAsString()); if (m->getNameAsString().empty()) io.num("fi", m->getFieldIndex()); }
        else if (in->isBaseInitializer()) io.num("base", type(QualType(in->getBaseClass(), 0)));
        else if (in->isDelegatingInitializer()) io.flag("deleg", true);
        io.raw("e", expr(in->getInit()));
        is.push_back(io.done());
      }
      o.raw("inits", arr(is));
    }
    o.raw("body", stmt(F->getBody()));
    if (F->isDefaulted()) o.flag("defaulted", true);
    o.num("nl", SM.getPresumedLoc(SM.getExpansionLoc(F->getEndLoc())).getLine());
    defs[k] = o.done();
  }
  void drain() { for (size_t i = 0; i < work.size(); i++) define(work[i]); work.clear(); }
  void write() {
    std::ofstream f(OUT);
    f << "{\"tu\":" << q(TU) << ",\n\"types\":[";
    for (size_t i = 0; i < typeOut.size(); i++) f << (i ? ",\n" : "\n") << typeOut[i];
    auto m = [&](const char* n, std::map<string, string>& mm) { f << "],\n"; (void)n; (void)mm; };
    (void)m;
    f << "]";
    auto dump = [&](const char* n, std::map<string, string>& mm) { f << ",\n\"" << n << "\":{"; bool first = true; for (auto& kv : mm) { f << (first ? "\n" : ",\n") << q(kv.first) << ":" << (kv.second.empty() ? "null" : kv.second); first = false; } f << "}"; };
    dump("fns", fnInfo); dump("defs", defs); dump("recs", recs); dump("globals", globals);
    f << ",\n\"gorder\":["; bool first = true; for (auto& g : globalOrder) { f << (first ? "" : ",") << q(g); first = false; } f << "]}\n";
  }
};
struct Visitor : RecursiveASTVisitor<Visitor> {
  Exporter& X; explicit Visitor(Exporter& x) : X(x) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl* F) {
    if (F->isDependentContext() || F->isTemplated()) return true;
    bool mine = X.ours(F->getLocation());
    if (!mine) return true;
    if (F->isThisDeclarationADefinition() || F->isImplicit()) X.enqueue(F);
    return true;
  }
  bool VisitVarDecl(VarDecl* V) {
    if (V->hasGlobalStorage() && !V->isStaticLocal() && X.ours(V->getLocation()) && !V->isTemplated() && !isa<ParmVarDecl>(V) && V->getDeclContext()->isFileContext()) X.global(V);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* R) {
    if (R->isThisDeclarationADefinition() && !R->isDependentContext() && X.ours(R->getLocation()) ) X.record(R);
    return true;
  }
};
struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext& C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Exporter X(C); Visitor V(X);
    V.TraverseDecl(C.getTranslationUnitDecl());
    X.drain();
    X.write();
  }
};
struct Action : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override { return std::make_unique<Consumer>(); } };
struct Factory : tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); } };
int main(int argc, char** argv) {
  if (argc < 6) return 2;
  string src = argv[1]; TU = argv[2]; OUT = argv[3];
  string r = argv[4]; size_t p = 0; while (true) { auto c = r.find(',', p); ROOTS.push_back(r.substr(p, c - p)); if (c == string::npos) break; p = c + 1; }
  std::vector<string> flags; for (int i = 6; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {src});
  Factory f; return tool.run(&f);
}
