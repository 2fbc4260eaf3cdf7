// ccx: extracts the typed AST of the functions defined under a source root, as JSON.
// Nothing is interpreted here: each clang expression/statement node becomes one JSON node; only
// nodes without run-time meaning (parentheses, cleanups, temporaries' materialisation, no-op casts,
// default-argument wrappers) are dropped.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
using namespace clang;
namespace J = llvm::json;
static std::vector<std::string> Roots;

struct X
{
  ASTContext& C;
  PrintingPolicy PP;
  std::map<const void*, std::string> ids;
  J::Object functions, records, enums;
  std::set<const FunctionDecl*> done;

  explicit X(ASTContext& c) : C(c), PP(c.getPrintingPolicy())
  {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true;
    PP.Bool = true; PP.SuppressUnwrittenScope = true; PP.SuppressDefaultTemplateArgs = true;
  }

  std::string id(const void* p, const char* pre)
  {
    auto it = ids.find(p);
    if (it != ids.end()) return it->second;
    auto s = std::string(pre) + std::to_string(ids.size());
    ids[p] = s;
    return s;
  }
  std::string ty(QualType t) { if (t.isNull()) return "?"; return t.getCanonicalType().getAsString(PP); }
  // canonical type, without reference and cv qualifiers
  std::string vty(QualType t)
  {
    if (t.isNull()) return "?";
    t = t.getCanonicalType();
    if (t->isReferenceType()) t = t->getPointeeType();
    return t.getUnqualifiedType().getAsString(PP);
  }
  std::string qn(const NamedDecl* d)
  {
    std::string n = d->getNameAsString();
    if (isa<CXXConstructorDecl>(d)) n = "ctor";
    if (isa<CXXDestructorDecl>(d)) n = "dtor";
    if (isa<CXXConversionDecl>(d)) n = "conv";
    const DeclContext* dc = d->getDeclContext();
    while (dc)
    {
      if (auto* nd = dyn_cast<NamedDecl>(dc))
      {
        if (auto* ns = dyn_cast<NamespaceDecl>(nd)) { if (!ns->isAnonymousNamespace() && !ns->isInline()) n = ns->getNameAsString() + "::" + n; }
        else if (isa<RecordDecl>(nd)) n = (nd->getNameAsString().empty() ? std::string("(lambda)") : nd->getNameAsString()) + "::" + n;
        else if (isa<EnumDecl>(nd)) n = nd->getNameAsString() + "::" + n;
      }
      dc = dc->getParent();
    }
    return n;
  }
  bool inRoot(SourceLocation l)
  {
    auto& SM = C.getSourceManager();
    auto f = SM.getFilename(SM.getExpansionLoc(l)).str();
    for (auto& r : Roots) if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  std::string loc(SourceLocation l)
  {
    auto& SM = C.getSourceManager();
    l = SM.getExpansionLoc(l);
    return SM.getFilename(l).str() + ":" + std::to_string(SM.getExpansionLineNumber(l));
  }
  J::Value fn(const FunctionDecl* f)
  {
    J::Object o;
    o["qn"] = qn(f);
    const FunctionDecl* def = nullptr;
    if (f->hasBody(def) && def) { if (inRoot(def->getLocation()) && !def->isDependentContext()) { emitFunction(def); o["id"] = id(def, "f"); } }
    o["ret"] = ty(f->getReturnType());
    J::Array ps; for (auto* p : f->parameters()) ps.push_back(ty(p->getType()));
    o["params"] = std::move(ps);
    if (auto* m = dyn_cast<CXXMethodDecl>(f))
    {
      o["cls"] = ty(C.getRecordType(m->getParent()));
      o["static"] = m->isStatic();
      o["const"] = m->isConst();
    }
    if (auto* ta = f->getTemplateSpecializationArgs())
    {
      J::Array a; for (auto& x : ta->asArray()) { std::string s; llvm::raw_string_ostream os(s); x.print(PP, os, true); a.push_back(os.str()); }
      o["targs"] = std::move(a);
    }
    if (auto* c = dyn_cast<CXXConstructorDecl>(f))
    {
      o["copy"] = c->isCopyConstructor(); o["move"] = c->isMoveConstructor(); o["default"] = c->isDefaultConstructor();
      o["defaulted"] = c->isDefaulted();
    }
    if (auto* m = dyn_cast<CXXMethodDecl>(f))
    {
      if (m->isCopyAssignmentOperator()) o["copyassign"] = true;
      if (m->isMoveAssignmentOperator()) o["moveassign"] = true;
    }
    return o;
  }
  J::Value params(const FunctionDecl* f)
  {
    J::Array a;
    for (auto* p : f->parameters()) { noteType(p->getType()); a.push_back(J::Object{{"id", id(p, "v")}, {"name", p->getNameAsString()}, {"t", ty(p->getType())}}); }
    return a;
  }
  void emitFunction(const FunctionDecl* f)
  {
    if (!done.insert(f).second) return;
    J::Object o;
    auto fid = id(f, "f");
    o["id"] = fid; o["qn"] = qn(f); o["loc"] = loc(f->getLocation());
    o["endloc"] = loc(f->getEndLoc());
    o["ret"] = ty(f->getReturnType());
    o["params"] = params(f);
    if (auto* m = dyn_cast<CXXMethodDecl>(f))
    {
      o["cls"] = ty(C.getRecordType(m->getParent())); o["static"] = m->isStatic(); o["const"] = m->isConst();
      emitRecord(m->getParent());
    }
    if (auto* fp = f->getType()->getAs<FunctionProtoType>())
      o["noexcept"] = fp->canThrow() == CT_Cannot;
    if (auto* ta = f->getTemplateSpecializationArgs())
    {
      J::Array a; for (auto& x : ta->asArray()) { std::string s; llvm::raw_string_ostream os(s); x.print(PP, os, true); a.push_back(os.str()); }
      o["targs"] = std::move(a);
    }
    if (auto* c = dyn_cast<CXXConstructorDecl>(f))
    {
      o["defaulted"] = c->isDefaulted(); o["copy"] = c->isCopyConstructor(); o["move"] = c->isMoveConstructor();
      J::Array inits;
      for (auto* i : c->inits())
      {
        J::Object io;
        if (i->isMemberInitializer()) io["field"] = i->getMember()->getNameAsString();
        else if (i->isBaseInitializer()) io["base"] = ty(QualType(i->getBaseClass(), 0));
        else if (i->isDelegatingInitializer()) io["deleg"] = true;
        io["e"] = ex(i->getInit());
        inits.push_back(std::move(io));
      }
      o["inits"] = std::move(inits);
    }
    o["body"] = st(f->getBody());
    functions[fid] = std::move(o);
  }
  void emitRecord(const CXXRecordDecl* r)
  {
    r = r->getDefinition();
    if (!r || r->isDependentContext()) return;
    auto n = ty(C.getRecordType(r));
    if (records.get(n)) return;
    records[n] = J::Object{};
    J::Object o; J::Array fs, bs;
    for (auto* f : r->fields()) fs.push_back(J::Object{{"name", f->getNameAsString()}, {"t", ty(f->getType())}, {"mutable", f->isMutable()}});
    for (auto& b : r->bases()) bs.push_back(ty(b.getType()));
    o["fields"] = std::move(fs); o["bases"] = std::move(bs); o["qn"] = qn(r);
    o["inroot"] = inRoot(r->getLocation());
    o["loc"] = loc(r->getLocation());
    records[n] = std::move(o);
    for (auto* f : r->fields()) noteType(f->getType());
  }
  void noteType(QualType t)
  {
    if (t.isNull()) return;
    t = t.getCanonicalType();
    while (t->isReferenceType() || t->isPointerType()) t = t->getPointeeType();
    if (auto* et = t->getAs<EnumType>()) enums[ty(t.getUnqualifiedType())] = ty(et->getDecl()->getIntegerType());
    if (auto* r = t->getAsCXXRecordDecl()) if (r->getDefinition() && inRoot(r->getDefinition()->getLocation())) emitRecord(r);
  }
  J::Value un(const Stmt* s)
  {
    J::Object o{{"k", "unsupported"}, {"what", s->getStmtClassName()}, {"loc", loc(s->getBeginLoc())}};
    if (auto* e = dyn_cast<Expr>(s)) o["t"] = ty(e->getType());
    return o;
  }
  J::Value vardecl(const VarDecl* v)
  {
    J::Object o{{"id", id(v, "v")}, {"name", v->getNameAsString()}, {"t", ty(v->getType())}, {"loc", loc(v->getLocation())}};
    if (v->isStaticLocal()) o["static"] = true;
    if (v->getInit()) { o["init"] = ex(v->getInit()); }
    noteType(v->getType());
    return o;
  }
  J::Value st(const Stmt* s)
  {
    if (!s) return nullptr;
    auto L = loc(s->getBeginLoc());
    if (auto* e = dyn_cast<Expr>(s)) return J::Object{{"k", "expr"}, {"e", ex(e)}, {"loc", L}};
    switch (s->getStmtClass())
    {
      case Stmt::CompoundStmtClass:
      {
        J::Array a; for (auto* c : cast<CompoundStmt>(s)->body()) a.push_back(st(c));
        return J::Object{{"k", "block"}, {"body", std::move(a)}};
      }
      case Stmt::DeclStmtClass:
      {
        J::Array a;
        for (auto* d : cast<DeclStmt>(s)->decls()) if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(vardecl(v));
        return J::Object{{"k", "decl"}, {"vars", std::move(a)}, {"loc", L}};
      }
      case Stmt::IfStmtClass:
      {
        auto* i = cast<IfStmt>(s);
        J::Object o{{"k", "if"}, {"cond", ex(i->getCond())}, {"then", st(i->getThen())}, {"else", st(i->getElse())}, {"loc", L}};
        if (i->getConditionVariableDeclStmt()) o["var"] = st(i->getConditionVariableDeclStmt());
        if (i->getInit()) o["init"] = st(i->getInit());
        return o;
      }
      case Stmt::ForStmtClass:
      {
        auto* f = cast<ForStmt>(s);
        return J::Object{{"k", "for"}, {"init", st(f->getInit())}, {"cond", f->getCond() ? ex(f->getCond()) : J::Value(nullptr)}, {"inc", f->getInc() ? ex(f->getInc()) : J::Value(nullptr)}, {"body", st(f->getBody())}, {"loc", L}};
      }
      case Stmt::WhileStmtClass:
      {
        auto* f = cast<WhileStmt>(s);
        return J::Object{{"k", "while"}, {"cond", ex(f->getCond())}, {"body", st(f->getBody())}, {"loc", L}};
      }
      case Stmt::DoStmtClass:
      {
        auto* f = cast<DoStmt>(s);
        return J::Object{{"k", "do"}, {"cond", ex(f->getCond())}, {"body", st(f->getBody())}, {"loc", L}};
      }
      case Stmt::CXXForRangeStmtClass:
      {
        auto* f = cast<CXXForRangeStmt>(s);
        return J::Object{{"k", "rangefor"}, {"var", vardecl(f->getLoopVariable())}, {"range", ex(f->getRangeInit())}, {"body", st(f->getBody())}, {"loc", L}};
      }
      case Stmt::ReturnStmtClass:
      {
        auto* r = cast<ReturnStmt>(s);
        return J::Object{{"k", "return"}, {"e", r->getRetValue() ? ex(r->getRetValue()) : J::Value(nullptr)}, {"loc", L}};
      }
      case Stmt::BreakStmtClass: return J::Object{{"k", "break"}, {"loc", L}};
      case Stmt::ContinueStmtClass: return J::Object{{"k", "continue"}, {"loc", L}};
      case Stmt::NullStmtClass: return J::Object{{"k", "block"}, {"body", J::Array{}}};
      case Stmt::SwitchStmtClass:
      {
        auto* w = cast<SwitchStmt>(s);
        return J::Object{{"k", "switch"}, {"cond", ex(w->getCond())}, {"body", st(w->getBody())}, {"loc", L}};
      }
      case Stmt::CaseStmtClass:
      {
        auto* c = cast<CaseStmt>(s);
        return J::Object{{"k", "case"}, {"v", ex(c->getLHS())}, {"sub", st(c->getSubStmt())}, {"loc", L}};
      }
      case Stmt::DefaultStmtClass: return J::Object{{"k", "default"}, {"sub", st(cast<DefaultStmt>(s)->getSubStmt())}, {"loc", L}};
      case Stmt::CXXTryStmtClass:
      {
        auto* t = cast<CXXTryStmt>(s);
        J::Array h;
        for (unsigned i = 0; i < t->getNumHandlers(); ++i)
        {
          auto* c = t->getHandler(i);
          J::Object o; o["t"] = c->getExceptionDecl() ? J::Value(vty(c->getCaughtType())) : J::Value(nullptr);
          if (c->getExceptionDecl()) o["var"] = vardecl(c->getExceptionDecl());
          o["body"] = st(c->getHandlerBlock());
          h.push_back(std::move(o));
        }
        return J::Object{{"k", "try"}, {"body", st(t->getTryBlock())}, {"handlers", std::move(h)}, {"loc", L}};
      }
      case Stmt::AttributedStmtClass: return st(cast<AttributedStmt>(s)->getSubStmt());
      default: return un(s);
    }
  }
  const APValue* constant(const VarDecl* v)
  {
    if (isa<ParmVarDecl>(v)) return nullptr;
    auto* init = v->getAnyInitializer();
    if (!init || init->isValueDependent() || !v->getType().isConstQualified()) return nullptr;
    return v->evaluateValue();
  }
  J::Value args(llvm::ArrayRef<const Expr*> as, unsigned from = 0)
  {
    J::Array a; for (unsigned i = from; i < as.size(); ++i) a.push_back(ex(as[i])); return a;
  }
  J::Value ex(const Expr* e)
  {
    if (!e) return nullptr;
    noteType(e->getType());
    auto T = ty(e->getType());
    auto L = loc(e->getBeginLoc());
    auto mk = [&](J::Object o) -> J::Value { o["t"] = T; o["lv"] = e->isGLValue(); o["loc"] = L; return o; };
    switch (e->getStmtClass())
    {
      case Stmt::ParenExprClass: return ex(cast<ParenExpr>(e)->getSubExpr());
      case Stmt::ExprWithCleanupsClass: return ex(cast<ExprWithCleanups>(e)->getSubExpr());
      case Stmt::MaterializeTemporaryExprClass: return mk(J::Object{{"k", "temp"}, {"e", ex(cast<MaterializeTemporaryExpr>(e)->getSubExpr())}});
      case Stmt::CXXBindTemporaryExprClass: return ex(cast<CXXBindTemporaryExpr>(e)->getSubExpr());
      case Stmt::ConstantExprClass: return ex(cast<ConstantExpr>(e)->getSubExpr());
      case Stmt::SubstNonTypeTemplateParmExprClass: return ex(cast<SubstNonTypeTemplateParmExpr>(e)->getReplacement());
      case Stmt::CXXDefaultArgExprClass: return ex(cast<CXXDefaultArgExpr>(e)->getExpr());
      case Stmt::CXXDefaultInitExprClass: return ex(cast<CXXDefaultInitExpr>(e)->getExpr());
      case Stmt::IntegerLiteralClass: { llvm::SmallString<32> s; cast<IntegerLiteral>(e)->getValue().toString(s, 10, e->getType()->isSignedIntegerOrEnumerationType()); return mk(J::Object{{"k", "int"}, {"v", s.str().str()}}); }
      case Stmt::CharacterLiteralClass: return mk(J::Object{{"k", "int"}, {"v", std::to_string(cast<CharacterLiteral>(e)->getValue())}});
      case Stmt::CXXBoolLiteralExprClass: return mk(J::Object{{"k", "bool"}, {"v", cast<CXXBoolLiteralExpr>(e)->getValue()}});
      case Stmt::FloatingLiteralClass: return mk(J::Object{{"k", "float"}, {"v", std::to_string(cast<FloatingLiteral>(e)->getValueAsApproximateDouble())}});
      case Stmt::StringLiteralClass: return mk(J::Object{{"k", "str"}});
      case Stmt::PredefinedExprClass: return mk(J::Object{{"k", "str"}});
      case Stmt::SourceLocExprClass: return mk(J::Object{{"k", "str"}});
      case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass: return mk(J::Object{{"k", "null"}});
      case Stmt::UnaryExprOrTypeTraitExprClass: case Stmt::CXXNoexceptExprClass: case Stmt::TypeTraitExprClass:
      {
        Expr::EvalResult r;
        if (e->EvaluateAsInt(r, C)) { llvm::SmallString<32> s; r.Val.getInt().toString(s, 10); return mk(J::Object{{"k", "int"}, {"v", s.str().str()}}); }
        return un(e);
      }
      case Stmt::DeclRefExprClass:
      {
        auto* d = cast<DeclRefExpr>(e)->getDecl();
        if (auto* ec = dyn_cast<EnumConstantDecl>(d)) { llvm::SmallString<32> s; ec->getInitVal().toString(s, 10); return mk(J::Object{{"k", "int"}, {"v", s.str().str()}, {"enum", qn(ec)}}); }
        if (auto* f = dyn_cast<FunctionDecl>(d)) return mk(J::Object{{"k", "fref"}, {"fn", fn(f)}});
        if (auto* v = dyn_cast<VarDecl>(d))
        {
          if (!v->isLocalVarDecl() && !isa<ParmVarDecl>(v) )
          {
            // A constant of namespace or class scope.
            if (auto* val = constant(v)) if (val->isInt()) { llvm::SmallString<32> s; val->getInt().toString(s, 10); return mk(J::Object{{"k", "int"}, {"v", s.str().str()}, {"const", qn(v)}, {"constglobal", true}}); }
          }
          J::Object o{{"k", "var"}, {"id", id(v, "v")}, {"name", v->getNameAsString()}, {"vt", ty(v->getType())}};
          if (!v->isLocalVarDecl() && !isa<ParmVarDecl>(v)) o["global"] = qn(v);
          return mk(std::move(o));
        }
        return un(e);
      }
      case Stmt::CXXThisExprClass: return mk(J::Object{{"k", "this"}});
      case Stmt::MemberExprClass:
      {
        auto* m = cast<MemberExpr>(e);
        if (auto* f = dyn_cast<FieldDecl>(m->getMemberDecl()))
          return mk(J::Object{{"k", "mem"}, {"base", ex(m->getBase())}, {"field", f->getNameAsString()}, {"arrow", m->isArrow()}, {"ft", ty(f->getType())}});
        if (auto* v = dyn_cast<VarDecl>(m->getMemberDecl()))
        {
          if (auto* val = constant(v)) if (val->isInt()) { llvm::SmallString<32> s; val->getInt().toString(s, 10); return mk(J::Object{{"k", "int"}, {"v", s.str().str()}, {"const", qn(v)}}); }
        }
        return un(e);
      }
      case Stmt::CXXMemberCallExprClass:
      {
        auto* c = cast<CXXMemberCallExpr>(e);
        auto* m = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens());
        if (!m || !c->getMethodDecl()) return un(e);
        return mk(J::Object{{"k", "mcall"}, {"obj", ex(m->getBase())}, {"arrow", m->isArrow()}, {"fn", fn(c->getMethodDecl())}, {"args", args(llvm::ArrayRef<const Expr*>(c->getArgs(), c->getNumArgs()))}});
      }
      case Stmt::CXXOperatorCallExprClass:
      {
        auto* c = cast<CXXOperatorCallExpr>(e);
        auto* f = c->getDirectCallee();
        if (!f) return un(e);
        llvm::ArrayRef<const Expr*> as(c->getArgs(), c->getNumArgs());
        if (isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic())
          return mk(J::Object{{"k", "mcall"}, {"op", true}, {"obj", ex(as[0])}, {"arrow", false}, {"fn", fn(f)}, {"args", args(as, 1)}});
        return mk(J::Object{{"k", "call"}, {"op", true}, {"fn", fn(f)}, {"args", args(as)}});
      }
      case Stmt::CallExprClass:
      {
        auto* c = cast<CallExpr>(e);
        llvm::ArrayRef<const Expr*> as(c->getArgs(), c->getNumArgs());
        if (auto* f = c->getDirectCallee()) return mk(J::Object{{"k", "call"}, {"fn", fn(f)}, {"args", args(as)}});
        return mk(J::Object{{"k", "icall"}, {"callee", ex(c->getCallee())}, {"args", args(as)}});
      }
      case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass:
      {
        auto* c = cast<CXXConstructExpr>(e);
        noteType(e->getType());
        return mk(J::Object{{"k", "ctor"}, {"fn", fn(c->getConstructor())}, {"args", args(llvm::ArrayRef<const Expr*>(c->getArgs(), c->getNumArgs()))}, {"list", c->isListInitialization()}, {"ilist", c->isStdInitListInitialization()}, {"elidable", c->isElidable()}});
      }
      case Stmt::CXXInheritedCtorInitExprClass: return un(e);
      case Stmt::ImplicitCastExprClass: case Stmt::CXXStaticCastExprClass: case Stmt::CXXFunctionalCastExprClass: case Stmt::CStyleCastExprClass:
      case Stmt::CXXReinterpretCastExprClass: case Stmt::CXXConstCastExprClass:
      {
        auto* c = cast<CastExpr>(e);
        switch (c->getCastKind())
        {
          case CK_NoOp: case CK_ConstructorConversion: case CK_FunctionToPointerDecay: case CK_UserDefinedConversion: return ex(c->getSubExpr());
          default: break;
        }
        return mk(J::Object{{"k", "cast"}, {"ck", c->getCastKindName()}, {"e", ex(c->getSubExpr())}});
      }
      case Stmt::UnaryOperatorClass:
      {
        auto* u = cast<UnaryOperator>(e);
        if (u->getOpcode() == UO_Extension) return ex(u->getSubExpr());
        auto op = UnaryOperator::getOpcodeStr(u->getOpcode()).str();
        return mk(J::Object{{"k", "un"}, {"op", op}, {"post", u->isPostfix()}, {"e", ex(u->getSubExpr())}});
      }
      case Stmt::BinaryOperatorClass:
      {
        auto* b = cast<BinaryOperator>(e);
        return mk(J::Object{{"k", b->getOpcode() == BO_Assign ? "assign" : "bin"}, {"op", b->getOpcodeStr().str()}, {"l", ex(b->getLHS())}, {"r", ex(b->getRHS())}});
      }
      case Stmt::CompoundAssignOperatorClass:
      {
        auto* b = cast<CompoundAssignOperator>(e);
        auto op = b->getOpcodeStr().str(); op.pop_back();
        return mk(J::Object{{"k", "cassign"}, {"op", op}, {"l", ex(b->getLHS())}, {"r", ex(b->getRHS())}, {"ct", ty(b->getComputationResultType())}});
      }
      case Stmt::ConditionalOperatorClass:
      {
        auto* c = cast<ConditionalOperator>(e);
        return mk(J::Object{{"k", "cond"}, {"c", ex(c->getCond())}, {"a", ex(c->getTrueExpr())}, {"b", ex(c->getFalseExpr())}});
      }
      case Stmt::ArraySubscriptExprClass:
      {
        auto* a = cast<ArraySubscriptExpr>(e);
        return mk(J::Object{{"k", "index"}, {"base", ex(a->getBase())}, {"i", ex(a->getIdx())}});
      }
      case Stmt::InitListExprClass:
      {
        auto* i = cast<InitListExpr>(e);
        if (i->isSemanticForm() == false && i->getSemanticForm()) i = i->getSemanticForm();
        J::Array a; for (auto* c : i->inits()) a.push_back(ex(c));
        return mk(J::Object{{"k", "ilist"}, {"elems", std::move(a)}});
      }
      case Stmt::CXXStdInitializerListExprClass: return mk(J::Object{{"k", "stdilist"}, {"e", ex(cast<CXXStdInitializerListExpr>(e)->getSubExpr())}});
      case Stmt::ImplicitValueInitExprClass: case Stmt::CXXScalarValueInitExprClass: return mk(J::Object{{"k", "zero"}});
      case Stmt::CXXThrowExprClass:
      {
        auto* t = cast<CXXThrowExpr>(e);
        return mk(J::Object{{"k", "throw"}, {"e", t->getSubExpr() ? ex(t->getSubExpr()) : J::Value(nullptr)}, {"et", t->getSubExpr() ? J::Value(vty(t->getSubExpr()->getType())) : J::Value(nullptr)}});
      }
      case Stmt::LambdaExprClass:
      {
        auto* l = cast<LambdaExpr>(e);
        J::Array caps; auto ii = l->capture_init_begin();
        for (auto& c : l->captures())
        {
          J::Object o;
          if (c.capturesThis()) o["this"] = true;
          else if (c.capturesVariable()) { o["id"] = id(c.getCapturedVar(), "v"); o["name"] = c.getCapturedVar()->getNameAsString(); o["ref"] = c.getCaptureKind() == LCK_ByRef; o["init"] = ex(*ii); }
          ++ii;
          caps.push_back(std::move(o));
        }
        auto* f = l->getCallOperator();
        return mk(J::Object{{"k", "lambda"}, {"caps", std::move(caps)}, {"params", params(f)}, {"ret", ty(f->getReturnType())}, {"body", st(l->getBody())}});
      }
      case Stmt::CXXNewExprClass:
      {
        auto* n = cast<CXXNewExpr>(e);
        J::Array pl; for (unsigned i = 0; i < n->getNumPlacementArgs(); ++i) pl.push_back(ex(n->getPlacementArg(i)));
        return mk(J::Object{{"k", "new"}, {"at", ty(n->getAllocatedType())}, {"array", n->isArray()}, {"size", n->isArray() && n->getArraySize() ? ex(*n->getArraySize()) : J::Value(nullptr)}, {"init", n->getInitializer() ? ex(n->getInitializer()) : J::Value(nullptr)}, {"placement", std::move(pl)}});
      }
      case Stmt::CXXDeleteExprClass:
      {
        auto* d = cast<CXXDeleteExpr>(e);
        return mk(J::Object{{"k", "delete"}, {"array", d->isArrayForm()}, {"e", ex(d->getArgument())}});
      }
      default: return un(e);
    }
  }
};

struct V : RecursiveASTVisitor<V>
{
  X& x;
  explicit V(X& x) : x(x) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl* f)
  {
    if (f->isThisDeclarationADefinition() && f->hasBody() && !f->isDependentContext() && x.inRoot(f->getLocation()))
    {
      if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return true;
      x.emitFunction(f);
    }
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* r)
  {
    if (r->isThisDeclarationADefinition() && !r->isDependentContext() && !r->isLambda() && x.inRoot(r->getLocation())) x.emitRecord(r);
    return true;
  }
};
struct Cons : ASTConsumer
{
  void HandleTranslationUnit(ASTContext& C) override
  {
    if (C.getDiagnostics().hasErrorOccurred()) { std::cerr << "compile errors\n"; exit(3); }
    X x(C); V v(x); v.TraverseDecl(C.getTranslationUnitDecl());
    J::Object o{{"functions", std::move(x.functions)}, {"records", std::move(x.records)}, {"enums", std::move(x.enums)}};
    llvm::outs() << J::Value(std::move(o)) << "\n";
  }
};
struct Act : ASTFrontendAction
{
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Cons>(); }
};
// usage: ccx FILE ROOT[,ROOT...] -- compiler flags
int main(int argc, char** argv)
{
  std::string file = argv[1];
  { std::stringstream ss(argv[2]); std::string r; while (std::getline(ss, r, ',')) Roots.push_back(r); }
  std::vector<std::string> args;
  for (int i = 4; i < argc; ++i) args.push_back(argv[i]);
  std::ifstream in(file); std::stringstream ss; ss << in.rdbuf();
  return tooling::runToolOnCodeWithArgs(std::make_unique<Act>(), ss.str(), args, file, "ccx") ? 0 : 3;
}
