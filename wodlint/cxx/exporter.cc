// Exports the resolved (type-checked) syntax tree of every function defined in
// the repository's own files as JSON, one object per translation unit.
//
//   exporter OUT.json ROOT FILE.cc -- CLANG-FLAGS...
#include <set>
#include <string>
#include <fstream>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;

static std::string g_root, g_out;

class Exporter : public RecursiveASTVisitor<Exporter> {
 public:
  explicit Exporter(ASTContext& c) : ctx_(c), sm_(c.getSourceManager()) {
    pp_ = PrintingPolicy(c.getLangOpts());
    pp_.SuppressTagKeyword = true;
    pp_.FullyQualifiedName = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  json::Array functions, records, enums, globals;

  std::string FileOf(SourceLocation l) {
    l = sm_.getExpansionLoc(l);
    return sm_.getFilename(l).str();
  }
  bool InRepo(SourceLocation l) {
    std::string f = FileOf(l);
    return f.compare(0, g_root.size(), g_root) == 0;
  }
  int Line(SourceLocation l) { return sm_.getExpansionLineNumber(l); }
  std::string Ty(QualType t) {
    return t.getCanonicalType().getUnqualifiedType().getAsString(pp_);
  }
  std::string TyQ(QualType t) { return t.getCanonicalType().getAsString(pp_); }
  std::string QName(const NamedDecl* d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    d->printQualifiedName(os, pp_);
    return os.str();
  }

  // Parameter and result types: tells overloads and instantiations apart.
  std::string Sig(const FunctionDecl* f) {
    std::string s;
    for (auto* p : f->parameters()) s += TyQ(p->getType()) + ",";
    return s + "->" + Ty(f->getReturnType());
  }

  std::set<const Decl*> seen_;

  bool VisitFunctionDecl(FunctionDecl* f) {
    if (!f->doesThisDeclarationHaveABody()) return true;
    if (f->isDependentContext()) return true;
    if (f->isImplicit()) return true;
    if (!InRepo(f->getLocation())) return true;
    if (!seen_.insert(f).second) return true;
    // Lambdas are exported inline.
    if (auto* m = dyn_cast<CXXMethodDecl>(f))
      if (m->getParent()->isLambda()) return true;
    json::Object o;
    o["name"] = QName(f);
    o["file"] = FileOf(f->getLocation()).substr(g_root.size());
    o["line"] = Line(f->getLocation());
    o["ret"] = Ty(f->getReturnType());
    o["sig"] = Sig(f);
    o["id"] = Id(f->getCanonicalDecl());
    if (f->isTemplateInstantiation()) o["inst"] = true;
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = QName(m->getParent());
      json::Array ov;
      for (auto* b : m->overridden_methods()) ov.push_back(QName(b));
      o["overrides"] = std::move(ov);
      o["const"] = m->isConst();
    }
    json::Array ps;
    for (auto* p : f->parameters()) ps.push_back(Param(p));
    o["params"] = std::move(ps);
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
      json::Array inits;
      for (auto* i : c->inits()) {
        if (!i->isWritten() && !i->isMemberInitializer()) continue;
        if (i->isMemberInitializer())
          inits.push_back(json::Array{i->getMember()->getNameAsString(),
                                      E(i->getInit())});
      }
      o["inits"] = std::move(inits);
    }
    o["body"] = S(f->getBody());
    functions.push_back(std::move(o));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) {
    if (!r->isThisDeclarationADefinition() || !InRepo(r->getLocation()) ||
        r->isLambda() || r->isDependentContext())
      return true;
    json::Object o;
    o["name"] = QName(r);
    o["file"] = FileOf(r->getLocation()).substr(g_root.size());
    o["line"] = Line(r->getLocation());
    json::Array bases, fields;
    for (auto& b : r->bases()) bases.push_back(Ty(b.getType()));
    for (auto* f : r->fields()) {
      json::Object fo;
      fo["name"] = f->getNameAsString();
      fo["type"] = TyQ(f->getType());
      if (f->hasInClassInitializer() && f->getInClassInitializer())
        fo["init"] = E(f->getInClassInitializer());
      fields.push_back(std::move(fo));
    }
    o["bases"] = std::move(bases);
    o["fields"] = std::move(fields);
    records.push_back(std::move(o));
    return true;
  }
  bool VisitEnumDecl(EnumDecl* e) {
    if (!e->isCompleteDefinition()) return true;
    std::string q = QName(e);
    if (q.find("waymo") == std::string::npos) return true;
    json::Object o;
    o["name"] = q;
    json::Array vs;
    for (auto* c : e->enumerators())
      vs.push_back(json::Array{c->getNameAsString(), c->getInitVal().getExtValue()});
    o["values"] = std::move(vs);
    enums.push_back(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl* v) {
    if (v->isLocalVarDeclOrParm() || !v->hasGlobalStorage()) return true;
    if (!v->isThisDeclarationADefinition() || !InRepo(v->getLocation()))
      return true;
    if (v->getDeclContext()->isDependentContext()) return true;
    json::Object o;
    o["name"] = QName(v);
    o["file"] = FileOf(v->getLocation()).substr(g_root.size());
    o["line"] = Line(v->getLocation());
    o["type"] = TyQ(v->getType());
    if (v->hasInit()) o["init"] = E(v->getInit());
    globals.push_back(std::move(o));
    return true;
  }

 private:
  ASTContext& ctx_;
  SourceManager& sm_;
  PrintingPolicy pp_ = PrintingPolicy(LangOptions());
  std::map<const Decl*, int> ids_;
  int Id(const Decl* d) {
    auto it = ids_.find(d);
    if (it != ids_.end()) return it->second;
    int n = ids_.size() + 1;
    ids_[d] = n;
    return n;
  }
  json::Value Param(const ParmVarDecl* p) {
    json::Value def = nullptr;
    if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg())
      def = E(p->getDefaultArg());
    return json::Array{Id(p), p->getNameAsString(), TyQ(p->getType()), std::move(def)};
  }
  // The macro at whose expansion this statement begins, if its whole text comes
  // from that one expansion.
  std::string MacroOf(const Stmt* s) {
    SourceLocation l = s->getBeginLoc();
    if (!l.isMacroID()) return "";
    std::string name;
    while (l.isMacroID()) {
      if (sm_.isMacroBodyExpansion(l))
        name = Lexer::getImmediateMacroName(l, sm_, ctx_.getLangOpts()).str();
      l = sm_.getImmediateMacroCallerLoc(l);
    }
    return name;
  }
  json::Value Children(const Stmt* s) {
    json::Array a;
    for (auto* c : s->children())
      if (c) {
        if (auto* e = dyn_cast<Expr>(c)) a.push_back(E(e));
        else a.push_back(S(c));
      }
    return a;
  }
  json::Value ConstVal(const APValue& v) {
    if (v.isInt()) return json::Array{"int", v.getInt().getExtValue()};
    if (v.isFloat()) return json::Array{"flt", v.getFloat().convertToDouble()};
    return nullptr;
  }

 public:
  json::Value Args(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
    json::Array a;
    for (auto* x : r) a.push_back(E(x));
    return a;
  }
  json::Value E(const Expr* e) {
    if (!e) return nullptr;
    e = e->IgnoreImplicit();
    if (auto* p = dyn_cast<ParenExpr>(e)) return E(p->getSubExpr());
    if (auto* x = dyn_cast<ExprWithCleanups>(e)) return E(x->getSubExpr());
    if (auto* x = dyn_cast<ConstantExpr>(e)) return E(x->getSubExpr());
    if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) return E(x->getSubExpr());
    if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) return E(x->getSubExpr());
    if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return E(x->getReplacement());
    if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) return json::Array{"defarg", E(x->getExpr())};
    if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) return E(x->getExpr());
    // __FILE__, __LINE__ and stringized arguments say where code stands, not what it does.
    if ((isa<IntegerLiteral>(e) || isa<StringLiteral>(e)) && e->getBeginLoc().isMacroID() &&
        sm_.isWrittenInScratchSpace(sm_.getSpellingLoc(e->getBeginLoc())))
      return isa<IntegerLiteral>(e) ? json::Array{"int", 0} : json::Array{"str", ""};
    if (auto* x = dyn_cast<IntegerLiteral>(e)) {
      llvm::APInt v = x->getValue();
      return json::Array{"int", (int64_t)v.getZExtValue()};
    }
    if (auto* x = dyn_cast<FloatingLiteral>(e))
      return json::Array{"flt", x->getValueAsApproximateDouble()};
    if (auto* x = dyn_cast<StringLiteral>(e)) {
      std::string s = x->getBytes().str();
      if (!json::isUTF8(s)) s = json::fixUTF8(s);
      return json::Array{"str", s};
    }
    if (auto* x = dyn_cast<CharacterLiteral>(e)) return json::Array{"int", (int64_t)x->getValue()};
    if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) return json::Array{"bool", x->getValue()};
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return json::Array{"null"};
    if (isa<CXXThisExpr>(e)) return json::Array{"this"};
    if (auto* x = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl* d = x->getDecl();
      if (auto* ec = dyn_cast<EnumConstantDecl>(d))
        return json::Array{"enum", QName(ec), ec->getInitVal().getExtValue()};
      if (isa<FunctionDecl>(d)) return json::Array{"fn", QName(d)};
      if (auto* v = dyn_cast<VarDecl>(d)) {
        if (v->isLocalVarDeclOrParm() || !v->hasGlobalStorage())
          return json::Array{"var", Id(v), v->getNameAsString(), TyQ(v->getType())};
        if (v->getType().isConstQualified() && v->getType()->isIntegralOrEnumerationType() && v->hasInit()) {
          Expr::EvalResult r;
          if (!v->getInit()->isValueDependent() && v->getInit()->EvaluateAsInt(r, ctx_))
            return json::Array{"gconst", QName(v), r.Val.getInt().getExtValue()};
        }
        return json::Array{"gvar", QName(v), TyQ(v->getType())};
      }
      if (auto* b = dyn_cast<BindingDecl>(d))
        return json::Array{"var", Id(b), b->getNameAsString(), TyQ(b->getType())};
      return json::Array{"gvar", QName(d), TyQ(d->getType())};
    }
    if (auto* x = dyn_cast<MemberExpr>(e)) {
      const ValueDecl* d = x->getMemberDecl();
      if (auto* v = dyn_cast<VarDecl>(d)) return json::Array{"gvar", QName(v), TyQ(v->getType())};
      if (auto* ec = dyn_cast<EnumConstantDecl>(d))
        return json::Array{"enum", QName(ec), ec->getInitVal().getExtValue()};
      std::string cls;
      if (auto* f = dyn_cast<FieldDecl>(d)) cls = QName(f->getParent());
      return json::Array{"mem", E(x->getBase()), d->getNameAsString(), cls, TyQ(d->getType()), x->isArrow()};
    }
    if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
      const CXXMethodDecl* m = x->getMethodDecl();
      if (!m) return json::Array{"call", "?", E(x->getCallee()), Args(x->arguments()), Ty(x->getType()), Line(x->getExprLoc()), json::Array{}, "", x->isLValue()};
      bool arrow = x->getImplicitObjectArgument()->getType()->isPointerType();
      return json::Array{"mcall", QName(m), E(x->getImplicitObjectArgument()), Args(x->arguments()), Ty(x->getType()), Line(x->getExprLoc()), m->isConst(), Sig(m), x->isLValue(), arrow};
    }
    if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
      std::string op = getOperatorSpelling(x->getOperator());
      std::string q, sig;
      bool cst = false;
      if (auto* f = x->getDirectCallee()) {
        q = QName(f);
        sig = Sig(f);
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) cst = m->isConst();
      }
      json::Array a;
      for (auto* y : x->arguments()) a.push_back(E(y));
      return json::Array{"opcall", op, q, std::move(a), Ty(x->getType()), Line(x->getExprLoc()), sig, x->isLValue(), cst};
    }
    if (auto* x = dyn_cast<CallExpr>(e)) {
      std::string q = "?", sig;
      json::Value callee = nullptr;
      json::Array targs;
      if (auto* f = x->getDirectCallee()) {
        q = QName(f);
        sig = Sig(f);
        if (auto* ta = f->getTemplateSpecializationArgs())
          for (auto& t : ta->asArray()) {
            if (t.getKind() == TemplateArgument::Type) targs.push_back(Ty(t.getAsType()));
            else if (t.getKind() == TemplateArgument::Integral) targs.push_back(t.getAsIntegral().getExtValue());
          }
      } else callee = E(x->getCallee());
      return json::Array{"call", q, std::move(callee), Args(x->arguments()), Ty(x->getType()), Line(x->getExprLoc()), std::move(targs), sig, x->isLValue()};
    }
    if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
      json::Array a;
      for (auto* y : x->arguments()) a.push_back(E(y));
      // copy/move construction is the identity for value flow
      if (x->getConstructor()->isCopyOrMoveConstructor() && x->getNumArgs() >= 1)
        return json::Array{"copy", a[0], Ty(x->getType())};
      return json::Array{"ctor", QName(x->getConstructor()->getParent()), std::move(a), Ty(x->getType()), Line(x->getExprLoc()), Sig(x->getConstructor())};
    }
    if (auto* x = dyn_cast<CXXFunctionalCastExpr>(e)) return json::Array{"cast", Ty(x->getType()), E(x->getSubExpr())};
    if (auto* x = dyn_cast<ExplicitCastExpr>(e)) return json::Array{"cast", Ty(x->getType()), E(x->getSubExpr())};
    if (auto* x = dyn_cast<UnaryOperator>(e)) {
      return json::Array{"un", UnaryOperator::getOpcodeStr(x->getOpcode()).str() + (x->isPostfix() ? "post" : ""), E(x->getSubExpr()), Ty(x->getType())};
    }
    if (auto* x = dyn_cast<BinaryOperator>(e))
      return json::Array{"bin", BinaryOperator::getOpcodeStr(x->getOpcode()).str(), E(x->getLHS()), E(x->getRHS()), Ty(x->getType()), Line(x->getOperatorLoc()), Ty(x->getLHS()->getType())};
    if (auto* x = dyn_cast<ConditionalOperator>(e))
      return json::Array{"cond", E(x->getCond()), E(x->getTrueExpr()), E(x->getFalseExpr())};
    if (auto* x = dyn_cast<ArraySubscriptExpr>(e))
      return json::Array{"idx", E(x->getBase()), E(x->getIdx()), Line(x->getExprLoc())};
    if (auto* x = dyn_cast<LambdaExpr>(e)) {
      json::Array ps;
      for (auto* p : x->getCallOperator()->parameters()) ps.push_back(Param(p));
      json::Array caps;
      for (auto& c : x->captures()) {
        if (c.capturesVariable()) caps.push_back(json::Array{Id(c.getCapturedVar()), c.getCapturedVar()->getNameAsString(), c.getCaptureKind() == LCK_ByRef});
      }
      return json::Array{"lambda", std::move(ps), S(x->getBody()), std::move(caps), Line(x->getBeginLoc())};
    }
    if (auto* x = dyn_cast<InitListExpr>(e)) {
      const InitListExpr* sem = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x);
      json::Array a;
      for (auto* y : sem->inits()) a.push_back(E(y));
      json::Array names;
      if (auto* rd = sem->getType()->getAsCXXRecordDecl())
        if (rd->isAggregate()) for (auto* f : rd->fields()) names.push_back(f->getNameAsString());
      return json::Array{"init", Ty(x->getType()), std::move(a), std::move(names)};
    }
    if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) return E(x->getSubExpr());
    if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e))
      return json::Array{"zero", Ty(e->getType())};
    if (auto* x = dyn_cast<CXXNewExpr>(e))
      return json::Array{"new", Ty(x->getAllocatedType()), E(x->getInitializer() ? x->getInitializer() : nullptr)};
    if (auto* x = dyn_cast<OpaqueValueExpr>(e)) return E(x->getSourceExpr());
    if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      Expr::EvalResult r;
      if (x->EvaluateAsInt(r, ctx_)) return json::Array{"int", r.Val.getInt().getExtValue()};
    }
    if (auto* x = dyn_cast<PredefinedExpr>(e)) return json::Array{"str", "__func__"};
    if (auto* x = dyn_cast<StmtExpr>(e)) return json::Array{"stmtexpr", S(x->getSubStmt())};
    return json::Array{"unk", e->getStmtClassName(), Children(e), Ty(e->getType())};
  }
  json::Value VarD(const VarDecl* v) {
    json::Array binds;
    if (auto* dd = dyn_cast<DecompositionDecl>(v))
      for (auto* b : dd->bindings()) binds.push_back(json::Array{Id(b), b->getNameAsString(), TyQ(b->getType())});
    return json::Array{"decl", Id(v), v->getNameAsString(), TyQ(v->getType()), v->hasInit() ? E(v->getInit()) : json::Value(nullptr), Line(v->getLocation()), v->isStaticLocal(), std::move(binds)};
  }
  json::Value S(const Stmt* s) {
    if (!s) return nullptr;
    std::string m = MacroOf(s);
    json::Value v = S0(s);
    if (!m.empty()) return json::Array{"macro", m, std::move(v), Line(s->getBeginLoc())};
    return v;
  }
  json::Value S0(const Stmt* s) {
    int ln = Line(s->getBeginLoc());
    if (auto* x = dyn_cast<CompoundStmt>(s)) {
      json::Array a;
      for (auto* c : x->body()) a.push_back(S(c));
      return json::Array{"block", std::move(a)};
    }
    if (auto* x = dyn_cast<DeclStmt>(s)) {
      json::Array a;
      for (auto* d : x->decls())
        if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(VarD(v));
      return json::Array{"decls", std::move(a)};
    }
    if (auto* x = dyn_cast<IfStmt>(s)) {
      json::Value cv = nullptr;
      if (x->getConditionVariable()) cv = VarD(x->getConditionVariable());
      return json::Array{"if", S(x->getInit()), std::move(cv), E(x->getCond()), S(x->getThen()), S(x->getElse()), ln};
    }
    if (auto* x = dyn_cast<ForStmt>(s))
      return json::Array{"for", S(x->getInit()), E(x->getCond()), E(x->getInc()), S(x->getBody()), ln};
    if (auto* x = dyn_cast<CXXForRangeStmt>(s))
      return json::Array{"rfor", VarD(x->getLoopVariable()), E(x->getRangeInit()), S(x->getBody()), ln, Ty(x->getRangeInit()->getType())};
    if (auto* x = dyn_cast<WhileStmt>(s)) {
      json::Value cv = nullptr;
      if (x->getConditionVariable()) cv = VarD(x->getConditionVariable());
      return json::Array{"while", E(x->getCond()), S(x->getBody()), ln, std::move(cv)};
    }
    if (auto* x = dyn_cast<DoStmt>(s)) return json::Array{"do", E(x->getCond()), S(x->getBody()), ln};
    if (auto* x = dyn_cast<SwitchStmt>(s)) {
      return json::Array{"switch", E(x->getCond()), S(x->getBody()), ln, Ty(x->getCond()->IgnoreImpCasts()->getType())};
    }
    if (auto* x = dyn_cast<CaseStmt>(s)) return json::Array{"case", E(x->getLHS()), S(x->getSubStmt()), ln};
    if (auto* x = dyn_cast<DefaultStmt>(s)) return json::Array{"default", S(x->getSubStmt()), ln};
    if (auto* x = dyn_cast<ReturnStmt>(s)) return json::Array{"ret", E(x->getRetValue()), ln};
    if (isa<BreakStmt>(s)) return json::Array{"break"};
    if (isa<ContinueStmt>(s)) return json::Array{"continue"};
    if (isa<NullStmt>(s)) return json::Array{"block", json::Array{}};
    if (auto* x = dyn_cast<AttributedStmt>(s)) return S(x->getSubStmt());
    if (auto* x = dyn_cast<Expr>(s)) return json::Array{"expr", E(x), ln};
    return json::Array{"unkstmt", s->getStmtClassName(), Children(s), ln};
  }
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext& c) override {
    Exporter x(c);
    x.TraverseDecl(c.getTranslationUnitDecl());
    json::Object o;
    o["functions"] = std::move(x.functions);
    o["records"] = std::move(x.records);
    o["enums"] = std::move(x.enums);
    o["globals"] = std::move(x.globals);
    std::error_code ec;
    llvm::raw_fd_ostream os(g_out, ec);
    os << json::Value(std::move(o));
  }
};
class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override {
    return std::make_unique<Consumer>();
  }
};

int main(int argc, const char** argv) {
  if (argc < 5) return 2;
  g_out = argv[1];
  g_root = argv[2];
  std::string file = argv[3];
  std::vector<std::string> flags(argv + 5, argv + argc);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {file});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
