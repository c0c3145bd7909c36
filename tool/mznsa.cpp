// mznsa: libTooling fact extractor for MiniZinc/libminizinc.
// For one translation unit it prints, one per line, JSON facts about every function, class, enum and
// global variable defined in files below the given roots: the resolved syntax tree (callees, members and
// types resolved), and clang's control-flow graph over the same nodes. It never executes project code.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecordLayout.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Analysis/CFG.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Tooling/CommonOptionsParser.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/CommandLine.h>
#include <llvm/Support/raw_ostream.h>

#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>

using namespace clang;
using std::string;

static std::vector<string> gRoots;
static std::ofstream* gOut;

static string js(llvm::StringRef s) {
  string r = "\"";
  for (unsigned char c : s) {
    switch (c) {
      case '"': r += "\\\""; break;
      case '\\': r += "\\\\"; break;
      case '\n': r += "\\n"; break;
      case '\r': r += "\\r"; break;
      case '\t': r += "\\t"; break;
      default:
        if (c < 32 || c >= 127) {
          char b[8];
          snprintf(b, sizeof b, "\\u%04x", c);
          r += b;
        } else {
          r += (char)c;
        }
    }
  }
  return r + "\"";
}

class Extractor : public RecursiveASTVisitor<Extractor> {
public:
  ASTContext& ctx;
  SourceManager& sm;
  PrintingPolicy pp;
  std::unordered_map<const void*, string> typeCache;
  std::set<string> emitted;
  std::map<FileID, string> fileCache;

  Extractor(ASTContext& c) : ctx(c), sm(c.getSourceManager()), pp(c.getLangOpts()) {
    pp.SuppressTagKeyword = true;
    pp.SuppressUnwrittenScope = true;
    pp.FullyQualifiedName = true;
    pp.PrintCanonicalTypes = true;
    pp.TerseOutput = true;
    pp.AnonymousTagLocations = false;
    pp.SuppressDefaultTemplateArgs = true;
  }

  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool shouldVisitLambdaBody() const { return true; }

  string fileOf(SourceLocation l) {
    l = sm.getExpansionLoc(l);
    if (l.isInvalid()) return "";
    FileID f = sm.getFileID(l);
    auto it = fileCache.find(f);
    if (it != fileCache.end()) return it->second;
    string res;
    if (auto fe = sm.getFileEntryRefForID(f)) {
      llvm::StringRef rp = fe->getFileEntry().tryGetRealPathName();
      string p = rp.empty() ? fe->getName().str() : rp.str();
      for (auto& r : gRoots) {
        if (p.compare(0, r.size(), r) == 0) {
          res = p.substr(r.size());
          break;
        }
      }
    }
    fileCache[f] = res;
    return res;
  }
  unsigned lineOf(SourceLocation l) { return l.isValid() ? sm.getExpansionLineNumber(l) : 0; }

  string typeStr(QualType t) {
    if (t.isNull()) return "";
    QualType c = t.getCanonicalType();
    auto it = typeCache.find(c.getAsOpaquePtr());
    if (it != typeCache.end()) return it->second;
    string s = c.getAsString(pp);
    typeCache[c.getAsOpaquePtr()] = s;
    return s;
  }

  string qname(const NamedDecl* d) {
    string s;
    llvm::raw_string_ostream os(s);
    d->printQualifiedName(os, pp);
    if (const auto* f = dyn_cast<FunctionDecl>(d)) {
      if (const auto* args = f->getTemplateSpecializationArgs()) {
        printTemplateArgumentList(os, args->asArray(), pp);
      }
    } else if (const auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(d)) {
      printTemplateArgumentList(os, sp->getTemplateArgs().asArray(), pp);
    }
    os.flush();
    return s;
  }

  std::unordered_map<const FunctionDecl*, string> fkCache;
  string fkey(const FunctionDecl* f) {
    f = f->getCanonicalDecl();
    auto it = fkCache.find(f);
    if (it != fkCache.end()) return it->second;
    string k;
    const auto* md = dyn_cast<CXXMethodDecl>(f);
    if (md && md->getParent()->isLambda()) {
      SourceLocation l = sm.getExpansionLoc(md->getParent()->getBeginLoc());
      k = "lambda@" + fileOf(l) + ":" + std::to_string(lineOf(l)) + ":" +
          std::to_string(sm.getExpansionColumnNumber(l));
      // enclosing function instantiation disambiguates
      if (const auto* ef = dyn_cast_or_null<FunctionDecl>(md->getParent()->getParentFunctionOrMethod())) {
        k += "<" + fkey(ef) + ">";
      }
      if (!md->isOverloadedOperator()) k += "::" + md->getNameAsString();
    } else {
      k = qname(f);
      if (md && md->getParent()->isLocalClass()) {
        SourceLocation l = sm.getExpansionLoc(md->getParent()->getBeginLoc());
        k += "@" + fileOf(l) + ":" + std::to_string(lineOf(l));
        if (const auto* ef = dyn_cast_or_null<FunctionDecl>(md->getParent()->getParentFunctionOrMethod())) {
          k += "<" + fkey(ef) + ">";
        }
      }
    }
    k += "(";
    bool first = true;
    for (const auto* p : f->parameters()) {
      if (!first) k += ",";
      first = false;
      k += typeStr(p->getType());
    }
    k += f->isVariadic() ? ",...)" : ")";
    if (md && md->isConst()) k += "c";
    if (!f->isExternallyVisible() && !(md && md->getParent()->isLambda())) {
      string fl = fileOf(f->getLocation());
      if (!fl.empty()) k += "@" + fl;
    }
    fkCache[f] = k;
    return k;
  }

  // ---------------------------------------------------------------- function bodies
  struct Fn {
    std::map<string, int> types;
    std::vector<string> typeList;
    std::unordered_map<const Stmt*, int> ids;
    std::unordered_map<const Decl*, int> vars;
    std::set<string> callees;
    std::ostringstream os;
    int next = 0;
    const Decl* owner = nullptr;
  };
  Fn* fn = nullptr;

  int ty(QualType t) {
    string s = typeStr(t);
    auto it = fn->types.find(s);
    if (it != fn->types.end()) return it->second;
    int i = fn->typeList.size();
    fn->types[s] = i;
    fn->typeList.push_back(s);
    return i;
  }
  int varId(const Decl* d) {
    d = d->getCanonicalDecl();
    auto it = fn->vars.find(d);
    if (it != fn->vars.end()) return it->second;
    int i = fn->vars.size();
    fn->vars[d] = i;
    return i;
  }
  bool isGlobalVar(const VarDecl* v) { return v->hasGlobalStorage() && !v->isStaticLocal(); }

  string refExtra(const ValueDecl* d) {
    // [kind, name, id-or-qualified-name]
    if (const auto* p = dyn_cast<ParmVarDecl>(d)) {
      return "[\"p\"," + js(p->getNameAsString()) + "," + std::to_string(varId(p)) + "]";
    }
    if (const auto* v = dyn_cast<VarDecl>(d)) {
      if (isGlobalVar(v)) return "[\"g\"," + js(v->getNameAsString()) + "," + js(qname(v)) + "]";
      return string(v->isStaticLocal() ? "[\"s\"," : "[\"v\",") + js(v->getNameAsString()) + "," +
             std::to_string(varId(v)) + "]";
    }
    if (const auto* e = dyn_cast<EnumConstantDecl>(d)) {
      llvm::SmallString<16> v;
      e->getInitVal().toString(v, 10);
      return "[\"e\"," + js(e->getNameAsString()) + "," + js(qname(e)) + "," + v.str().str() + "]";
    }
    if (const auto* f = dyn_cast<FunctionDecl>(d)) {
      string k = fkey(f);
      fn->callees.insert(k);
      return "[\"f\"," + js(f->getNameAsString()) + "," + js(k) + "]";
    }
    if (const auto* f = dyn_cast<FieldDecl>(d)) {
      return "[\"m\"," + js(f->getNameAsString()) + "," + js(qname(f)) + "]";
    }
    return "[\"?\"," + js(d->getNameAsString()) + "," + js(qname(d)) + "]";
  }

  string calleeExtra(const FunctionDecl* f, bool virt) {
    string k = fkey(f);
    fn->callees.insert(k);
    return "[" + js(k) + "," + (virt ? "1" : "0") + "," + js(qname(f)) + "]";
  }

  void open(const char* kind, const Stmt* s, const string& extra, QualType t = QualType()) {
    int id = fn->next++;
    fn->ids[s] = id;
    fn->os << "[\"" << kind << "\"," << lineOf(s->getBeginLoc()) << "," << (t.isNull() ? -1 : ty(t)) << ","
           << (extra.empty() ? "0" : extra) << ",[";
  }
  void close() { fn->os << "]]"; }
  void kids(std::initializer_list<const Stmt*> l) {
    bool first = true;
    for (const auto* s : l) {
      if (!first) fn->os << ",";
      first = false;
      emit(s);
    }
  }
  template <class It>
  void kidsR(It b, It e, bool first = true) {
    for (; b != e; ++b) {
      if (!first) fn->os << ",";
      first = false;
      emit(*b);
    }
  }
  string constVal(const Expr* e) {
    if (e == nullptr || e->isValueDependent() || !e->getType()->isIntegralOrEnumerationType()) return "null";
    Expr::EvalResult r;
    if (!e->EvaluateAsInt(r, ctx, Expr::SE_NoSideEffects)) return "null";
    llvm::SmallString<32> v;
    r.Val.getInt().toString(v, 10);
    return v.str().str();
  }

  void emitVar(const VarDecl* v) {
    // pseudo node for a declared variable
    int id = fn->next++;
    fn->os << "[\"var\"," << lineOf(v->getLocation()) << "," << ty(v->getType()) << ",["
           << js(v->getNameAsString()) << "," << varId(v) << "," << (v->isStaticLocal() ? 1 : 0) << "],[";
    if (v->getInit()) emit(v->getInit());
    fn->os << "]]";
    (void)id;
  }

  void emit(const Stmt* s) {
    if (s == nullptr) {
      fn->next++;
      fn->os << "[\"null\",0,-1,0,[]]";
      return;
    }
    // transparent wrappers
    auto pass = [&](const Stmt* sub) {
      int id = fn->next;
      emit(sub);
      fn->ids[s] = id;
    };
    switch (s->getStmtClass()) {
      case Stmt::ParenExprClass: return pass(cast<ParenExpr>(s)->getSubExpr());
      case Stmt::ExprWithCleanupsClass: return pass(cast<ExprWithCleanups>(s)->getSubExpr());
      case Stmt::MaterializeTemporaryExprClass:
        return pass(cast<MaterializeTemporaryExpr>(s)->getSubExpr());
      case Stmt::CXXBindTemporaryExprClass: return pass(cast<CXXBindTemporaryExpr>(s)->getSubExpr());
      case Stmt::ConstantExprClass: return pass(cast<ConstantExpr>(s)->getSubExpr());
      case Stmt::SubstNonTypeTemplateParmExprClass:
        return pass(cast<SubstNonTypeTemplateParmExpr>(s)->getReplacement());
      case Stmt::CXXDefaultInitExprClass: {
        return pass(cast<CXXDefaultInitExpr>(s)->getExpr());
      }
      case Stmt::CXXStdInitializerListExprClass:
        return pass(cast<CXXStdInitializerListExpr>(s)->getSubExpr());
      case Stmt::OpaqueValueExprClass:
        if (cast<OpaqueValueExpr>(s)->getSourceExpr()) return pass(cast<OpaqueValueExpr>(s)->getSourceExpr());
        break;
      default: break;
    }
    if (const auto* a = dyn_cast<AttributedStmt>(s)) return pass(a->getSubStmt());
    if (const auto* e = dyn_cast<ImplicitCastExpr>(s)) {
      switch (e->getCastKind()) {
        case CK_IntegralCast:
        case CK_FloatingToIntegral:
        case CK_IntegralToFloating:
        case CK_FloatingCast:
        case CK_PointerToBoolean:
        case CK_IntegralToBoolean:
        case CK_BitCast:
        case CK_NullToPointer:
          break;
        default: return pass(e->getSubExpr());
      }
      open("icast", s, string("[\"") + e->getCastKindName() + "\"]", e->getType());
      kids({e->getSubExpr()});
      return close();
    }
    if (const auto* e = dyn_cast<CompoundStmt>(s)) {
      open("{", s, "");
      kidsR(e->body_begin(), e->body_end());
      return close();
    }
    if (const auto* e = dyn_cast<DeclStmt>(s)) {
      open("decl", s, "");
      bool first = true;
      for (const auto* d : e->decls()) {
        if (const auto* v = dyn_cast<VarDecl>(d)) {
          if (!first) fn->os << ",";
          first = false;
          emitVar(v);
        }
      }
      return close();
    }
    if (const auto* e = dyn_cast<DeclRefExpr>(s)) {
      open("ref", s, refExtra(e->getDecl()), e->getType());
      return close();
    }
    if (const auto* e = dyn_cast<MemberExpr>(s)) {
      const ValueDecl* d = e->getMemberDecl();
      if (const auto* f = dyn_cast<FunctionDecl>(d)) {
        open("mref", s, calleeExtra(f, false), e->getType());
      } else if (const auto* v = dyn_cast<VarDecl>(d)) {
        open("ref", s, refExtra(v), e->getType());
      } else {
        open("mem", s,
             "[" + js(d->getNameAsString()) + "," + js(qname(d)) + "," + (e->isArrow() ? "1" : "0") + "]",
             e->getType());
      }
      kids({e->getBase()});
      return close();
    }
    if (isa<CXXThisExpr>(s)) {
      open("this", s, "", cast<Expr>(s)->getType());
      return close();
    }
    if (const auto* e = dyn_cast<CXXMemberCallExpr>(s)) {
      const auto* md = e->getMethodDecl();
      const auto* me = dyn_cast<MemberExpr>(e->getCallee()->IgnoreParens());
      if (md != nullptr && me != nullptr) {
        bool virt = md->isVirtual() && !me->hasQualifier();
        open("mcall", s, calleeExtra(md, virt), e->getType());
        emit(me->getBase());
        kidsR(e->arg_begin(), e->arg_end(), false);
        return close();
      }
      open("icall", s, "", e->getType());
      emit(e->getCallee());
      kidsR(e->arg_begin(), e->arg_end(), false);
      return close();
    }
    if (const auto* e = dyn_cast<CallExpr>(s)) {
      const FunctionDecl* f = e->getDirectCallee();
      if (f != nullptr) {
        bool isOp = isa<CXXOperatorCallExpr>(e);
        open(isOp ? "ocall" : "call", s, calleeExtra(f, false), e->getType());
        kidsR(e->arg_begin(), e->arg_end());
        return close();
      }
      open("icall", s, "", e->getType());
      emit(e->getCallee());
      kidsR(e->arg_begin(), e->arg_end(), false);
      return close();
    }
    if (const auto* e = dyn_cast<CXXConstructExpr>(s)) {
      if (e->isElidable() && e->getNumArgs() == 1) return pass(e->getArg(0));
      string cx = calleeExtra(e->getConstructor(), false);
      cx.insert(cx.size() - 1, e->requiresZeroInitialization() ? ",1" : ",0");
      open("ctor", s, cx, e->getType());
      kidsR(e->arg_begin(), e->arg_end());
      return close();
    }
    if (const auto* e = dyn_cast<CXXInheritedCtorInitExpr>(s)) {
      string cx = calleeExtra(e->getConstructor(), false);
      cx.insert(cx.size() - 1, ",0");
      open("ctor", s, cx, e->getType());
      return close();
    }
    if (const auto* e = dyn_cast<CXXDefaultArgExpr>(s)) {
      open("darg", s, "", e->getType());
      emit(e->getExpr());
      return close();
    }
    if (const auto* e = dyn_cast<CXXNewExpr>(s)) {
      string x = "[";
      x += e->getOperatorNew() ? js(fkey(e->getOperatorNew())) : "\"\"";
      x += string(",") + (e->isArray() ? "1" : "0") + "," + std::to_string(e->getNumPlacementArgs()) + "," + js(typeStr(e->getAllocatedType())) + "]";
      open("new", s, x, e->getType());
      bool first = true;
      for (unsigned i = 0; i < e->getNumPlacementArgs(); i++) {
        if (!first) fn->os << ",";
        first = false;
        emit(e->getPlacementArg(i));
      }
      if (e->getArraySize() && *e->getArraySize()) {
        if (!first) fn->os << ",";
        first = false;
        emit(*e->getArraySize());
      }
      if (e->getInitializer()) {
        if (!first) fn->os << ",";
        emit(e->getInitializer());
      }
      return close();
    }
    if (const auto* e = dyn_cast<CXXDeleteExpr>(s)) {
      open("delete", s, e->isArrayForm() ? "[1]" : "[0]", e->getArgument()->getType());
      kids({e->getArgument()});
      return close();
    }
    if (const auto* e = dyn_cast<BinaryOperator>(s)) {
      open("bin", s, "[" + js(e->getOpcodeStr()) + "]", e->getType());
      kids({e->getLHS(), e->getRHS()});
      return close();
    }
    if (const auto* e = dyn_cast<UnaryOperator>(s)) {
      string o = UnaryOperator::getOpcodeStr(e->getOpcode()).str();
      if (e->isPostfix()) o = "p" + o;
      open("un", s, "[" + js(o) + "]", e->getType());
      kids({e->getSubExpr()});
      return close();
    }
    if (const auto* e = dyn_cast<ConditionalOperator>(s)) {
      open("?:", s, "", e->getType());
      kids({e->getCond(), e->getTrueExpr(), e->getFalseExpr()});
      return close();
    }
    if (const auto* e = dyn_cast<IntegerLiteral>(s)) {
      llvm::SmallString<32> v;
      e->getValue().toString(v, 10, e->getType()->isSignedIntegerType());
      open("int", s, "[" + v.str().str() + "]", e->getType());
      return close();
    }
    if (const auto* e = dyn_cast<CharacterLiteral>(s)) {
      open("int", s, "[" + std::to_string(e->getValue()) + "]", e->getType());
      return close();
    }
    if (const auto* e = dyn_cast<CXXBoolLiteralExpr>(s)) {
      open("bool", s, e->getValue() ? "[1]" : "[0]", e->getType());
      return close();
    }
    if (isa<CXXNullPtrLiteralExpr>(s) || isa<GNUNullExpr>(s)) {
      open("nullptr", s, "", cast<Expr>(s)->getType());
      return close();
    }
    if (const auto* e = dyn_cast<FloatingLiteral>(s)) {
      llvm::SmallString<32> v;
      e->getValue().toString(v);
      open("float", s, "[" + js(v) + "]", e->getType());
      return close();
    }
    if (const auto* e = dyn_cast<clang::StringLiteral>(s)) {
      string b = e->getCharByteWidth() == 1 ? e->getString().str() : e->getBytes().str();
      open("str", s, "[" + js(b) + "]", e->getType());
      return close();
    }
    if (const auto* e = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
      open("sizeof", s, "[" + js(e->isArgumentType() ? typeStr(e->getArgumentType()) : typeStr(e->getArgumentExpr()->getType())) + "," + constVal(e) + "]", e->getType());
      return close();
    }
    if (const auto* e = dyn_cast<ExplicitCastExpr>(s)) {
      const char* k = isa<CXXDynamicCastExpr>(e)       ? "dyn"
                      : isa<CXXStaticCastExpr>(e)      ? "static"
                      : isa<CXXReinterpretCastExpr>(e) ? "reinterpret"
                      : isa<CXXConstCastExpr>(e)       ? "const"
                      : isa<CXXFunctionalCastExpr>(e)  ? "fun"
                                                       : "c";
      open("cast", s, string("[\"") + e->getCastKindName() + "\",\"" + k + "\"]", e->getType());
      kids({e->getSubExpr()});
      return close();
    }
    if (const auto* e = dyn_cast<InitListExpr>(s)) {
      if (const auto* sem = e->isSemanticForm() ? e : e->getSemanticForm()) e = sem;
      open("ilist", s, "", e->getType());
      kidsR(e->inits().begin(), e->inits().end());
      return close();
    }
    if (isa<ImplicitValueInitExpr>(s) || isa<CXXScalarValueInitExpr>(s)) {
      open("zero", s, "", cast<Expr>(s)->getType());
      return close();
    }
    if (const auto* e = dyn_cast<ArraySubscriptExpr>(s)) {
      open("idx", s, "", e->getType());
      kids({e->getBase(), e->getIdx()});
      return close();
    }
    if (const auto* e = dyn_cast<LambdaExpr>(s)) {
      string k = fkey(e->getCallOperator());
      fn->callees.insert(k);
      string x = "[" + js(k) + ",[";
      bool first = true;
      for (const auto& c : e->captures()) {
        if (!first) x += ",";
        first = false;
        if (c.capturesThis()) {
          x += "[\"this\",1]";
        } else if (c.capturesVariable()) {
          x += "[" + js(c.getCapturedVar()->getNameAsString()) + "," + (c.getCaptureKind() == LCK_ByRef ? "1" : "0") + "," + std::to_string(varId(c.getCapturedVar())) + "]";
        } else {
          x += "[\"?\",0]";
        }
      }
      x += "]]";
      open("lambda", s, x, e->getType());
      first = true;
      for (const auto* ci : e->capture_inits()) {
        if (!first) fn->os << ",";
        first = false;
        emit(ci);
      }
      return close();
    }
    if (const auto* e = dyn_cast<IfStmt>(s)) {
      open("if", s, "");
      // children: init/condvar?, cond, then, else
      kids({e->getInit(), e->getConditionVariableDeclStmt(), e->getCond(), e->getThen(), e->getElse()});
      return close();
    }
    if (const auto* e = dyn_cast<WhileStmt>(s)) {
      open("while", s, "");
      kids({e->getConditionVariableDeclStmt(), e->getCond(), e->getBody()});
      return close();
    }
    if (const auto* e = dyn_cast<DoStmt>(s)) {
      open("do", s, "");
      kids({e->getBody(), e->getCond()});
      return close();
    }
    if (const auto* e = dyn_cast<ForStmt>(s)) {
      open("for", s, "");
      kids({e->getInit(), e->getConditionVariableDeclStmt(), e->getCond(), e->getInc(), e->getBody()});
      return close();
    }
    if (const auto* e = dyn_cast<CXXForRangeStmt>(s)) {
      open("rfor", s, "");
      // range decl, begin, end, cond, inc, loopvar, body
      kids({e->getRangeStmt(), e->getBeginStmt(), e->getEndStmt(), e->getCond(), e->getInc(), e->getLoopVarStmt(), e->getBody()});
      return close();
    }
    if (const auto* e = dyn_cast<SwitchStmt>(s)) {
      open("switch", s, "");
      kids({e->getInit(), e->getConditionVariableDeclStmt(), e->getCond(), e->getBody()});
      return close();
    }
    if (const auto* e = dyn_cast<CaseStmt>(s)) {
      string name = "null";
      if (const auto* dr = dyn_cast<DeclRefExpr>(e->getLHS()->IgnoreParenImpCasts())) {
        name = js(qname(dr->getDecl()));
      } else if (const auto* ce = dyn_cast<ConstantExpr>(e->getLHS()->IgnoreImpCasts())) {
        if (const auto* dr = dyn_cast<DeclRefExpr>(ce->getSubExpr()->IgnoreParenImpCasts()))
          name = js(qname(dr->getDecl()));
      }
      open("case", s, "[" + constVal(e->getLHS()) + "," + name + "]");
      kids({e->getSubStmt()});
      return close();
    }
    if (const auto* e = dyn_cast<DefaultStmt>(s)) {
      open("default", s, "");
      kids({e->getSubStmt()});
      return close();
    }
    if (const auto* e = dyn_cast<ReturnStmt>(s)) {
      open("return", s, "");
      if (e->getRetValue()) emit(e->getRetValue());
      return close();
    }
    if (isa<BreakStmt>(s)) {
      open("break", s, "");
      return close();
    }
    if (isa<ContinueStmt>(s)) {
      open("continue", s, "");
      return close();
    }
    if (const auto* e = dyn_cast<GotoStmt>(s)) {
      open("goto", s, "[" + js(e->getLabel()->getName()) + "]");
      return close();
    }
    if (const auto* e = dyn_cast<LabelStmt>(s)) {
      open("label", s, "[" + js(e->getName()) + "]");
      kids({e->getSubStmt()});
      return close();
    }
    if (const auto* e = dyn_cast<CXXTryStmt>(s)) {
      open("try", s, "");
      emit(e->getTryBlock());
      for (unsigned i = 0; i < e->getNumHandlers(); i++) {
        fn->os << ",";
        emit(e->getHandler(i));
      }
      return close();
    }
    if (const auto* e = dyn_cast<CXXCatchStmt>(s)) {
      string x = "[" + (e->getExceptionDecl() ? js(typeStr(e->getCaughtType())) : string("\"...\"")) + "," +
                 (e->getExceptionDecl() ? js(e->getExceptionDecl()->getNameAsString()) + "," +
                                              std::to_string(varId(e->getExceptionDecl()))
                                        : string("\"\",-1")) +
                 "]";
      open("catch", s, x);
      kids({e->getHandlerBlock()});
      return close();
    }
    if (const auto* e = dyn_cast<CXXThrowExpr>(s)) {
      open("throw", s, "[" + js(e->getSubExpr() ? typeStr(e->getSubExpr()->getType()) : "") + "]");
      if (e->getSubExpr()) emit(e->getSubExpr());
      return close();
    }
    if (isa<NullStmt>(s)) {
      open("nop", s, "");
      return close();
    }
    // generic fallback
    {
      QualType t;
      if (const auto* e = dyn_cast<Expr>(s)) t = e->getType();
      open("x", s, "[" + js(s->getStmtClassName()) + "]", t);
      kidsR(s->child_begin(), s->child_end());
      return close();
    }
  }

  void emitFunction(const FunctionDecl* f) {
    string file = fileOf(f->getLocation());
    if (file.empty()) return;
    string key = fkey(f);
    if (!emitted.insert("F" + key).second) return;
    Fn F;
    fn = &F;
    F.owner = f;
    std::ostringstream head;
    std::string params = "[";
    for (const auto* p : f->parameters()) {
      if (params.size() > 1) params += ",";
      params += "[" + js(p->getNameAsString()) + "," + std::to_string(ty(p->getType())) + "," +
                std::to_string(varId(p)) + "," + (p->hasDefaultArg() ? "1" : "0") + "]";
    }
    params += "]";
    // initialisers
    std::ostringstream inits;
    F.os << "[\"fn\"," << lineOf(f->getBeginLoc()) << ",-1,0,[";
    F.next++;
    bool first = true;
    std::unordered_map<const CXXCtorInitializer*, int> initId;
    if (const auto* cd = dyn_cast<CXXConstructorDecl>(f)) {
      for (const auto* ci : cd->inits()) {
        if (!first) F.os << ",";
        first = false;
        int id = F.next++;
        initId[ci] = id;
        string nm = ci->isAnyMemberInitializer() ? js(qname(ci->getAnyMember()))
                    : ci->isDelegatingInitializer()
                        ? js("<delegate>")
                        : js("<base>" + typeStr(QualType(ci->getBaseClass(), 0)));
        F.os << "[\"init\"," << lineOf(ci->getSourceLocation()) << ",-1,[" << nm << ","
             << (ci->isWritten() ? 1 : 0) << "],[";
        emit(ci->getInit());
        F.os << "]]";
      }
    }
    if (!first) F.os << ",";
    emit(f->getBody());
    F.os << "]]";
    // CFG
    string cfgs = "null";
    CFG::BuildOptions bo;
    bo.AddImplicitDtors = true;
    bo.AddInitializers = true;
    bo.AddTemporaryDtors = false;
    bo.AddEHEdges = false;
    bo.setAllAlwaysAdd();
    std::unique_ptr<CFG> cfg = CFG::buildCFG(f, f->getBody(), &ctx, bo);
    if (cfg) {
      std::ostringstream c;
      c << "[" << cfg->getEntry().getBlockID() << "," << cfg->getExit().getBlockID() << ",[";
      bool fb = true;
      for (const CFGBlock* b : *cfg) {
        if (!fb) c << ",";
        fb = false;
        c << "[" << b->getBlockID() << ",[";
        bool fe = true;
        for (const auto& el : *b) {
          if (auto st = el.getAs<CFGStmt>()) {
            auto it = F.ids.find(st->getStmt());
            int id;
            if (it == F.ids.end()) {
              // synthesized DeclStmt: map through the variable's initialiser
              if (const auto* ds = dyn_cast<DeclStmt>(st->getStmt())) {
                if (ds->isSingleDecl()) {
                  if (const auto* v = dyn_cast<VarDecl>(ds->getSingleDecl())) {
                    if (!fe) c << ",";
                    fe = false;
                    c << "[\"V\"," << varId(v) << "]";
                  }
                }
              }
              continue;
            }
            id = it->second;
            if (!fe) c << ",";
            fe = false;
            c << id;
          } else if (auto in = el.getAs<CFGInitializer>()) {
            auto it = initId.find(in->getInitializer());
            if (it != initId.end()) {
              if (!fe) c << ",";
              fe = false;
              c << it->second;
            }
          } else if (auto ad = el.getAs<CFGAutomaticObjDtor>()) {
            if (!fe) c << ",";
            fe = false;
            c << "[\"D\"," << varId(ad->getVarDecl()) << "," << js(typeStr(ad->getVarDecl()->getType())) << "]";
          } else if (auto dd = el.getAs<CFGDeleteDtor>()) {
            (void)dd;
          }
        }
        c << "],";
        const Stmt* t = b->getTerminatorStmt();
        if (t != nullptr) {
          const Stmt* tc = b->getTerminatorCondition();
          auto ti = F.ids.find(t);
          int cid = -1;
          if (tc != nullptr) {
            auto ci = F.ids.find(tc);
            if (ci != F.ids.end()) cid = ci->second;
          }
          c << "[" << js(t->getStmtClassName()) << "," << (ti == F.ids.end() ? -1 : ti->second) << "," << cid << "]";
        } else {
          c << "0";
        }
        c << ",[";
        bool fs = true;
        for (const auto& su : b->succs()) {
          if (!fs) c << ",";
          fs = false;
          if (su.getReachableBlock()) {
            c << su.getReachableBlock()->getBlockID();
          } else {
            c << "-1";
          }
        }
        c << "],";
        // label: case / default / catch
        const Stmt* l = b->getLabel();
        if (l != nullptr) {
          auto li = F.ids.find(l);
          c << (li == F.ids.end() ? -1 : li->second);
        } else {
          c << "-1";
        }
        c << "," << (b->hasNoReturnElement() ? 1 : 0) << "]";
      }
      c << "]]";
      cfgs = c.str();
    }
    head << "F\t" << key << "\t{\"q\":" << js(qname(f)) << ",\"n\":" << js(f->getNameAsString()) << ",\"f\":" << js(file)
         << ",\"l\":" << lineOf(f->getBeginLoc()) << ",\"e\":" << lineOf(f->getEndLoc());
    if (const auto* md = dyn_cast<CXXMethodDecl>(f)) {
      head << ",\"cls\":" << js(qname(md->getParent()));
      if (md->isStatic()) head << ",\"static\":1";
      if (md->isVirtual()) head << ",\"virt\":1";
      if (md->getParent()->isLambda()) head << ",\"lambda\":1";
      if (md->size_overridden_methods() > 0) {
        head << ",\"ov\":[";
        bool fo = true;
        for (const auto* o : md->overridden_methods()) {
          if (!fo) head << ",";
          fo = false;
          head << js(fkey(o));
        }
        head << "]";
      }
    }
    const DeclContext* pf = f->getParentFunctionOrMethod();
    if (const auto* md = dyn_cast<CXXMethodDecl>(f)) {
      if (pf == nullptr) pf = md->getParent()->getParentFunctionOrMethod();
    }
    if (const auto* pfd = dyn_cast_or_null<FunctionDecl>(pf)) head << ",\"pf\":" << js(fkey(pfd));
    head << ",\"k\":\""
         << (isa<CXXConstructorDecl>(f) ? "ctor" : isa<CXXDestructorDecl>(f) ? "dtor" : isa<CXXConversionDecl>(f) ? "conv" : isa<CXXMethodDecl>(f) ? "m" : "f")
         << "\"";
    if (const auto* fpt = f->getType()->getAs<FunctionProtoType>()) {
      if (fpt->isNothrow()) head << ",\"nothrow\":1";
    }
    if (!f->isExternallyVisible()) head << ",\"int\":1";
    if (f->isDefaulted()) head << ",\"defaulted\":1";
    int rt = ty(f->getReturnType());
    if (const auto* pat = f->getTemplateInstantiationPattern()) {
      (void)pat;
      head << ",\"ti\":1";
    }
    head << ",\"cal\":[";
    bool fc = true;
    for (auto& c : F.callees) {
      if (!fc) head << ",";
      fc = false;
      head << js(c);
    }
    head << "]}";
    (*gOut) << head.str() << "\t{\"p\":" << params << ",\"rt\":" << rt << ",\"b\":" << F.os.str() << ",\"cfg\":" << cfgs
            << ",\"t\":[";
    for (size_t i = 0; i < F.typeList.size(); i++) {
      if (i) (*gOut) << ",";
      (*gOut) << js(F.typeList[i]);
    }
    (*gOut) << "],\"v\":{";
    bool fv = true;
    for (auto& v : F.vars) {
      if (!fv) (*gOut) << ",";
      fv = false;
      const auto* nd = dyn_cast<ValueDecl>(v.first);
      (*gOut) << "\"" << v.second << "\":[" << js(nd ? nd->getNameAsString() : "") << "," << js(nd ? typeStr(nd->getType()) : "") << "]";
    }
    (*gOut) << "}}\n";
    fn = nullptr;
  }

  bool VisitFunctionDecl(FunctionDecl* f) {
    if (!f->isThisDeclarationADefinition()) return true;
    if (f->isDependentContext()) return true;
    if (!f->getBody()) return true;
    emitFunction(f);
    return true;
  }

  bool VisitLambdaExpr(LambdaExpr* e) {
    // RecursiveASTVisitor does not visit the call operator as a decl
    auto* f = e->getCallOperator();
    if (f && !f->isDependentContext() && f->getBody()) emitFunction(f);
    return true;
  }

  bool VisitCXXRecordDecl(CXXRecordDecl* r) {
    if (!r->isThisDeclarationADefinition() || r->isLambda()) return true;
    bool dep = r->isDependentContext();
    string file = fileOf(r->getLocation());
    if (file.empty()) return true;
    string q = qname(r);
    if (!emitted.insert("C" + q).second) return true;
    std::ostringstream o;
    o << "C\t" << q << "\t{\"q\":" << js(q) << ",\"f\":" << js(file) << ",\"l\":" << lineOf(r->getBeginLoc())
      << ",\"e\":" << lineOf(r->getEndLoc()) << (dep ? ",\"dep\":1" : "") << (r->isUnion() ? ",\"union\":1" : "") << ",\"bases\":[";
    bool fi = true;
    for (const auto& b : r->bases()) {
      if (!fi) o << ",";
      fi = false;
      o << js(typeStr(b.getType()));
    }
    o << "]";
    if (!dep && !r->isInvalidDecl()) o << ",\"size\":" << ctx.getASTRecordLayout(r).getSize().getQuantity();
    o << ",\"fields\":[";
    fi = true;
    for (const auto* f : r->fields()) {
      if (!fi) o << ",";
      fi = false;
      o << "[" << js(f->getNameAsString()) << "," << js(typeStr(f->getType())) << "," << lineOf(f->getLocation())
        << "," << (f->hasInClassInitializer() ? 1 : 0) << ","
        << (f->isBitField() && !f->getBitWidth()->isValueDependent() ? (int)f->getBitWidthValue(ctx) : -1) << ","
        << (int)f->getAccess() << "," << js(f->getType().getAsString(pp2())) << "]";
    }
    o << "],\"statics\":[";
    fi = true;
    for (const auto* d : r->decls()) {
      if (const auto* v = dyn_cast<VarDecl>(d)) {
        if (!fi) o << ",";
        fi = false;
        string cv = "null";
        if (!dep && v->getType()->isIntegralOrEnumerationType() && v->getInit() && !v->getInit()->isValueDependent()) {
          Expr::EvalResult er;
          if (v->getInit()->EvaluateAsInt(er, ctx)) { llvm::SmallString<24> sv; er.Val.getInt().toString(sv, 10); cv = string(sv); }
        }
        o << "[" << js(v->getNameAsString()) << "," << js(typeStr(v->getType())) << "," << cv << "]";
      }
    }
    o << "],\"methods\":[";
    fi = true;
    for (const auto* m : r->methods()) {
      if (m->isImplicit()) continue;
      if (!fi) o << ",";
      fi = false;
      o << "[" << js(dep ? m->getNameAsString() : fkey(m)) << "," << js(m->getNameAsString()) << "," << (m->isVirtual() ? 1 : 0) << ","
        << (m->isPureVirtual() ? 1 : 0) << "," << (int)m->getAccess() << "," << (m->isDeleted() ? 1 : 0) << "]";
    }
    o << "]}";
    (*gOut) << o.str() << "\n";
    return true;
  }
  PrintingPolicy pp2() {
    PrintingPolicy p(pp);
    p.PrintCanonicalTypes = false;
    return p;
  }

  bool VisitEnumDecl(EnumDecl* e) {
    if (!e->isThisDeclarationADefinition()) return true;
    string file = fileOf(e->getLocation());
    if (file.empty()) return true;
    string q = qname(e);
    if (e->getName().empty()) q += "@" + file + ":" + std::to_string(lineOf(e->getLocation()));
    if (!emitted.insert("E" + q).second) return true;
    std::ostringstream o;
    o << "E\t" << q << "\t{\"q\":" << js(q) << ",\"f\":" << js(file) << ",\"l\":" << lineOf(e->getBeginLoc())
      << ",\"vals\":[";
    bool fi = true;
    for (const auto* c : e->enumerators()) {
      if (!fi) o << ",";
      fi = false;
      llvm::SmallString<16> v;
      c->getInitVal().toString(v, 10);
      o << "[" << js(qname(c)) << "," << v.str().str() << "]";
    }
    o << "]}";
    (*gOut) << o.str() << "\n";
    return true;
  }

  bool VisitVarDecl(VarDecl* v) {
    if (!v->hasGlobalStorage() || isa<ParmVarDecl>(v) || v->isStaticLocal()) return true;
    if (v->getDeclContext()->isDependentContext()) return true;
    const VarDecl* def = v;
    if (v->isThisDeclarationADefinition() == VarDecl::DeclarationOnly && !v->hasInit()) return true;
    string file = fileOf(def->getLocation());
    if (file.empty()) return true;
    string q = qname(def);
    if (!emitted.insert("V" + q + file).second) return true;
    Fn F;
    fn = &F;
    F.owner = v;
    F.os << "[\"fn\"," << lineOf(v->getBeginLoc()) << ",-1,0,[";
    F.next++;
    if (v->getInit()) emit(v->getInit());
    F.os << "]]";
    (*gOut) << "V\t" << q << "\t{\"q\":" << js(q) << ",\"f\":" << js(file) << ",\"l\":" << lineOf(v->getBeginLoc())
            << ",\"ty\":" << js(typeStr(v->getType())) << ",\"const\":" << (v->getType().isConstQualified() ? 1 : 0) << ",\"cal\":[";
    bool fc = true;
    for (auto& c : F.callees) {
      if (!fc) (*gOut) << ",";
      fc = false;
      (*gOut) << js(c);
    }
    (*gOut) << "]}\t{\"b\":" << F.os.str() << ",\"t\":[";
    for (size_t i = 0; i < F.typeList.size(); i++) {
      if (i) (*gOut) << ",";
      (*gOut) << js(F.typeList[i]);
    }
    (*gOut) << "]}\n";
    fn = nullptr;
    return true;
  }
};

class Consumer : public ASTConsumer {
  void HandleTranslationUnit(ASTContext& c) override {
    Extractor e(c);
    e.TraverseDecl(c.getTranslationUnitDecl());
    // dependency list
    SourceManager& sm = c.getSourceManager();
    std::set<string> deps;
    for (auto it = sm.fileinfo_begin(); it != sm.fileinfo_end(); ++it) {
      llvm::StringRef rp = it->first.getFileEntry().tryGetRealPathName();
      string p = rp.empty() ? it->first.getName().str() : rp.str();
      for (auto& r : gRoots) {
        if (p.compare(0, r.size(), r) == 0) deps.insert(p);
      }
    }
    for (auto& d : deps) (*gOut) << "D\t" << d << "\n";
  }
};
class Action : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, llvm::StringRef) override {
    if (ci.getDiagnostics().hasFatalErrorOccurred()) return nullptr;
    return std::make_unique<Consumer>();
  }
};

// usage: mznsa OUT ROOT1,ROOT2 SOURCE -- compiler-args...
int main(int argc, char** argv) {
  if (argc < 5) {
    llvm::errs() << "usage: mznsa OUT ROOT[,ROOT..] SOURCE -- ARGS\n";
    return 2;
  }
  std::stringstream rs(argv[2]);
  string r;
  while (std::getline(rs, r, ',')) gRoots.push_back(r);
  string src = argv[3];
  std::vector<string> args;
  for (int i = 5; i < argc; i++) args.push_back(argv[i]);
  std::ofstream out(argv[1]);
  gOut = &out;
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool tool(db, {src});
  tool.setPrintErrorMessage(true);
  int rc = tool.run(tooling::newFrontendActionFactory<Action>().get());
  out.close();
  return rc;
}
