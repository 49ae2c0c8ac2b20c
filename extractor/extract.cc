// C++ -> JSON extractor: dumps, for one translation unit, the type-checked AST
// of every function defined in the given source prefix (implicit template
// instantiations included) plus class layouts, as consumed by /verif/cv.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/RecordLayout.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string Prefix;

struct Ext {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  Array Types;
  std::map<std::string, int> TypeIdx;
  std::map<const Decl *, int> VarIds;
  Object Funcs, Classes, Globals, Enums;
  std::set<const Decl *> doneF, doneC, doneE;
  std::vector<const FunctionDecl *> work;

  Ext(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.Bool = true;
    PP.PrintCanonicalTypes = true; PP.SuppressUnwrittenScope = false;
    PP.TerseOutput = true; PP.SuppressDefaultTemplateArgs = true;
  }
  int varId(const Decl *d) {
    d = d->getCanonicalDecl();
    auto it = VarIds.find(d);
    if (it != VarIds.end()) return it->second;
    int n = VarIds.size() + 1;
    VarIds[d] = n; return n;
  }
  bool inPrefix(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return false;
    StringRef f = SM.getFilename(L);
    llvm::SmallString<256> p(f);
    if (const FileEntry *fe = SM.getFileEntryForID(SM.getFileID(L))) {
      StringRef rp = fe->tryGetRealPathName();
      if (!rp.empty()) p = rp;
    }
    return StringRef(p).starts_with(Prefix);
  }
  std::string tstr(QualType t) { return t.getCanonicalType().getUnqualifiedType().getAsString(PP); }
  std::string rname(const RecordDecl *r) {
    return C.getTypeDeclType(r).getCanonicalType().getAsString(PP);
  }
  int type(QualType q) {
    QualType t = q.getCanonicalType();
    std::string key = t.getAsString(PP);
    if (t.isConstQualified()) key = "c|" + key;
    auto it = TypeIdx.find(key);
    if (it != TypeIdx.end()) return it->second;
    int idx = Types.size();
    TypeIdx[key] = idx;
    Types.push_back(nullptr);
    Object o;
    o["s"] = t.getAsString(PP);
    if (t.isConstQualified()) o["c"] = true;
    const clang::Type *T = t.getTypePtr();
    if (auto *B = dyn_cast<BuiltinType>(T)) {
      o["k"] = B->isBooleanType() ? "bool" : B->isFloatingPoint() ? "float" : B->isVoidType() ? "void" : B->isInteger() ? "int" : "builtin";
      if (B->isInteger() || B->isFloatingPoint()) { o["bits"] = (int64_t)C.getTypeSize(t); }
      if (B->isInteger()) o["sg"] = B->isSignedInteger();
    } else if (auto *P = dyn_cast<PointerType>(T)) {
      o["k"] = "ptr"; o["t"] = type(P->getPointeeType());
    } else if (auto *R = dyn_cast<ReferenceType>(T)) {
      o["k"] = "ref"; o["t"] = type(R->getPointeeType());
    } else if (auto *R = dyn_cast<RecordType>(T)) {
      o["k"] = "rec"; o["n"] = rname(R->getDecl());
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R->getDecl())) {
        o["tn"] = S->getQualifiedNameAsString();
        Array a;
        for (auto &A : S->getTemplateArgs().asArray()) {
          if (A.getKind() == TemplateArgument::Type) a.push_back(type(A.getAsType()));
          else a.push_back(nullptr);
        }
        o["a"] = std::move(a);
      } else o["tn"] = R->getDecl()->getQualifiedNameAsString();
      cls(dyn_cast<CXXRecordDecl>(R->getDecl()));
    } else if (auto *E = dyn_cast<EnumType>(T)) {
      o["k"] = "enum"; o["n"] = E->getDecl()->getQualifiedNameAsString(); enm(E->getDecl());
    } else if (auto *A = dyn_cast<ConstantArrayType>(T)) {
      o["k"] = "arr"; o["t"] = type(A->getElementType()); o["n"] = (int64_t)A->getSize().getZExtValue();
    } else if (auto *A = dyn_cast<ArrayType>(T)) {
      o["k"] = "arr"; o["t"] = type(A->getElementType());
    } else if (T->isFunctionType()) o["k"] = "fn";
    else if (T->isMemberPointerType()) o["k"] = "memptr";
    else o["k"] = "other";
    Types[idx] = std::move(o);
    return idx;
  }
  void enm(const EnumDecl *E) {
    if (!doneE.insert(E->getCanonicalDecl()).second) return;
    Object o;
    for (auto *c : E->enumerators()) o[c->getNameAsString()] = (int64_t)c->getInitVal().getExtValue();
    Enums[E->getQualifiedNameAsString()] = std::move(o);
  }
  void cls(const CXXRecordDecl *R) {
    if (!R) return;
    R = R->getDefinition();
    if (!R || !doneC.insert(R->getCanonicalDecl()).second) return;
    if (R->isDependentType()) return;
    Object o;
    std::string n = rname(R);
    o["in"] = inPrefix(R->getLocation());
    if (inPrefix(R->getLocation())) {
      o["poly"] = R->isPolymorphic();
      o["abs"] = R->isAbstract();
      Array b;
      for (auto &B : R->bases()) {
        b.push_back(type(B.getType()));
      }
      o["b"] = std::move(b);
      Array f;
      for (auto *F : R->fields())
        f.push_back(Object{{"n", F->getNameAsString()}, {"t", type(F->getType())}});
      o["f"] = std::move(f);
      Array m;
      for (auto *M : R->methods()) {
        if (M->isVirtual() && !isa<CXXDestructorDecl>(M)) {
          Array ov;
          for (auto *O : M->overridden_methods()) ov.push_back(fkey(O));
          m.push_back(Object{{"k", fkey(M)}, {"n", M->getNameAsString()}, {"pure", M->isPureVirtual()}, {"ov", std::move(ov)}});
        }
        queue(M);
      }
      o["m"] = std::move(m);
      if (auto *D = R->getDestructor()) queue(D);
    }
    Classes[n] = std::move(o);
  }
  std::string fname(const FunctionDecl *F) {
    std::string n;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) n = rname(M->getParent()) + "::";
    else {
      llvm::raw_string_ostream os(n);
      const DeclContext *dc = F->getDeclContext();
      std::vector<std::string> parts;
      while (dc && !dc->isTranslationUnit()) {
        if (auto *ND = dyn_cast<NamespaceDecl>(dc)) { if (!ND->isInline()) parts.push_back(ND->isAnonymousNamespace() ? "(anon)" : ND->getNameAsString()); }
        else if (auto *RD = dyn_cast<RecordDecl>(dc)) { parts.push_back(rname(RD)); break; }
        dc = dc->getParent();
      }
      for (auto it = parts.rbegin(); it != parts.rend(); ++it) os << *it << "::";
      os.flush();
    }
    n += F->getNameAsString();
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      n += "<";
      bool first = true;
      for (auto &A : TA->asArray()) {
        if (!first) n += ","; first = false;
        if (A.getKind() == TemplateArgument::Type) n += tstr(A.getAsType());
        else { std::string s; llvm::raw_string_ostream os(s); A.print(PP, os, true); n += os.str(); }
      }
      n += ">";
    }
    return n;
  }
  std::string fkey(const FunctionDecl *F) {
    std::string n = fname(F) + "(";
    bool first = true;
    for (auto *P : F->parameters()) {
      if (!first) n += ","; first = false;
      QualType t = P->getType().getCanonicalType();
      n += t.getUnqualifiedType().getAsString(PP);
    }
    n += ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->isConst()) n += " const";
    return n;
  }
  void queue(const FunctionDecl *F) {
    if (!F) return;
    if (F->isDependentContext()) return;
    const FunctionDecl *D = nullptr;
    bool def = F->hasBody(D);
    if (!def && !F->isImplicit() && !F->isDefaulted()) {
      // template instantiation whose body is available in the pattern is already instantiated when used
    }
    const FunctionDecl *K = F->getCanonicalDecl();
    if (!doneF.insert(K).second) return;
    work.push_back(F);
  }
  std::string macroOf(SourceLocation L) {
    // outermost macro name
    std::string last;
    while (L.isMacroID()) {
      StringRef n = Lexer::getImmediateMacroName(L, SM, C.getLangOpts());
      if (!n.empty()) last = n.str();
      L = SM.getImmediateMacroCallerLoc(L);
    }
    return last;
  }
  std::string macroChain(SourceLocation L) {
    std::string r;
    while (L.isMacroID()) {
      StringRef n = Lexer::getImmediateMacroName(L, SM, C.getLangOpts());
      if (!n.empty()) { if (!r.empty()) r = "<" + r; r = n.str() + r; }
      L = SM.getImmediateMacroCallerLoc(L);
    }
    return r;
  }
  int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }

  void doFunc(const FunctionDecl *F0) {
    const FunctionDecl *F = nullptr;
    bool has = F0->hasBody(F);
    if (!has) F = F0;
    bool in = inPrefix(F->getLocation());
    std::string key = fkey(F);
    if (Funcs.get(key)) { return; }
    Object o;
    o["n"] = fname(F);
    Array ps;
    for (auto *P : F->parameters()) {
      Object p{{"i", varId(P)}, {"n", P->getNameAsString()}, {"t", type(P->getType())}};
      ps.push_back(std::move(p));
    }
    o["p"] = std::move(ps);
    o["r"] = type(F->getReturnType());
    o["sn"] = F->getNameAsString();
    if (F->isImplicit()) o["imp"] = true;
    if (F->isDefaulted()) o["dft"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["c"] = rname(M->getParent());
      cls(M->getParent());
      if (M->isStatic()) o["st"] = true;
      if (M->isConst()) o["cn"] = true;
      if (M->isVirtual()) o["v"] = true;
      if (isa<CXXConstructorDecl>(M)) {
        o["ctor"] = true;
        if (cast<CXXConstructorDecl>(M)->isCopyOrMoveConstructor()) o["cpy"] = true;
      }
      if (isa<CXXDestructorDecl>(M)) o["dtor"] = true;
      if (isa<CXXConversionDecl>(M)) o["conv"] = true;
      if (M->isCopyAssignmentOperator() || M->isMoveAssignmentOperator()) o["casg"] = true;
    }
    if (in) {
      o["f"] = SM.getFilename(SM.getExpansionLoc(F->getLocation())).str();
      o["l"] = line(F->getBeginLoc());
      o["el"] = line(F->getEndLoc());
      if (has) {
        if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
          Array in;
          for (auto *I : CD->inits()) {
            Object i;
            if (I->isAnyMemberInitializer()) i["f"] = I->getAnyMember()->getNameAsString();
            else if (I->isBaseInitializer()) i["b"] = type(QualType(I->getBaseClass(), 0));
            else if (I->isDelegatingInitializer()) i["d"] = true;
            i["x"] = expr(I->getInit());
            in.push_back(std::move(i));
          }
          o["in"] = std::move(in);
        }
        o["b"] = stmt(F->getBody());
      }
    }
    Funcs[key] = std::move(o);
  }
  Value fnref(const FunctionDecl *F) {
    queue(F);
    return fkey(F);
  }
  Value args(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
    Array a; for (auto *x : r) a.push_back(expr(x)); return a;
  }
  Object mk(const char *k, const Expr *E) {
    Object o; o["e"] = k; o["t"] = type(E->getType());
    if (E->isGLValue()) o["lv"] = true;
    o["l"] = line(E->getBeginLoc());
    return o;
  }
  Value expr(const Expr *E0) {
    const Expr *E = E0;
    if (!E) return nullptr;
    while (true) {
      if (auto *x = dyn_cast<ParenExpr>(E)) E = x->getSubExpr();
      else if (auto *x = dyn_cast<FullExpr>(E)) E = x->getSubExpr();
      else if (auto *x = dyn_cast<CXXBindTemporaryExpr>(E)) E = x->getSubExpr();
      else if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = x->getReplacement();
      else if (auto *x = dyn_cast<CXXDefaultArgExpr>(E)) E = x->getExpr();
      else if (auto *x = dyn_cast<CXXDefaultInitExpr>(E)) E = x->getExpr();
      else if (auto *x = dyn_cast<CXXStdInitializerListExpr>(E)) E = x->getSubExpr();
      else break;
    }
    if (auto *x = dyn_cast<MaterializeTemporaryExpr>(E)) {
      Object o = mk("mat", E); o["x"] = expr(x->getSubExpr()); return o;
    }
    if (auto *x = dyn_cast<IntegerLiteral>(E)) {
      Object o = mk("int", E); llvm::SmallString<32> s; x->getValue().toString(s, 10, x->getType()->isSignedIntegerType()); o["v"] = s.str().str(); return o;
    }
    if (auto *x = dyn_cast<CharacterLiteral>(E)) { Object o = mk("int", E); o["v"] = std::to_string(x->getValue()); return o; }
    if (auto *x = dyn_cast<CXXBoolLiteralExpr>(E)) { Object o = mk("bool", E); o["v"] = x->getValue(); return o; }
    if (auto *x = dyn_cast<FloatingLiteral>(E)) {
      Object o = mk("flt", E); llvm::SmallString<64> s; x->getValue().toString(s, 40); o["v"] = s.str().str();
      double d = x->getValue().convertToDouble(); char buf[64]; snprintf(buf, 64, "%a", d); o["h"] = std::string(buf); return o;
    }
    if (auto *x = dyn_cast<StringLiteral>(E)) { Object o = mk("str", E); o["v"] = llvm::json::fixUTF8(x->getBytes()); return o; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return mk("null", E);
    if (isa<CXXThisExpr>(E)) return mk("this", E);
    if (auto *x = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = x->getDecl();
      Object o = mk("ref", E);
      o["n"] = D->getNameAsString();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { o["e"] = "int"; o["v"] = llvm::toString(EC->getInitVal(),10); o["en"] = EC->getQualifiedNameAsString(); return o; }
      if (auto *FD = dyn_cast<FunctionDecl>(D)) { o["e"] = "fn"; o["f"] = fnref(FD); return o; }
      if (auto *VD = dyn_cast<VarDecl>(D)) {
        o["i"] = varId(VD);
        if (VD->hasGlobalStorage() && !VD->isStaticLocal()) {
          o["e"] = "gref"; o["q"] = VD->getQualifiedNameAsString(); global(VD);
        } else if (VD->isStaticLocal()) { o["e"] = "sref"; o["q"] = VD->getQualifiedNameAsString(); o["dt"]=type(VD->getType()); if (VD->getInit() && inPrefix(VD->getLocation()) && VD->getType().isConstQualified()) o["ini"] = expr(VD->getInit()); }
        o["vt"] = type(VD->getType());
        return o;
      }
      o["k"] = "other"; return o;
    }
    if (auto *x = dyn_cast<MemberExpr>(E)) {
      if (auto *FD = dyn_cast<FieldDecl>(x->getMemberDecl())) {
        Object o = mk("mem", E); o["n"] = FD->getNameAsString(); o["o"] = expr(x->getBase()); o["ar"] = x->isArrow();
        o["ft"] = type(FD->getType());
        o["c"] = rname(FD->getParent()); cls(dyn_cast<CXXRecordDecl>(FD->getParent()));
        return o;
      }
      if (auto *VD = dyn_cast<VarDecl>(x->getMemberDecl())) {
        Object o = mk("gref", E); o["n"] = VD->getNameAsString(); o["i"] = varId(VD); o["q"] = VD->getQualifiedNameAsString(); o["vt"] = type(VD->getType()); global(VD); return o;
      }
      if (auto *EC = dyn_cast<EnumConstantDecl>(x->getMemberDecl())) { Object o = mk("int", E); o["v"] = llvm::toString(EC->getInitVal(),10); return o; }
      if (auto *FD = dyn_cast<FunctionDecl>(x->getMemberDecl())) { Object o = mk("fn", E); o["f"] = fnref(FD); return o; }
    }
    if (auto *x = dyn_cast<CXXOperatorCallExpr>(E)) {
      Object o = mk("call", E);
      const FunctionDecl *FD = x->getDirectCallee();
      if (FD) {
        o["op"] = getOperatorSpelling(x->getOperator());
        if (auto *M = dyn_cast<CXXMethodDecl>(FD); M && !M->isStatic()) {
          o["e"] = "mcall"; o["f"] = fnref(FD);
          o["o"] = expr(x->getArg(0));
          Array a; for (unsigned i = 1; i < x->getNumArgs(); i++) a.push_back(expr(x->getArg(i)));
          o["a"] = std::move(a);
          if (M->isVirtual()) o["v"] = true;
        } else { o["f"] = fnref(FD); o["a"] = args(x->arguments()); }
        return o;
      }
    }
    if (auto *x = dyn_cast<CXXMemberCallExpr>(E)) {
      Object o = mk("mcall", E);
      if (auto *M = x->getMethodDecl()) {
        auto *ME = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens());
        o["f"] = fnref(M);
        o["o"] = expr(x->getImplicitObjectArgument());
        if (ME && ME->isArrow()) o["ar"] = true;
        if (M->isVirtual() && !(ME && ME->hasQualifier())) o["v"] = true;
        o["a"] = args(x->arguments());
        return o;
      }
      o["e"] = "ucall"; o["x"] = expr(x->getCallee()); o["a"] = args(x->arguments()); return o;
    }
    if (auto *x = dyn_cast<CallExpr>(E)) {
      Object o = mk("call", E);
      if (auto *FD = x->getDirectCallee()) { o["f"] = fnref(FD); o["a"] = args(x->arguments()); return o; }
      o["e"] = "ucall"; o["x"] = expr(x->getCallee()); o["a"] = args(x->arguments()); return o;
    }
    if (auto *x = dyn_cast<CXXConstructExpr>(E)) {
      Object o = mk("ctor", E);
      o["f"] = fnref(x->getConstructor());
      o["a"] = args(x->arguments());
      if (x->getConstructor()->isCopyOrMoveConstructor()) o["cpy"] = true;
      if (x->isElidable()) o["el"] = true;
      return o;
    }
    if (auto *x = dyn_cast<CXXNewExpr>(E)) {
      Object o = mk("new", E);
      o["at"] = type(x->getAllocatedType());
      if (x->isArray()) o["arr"] = true;
      if (x->getInitializer()) o["x"] = expr(x->getInitializer());
      return o;
    }
    if (auto *x = dyn_cast<CXXDeleteExpr>(E)) { Object o = mk("del", E); o["x"] = expr(x->getArgument());
      if (auto *RD = x->getDestroyedType()->getAsCXXRecordDecl()) if (RD->hasDefinition()) if (auto *D = RD->getDestructor()) o["f"] = fnref(D);
      return o; }
    if (auto *x = dyn_cast<CastExpr>(E)) {
      CastKind k = x->getCastKind();
      if (k == CK_NoOp || k == CK_FunctionToPointerDecay || k == CK_ArrayToPointerDecay || k == CK_ConstructorConversion || k == CK_UserDefinedConversion || k == CK_BuiltinFnToFnPtr)
        return expr(x->getSubExpr());
      Object o = mk("cast", E); o["k"] = x->getCastKindName(); o["x"] = expr(x->getSubExpr());
      return o;
    }
    if (auto *x = dyn_cast<UnaryOperator>(E)) {
      Object o = mk("un", E); o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->isPostfix()) o["post"] = true;
      o["x"] = expr(x->getSubExpr()); return o;
    }
    if (auto *x = dyn_cast<CompoundAssignOperator>(E)) {
      Object o = mk("casg", E); o["op"] = BinaryOperator::getOpcodeStr(x->getOpcode()).drop_back(1).str();
      o["x"] = expr(x->getLHS()); o["y"] = expr(x->getRHS());
      o["ct"] = type(x->getComputationLHSType()); return o;
    }
    if (auto *x = dyn_cast<BinaryOperator>(E)) {
      Object o = mk(x->isAssignmentOp() ? "asg" : "bin", E); o["op"] = x->getOpcodeStr().str();
      o["x"] = expr(x->getLHS()); o["y"] = expr(x->getRHS()); return o;
    }
    if (auto *x = dyn_cast<ConditionalOperator>(E)) {
      Object o = mk("cond", E); o["x"] = expr(x->getCond()); o["y"] = expr(x->getTrueExpr()); o["z"] = expr(x->getFalseExpr()); return o;
    }
    if (auto *x = dyn_cast<ArraySubscriptExpr>(E)) {
      Object o = mk("idx", E); o["x"] = expr(x->getBase()); o["y"] = expr(x->getIdx()); return o;
    }
    if (auto *x = dyn_cast<CXXThrowExpr>(E)) { Object o = mk("throw", E); if (x->getSubExpr()) { o["tt"] = type(x->getSubExpr()->getType()); } return o; }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) return mk("zero", E);
    if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Object o = mk("int", E); Expr::EvalResult R; if (x->EvaluateAsInt(R, C)) o["v"] = llvm::toString(R.Val.getInt(),10); return o;
    }
    if (auto *x = dyn_cast<CXXTypeidExpr>(E)) { Object o = mk("typeid", E); if (x->isTypeOperand()) o["tt"] = type(x->getTypeOperand(C)); else o["x"] = expr(x->getExprOperand()); return o; }
    if (auto *x = dyn_cast<InitListExpr>(E)) { Object o = mk("list", E); Array a; for (auto *i : x->inits()) a.push_back(expr(i)); o["a"] = std::move(a); return o; }
    Object o = mk("unk", E); o["k"] = E->getStmtClassName(); return o;
  }
  void global(const VarDecl *VD) {
    std::string q = VD->getQualifiedNameAsString();
    if (Globals.get(q)) return;
    Globals[q] = Object{};
    Object o; o["t"] = type(VD->getType());
    const VarDecl *D = nullptr; const Expr *I = VD->getAnyInitializer(D);
    if (I && VD->getType().isConstQualified() && !I->isValueDependent()) {
      Expr::EvalResult R;
      if (I->EvaluateAsRValue(R, C)) {
        if (R.Val.isInt()) o["v"] = llvm::toString(R.Val.getInt(),10);
        else if (R.Val.isFloat()) { char buf[64]; snprintf(buf, 64, "%a", R.Val.getFloat().convertToDouble()); o["h"] = std::string(buf); }
      }
    }
    Globals[q] = std::move(o);
  }
  Object decl(const VarDecl *V) {
    Object o{{"i", varId(V)}, {"n", V->getNameAsString()}, {"t", type(V->getType())}};
    if (V->isStaticLocal()) { o["st"] = true; o["q"] = V->getQualifiedNameAsString(); }
    if (V->getInit()) o["x"] = expr(V->getInit());
    o["l"] = line(V->getLocation());
    return o;
  }
  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    Object o;
    o["l"] = line(S->getBeginLoc());
    if (S->getBeginLoc().isMacroID()) { std::string m = macroChain(S->getBeginLoc()); if (!m.empty()) o["m"] = m; }
    if (auto *E = dyn_cast<Expr>(S)) { o["s"] = "expr"; o["x"] = expr(E); return o; }
    if (auto *x = dyn_cast<CompoundStmt>(S)) { o["s"] = "blk"; Array a; for (auto *s : x->body()) a.push_back(stmt(s)); o["a"] = std::move(a); return o; }
    if (auto *x = dyn_cast<DeclStmt>(S)) {
      o["s"] = "decl"; Array a; for (auto *d : x->decls()) if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(decl(v)); o["a"] = std::move(a); return o; }
    if (auto *x = dyn_cast<IfStmt>(S)) {
      o["s"] = "if"; if (x->getConditionVariable()) o["cv"] = decl(x->getConditionVariable());
      o["c"] = expr(x->getCond()); o["a"] = stmt(x->getThen()); if (x->getElse()) o["b"] = stmt(x->getElse()); return o; }
    if (auto *x = dyn_cast<WhileStmt>(S)) { o["s"] = "while"; o["c"] = expr(x->getCond()); o["a"] = stmt(x->getBody()); o["el"]=line(x->getEndLoc()); return o; }
    if (auto *x = dyn_cast<DoStmt>(S)) { o["s"] = "do"; o["c"] = expr(x->getCond()); o["a"] = stmt(x->getBody()); return o; }
    if (auto *x = dyn_cast<ForStmt>(S)) {
      o["s"] = "for"; if (x->getInit()) o["i"] = stmt(x->getInit()); if (x->getCond()) o["c"] = expr(x->getCond());
      if (x->getInc()) o["n"] = expr(x->getInc()); o["a"] = stmt(x->getBody()); return o; }
    if (auto *x = dyn_cast<CXXForRangeStmt>(S)) {
      o["s"] = "rfor"; o["v"] = decl(x->getLoopVariable());
      o["r"] = stmt(x->getRangeStmt()); o["bg"] = stmt(x->getBeginStmt()); o["en"] = stmt(x->getEndStmt());
      o["c"] = expr(x->getCond()); o["n"] = expr(x->getInc()); o["a"] = stmt(x->getBody()); return o; }
    if (auto *x = dyn_cast<ReturnStmt>(S)) { o["s"] = "ret"; if (x->getRetValue()) o["x"] = expr(x->getRetValue()); return o; }
    if (isa<BreakStmt>(S)) { o["s"] = "break"; return o; }
    if (isa<ContinueStmt>(S)) { o["s"] = "cont"; return o; }
    if (isa<NullStmt>(S)) { o["s"] = "nop"; return o; }
    if (auto *x = dyn_cast<SwitchStmt>(S)) { o["s"] = "switch"; o["c"] = expr(x->getCond()); o["a"] = stmt(x->getBody()); return o; }
    if (auto *x = dyn_cast<CaseStmt>(S)) {
      o["s"] = "case"; Expr::EvalResult R; if (x->getLHS()->EvaluateAsInt(R, C)) o["v"] = llvm::toString(R.Val.getInt(),10);
      o["a"] = stmt(x->getSubStmt()); return o; }
    if (auto *x = dyn_cast<DefaultStmt>(S)) { o["s"] = "default"; o["a"] = stmt(x->getSubStmt()); return o; }
    if (auto *x = dyn_cast<CXXTryStmt>(S)) {
      o["s"] = "try"; o["a"] = stmt(x->getTryBlock()); Array h;
      for (unsigned i = 0; i < x->getNumHandlers(); i++) {
        auto *c = x->getHandler(i); Object k; if (c->getExceptionDecl()) k["v"] = decl(c->getExceptionDecl()); k["a"] = stmt(c->getHandlerBlock()); h.push_back(std::move(k)); }
      o["h"] = std::move(h); return o; }
    o["s"] = "unk"; o["k"] = S->getStmtClassName(); return o;
  }
};

struct Vis : RecursiveASTVisitor<Vis> {
  Ext &X;
  Vis(Ext &x) : X(x) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isThisDeclarationADefinition() && !F->isDependentContext() && X.inPrefix(F->getLocation())) X.queue(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isThisDeclarationADefinition() && !R->isDependentType() && X.inPrefix(R->getLocation())) X.cls(R);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) { if (X.inPrefix(E->getLocation())) X.enm(E); return true; }
};

static std::string OutFile;
struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Ext X(C);
    Vis V(X);
    V.TraverseDecl(C.getTranslationUnitDecl());
    for (size_t i = 0; i < X.work.size(); i++) X.doFunc(X.work[i]);
    Object o{{"types", std::move(X.Types)}, {"funcs", std::move(X.Funcs)}, {"classes", std::move(X.Classes)}, {"globals", std::move(X.Globals)}, {"enums", std::move(X.Enums)}};
    std::error_code ec;
    llvm::raw_fd_ostream os(OutFile, ec);
    os << Value(std::move(o));
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); }
};
int main(int argc, char **argv) {
  // extract PREFIX OUT SRC -- flags...
  if (argc < 5) return 2;
  Prefix = argv[1]; OutFile = argv[2];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
  clang::tooling::FixedCompilationDatabase DB(".", flags);
  clang::tooling::ClangTool T(DB, {argv[3]});
  return T.run(clang::tooling::newFrontendActionFactory<Act>().get());
}
