// cdec verification front end: parses a real translation unit of /repo with
// clang and emits, as JSON, every function definition reachable from the given
// roots (bodies with resolved callees, canonical types, explicit conversions).
// No code is dropped except what is listed in DESIGN.md (system headers are
// never expanded: calls into them are leaves handled by library contracts).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
namespace json = llvm::json;
typedef json::Object Obj;
typedef json::Array Arr;

static std::vector<std::string> Roots;
static std::string OutFile;

struct Emitter {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  Obj Types, Records, Functions;
  std::set<const FunctionDecl *> Seen;
  std::deque<const FunctionDecl *> Work;
  std::map<const void *, int> Ids;
  Emitter(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
    PP.SuppressInlineNamespace = true; PP.Bool = true;
  }
  int id(const void *p) { auto it = Ids.find(p); if (it != Ids.end()) return it->second; int n = Ids.size() + 1; Ids[p] = n; return n; }

  std::string qual(const NamedDecl *D) {
    std::string s;
    if (auto *FD = dyn_cast<FunctionDecl>(D)) {
      if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) s = CD->getParent()->getNameAsString();
      else if (auto *DD = dyn_cast<CXXDestructorDecl>(FD)) s = "~" + DD->getParent()->getNameAsString();
      else s = FD->getNameAsString();
    } else s = D->getNameAsString();
    for (const DeclContext *DC = D->getDeclContext(); DC; DC = DC->getParent()) {
      if (auto *ND = dyn_cast<NamespaceDecl>(DC)) {
        if (ND->isInline() || ND->isAnonymousNamespace()) continue;
        s = ND->getNameAsString() + "::" + s;
      } else if (auto *RD = dyn_cast<RecordDecl>(DC)) {
        std::string n = RD->getNameAsString();
        if (n.empty()) n = "anon";
        s = n + "::" + s;
      } else if (auto *FD = dyn_cast<FunctionDecl>(DC)) {
        s = FD->getNameAsString() + "::" + s;
      }
    }
    return s;
  }
  Obj locOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    Obj o; o["file"] = SM.getFilename(L).str(); o["line"] = (int64_t)SM.getExpansionLineNumber(L);
    return o;
  }
  int64_t line(SourceLocation L) { return SM.getExpansionLineNumber(SM.getExpansionLoc(L)); }

  std::string type(QualType Q) {
    Q = Q.getCanonicalType();
    bool cst = Q.isConstQualified();
    std::string key = Q.getUnqualifiedType().getAsString(PP);
    const Type *T = Q.getTypePtr();
    if (auto *RT = dyn_cast<RecordType>(T)) {
      // make anonymous records unique
      if (RT->getDecl()->getNameAsString().empty() || key.find("(unnamed") != std::string::npos || key.find("(anonymous") != std::string::npos || key.find("(lambda") != std::string::npos)
        key = "anon#" + std::to_string(id(RT->getDecl()->getCanonicalDecl()));
    }
    (void)cst;
    if (Types.find(key) != Types.end()) return key;
    Types[key] = Obj{{"k", "pending"}};
    Obj o;
    if (T->isBooleanType()) { o["k"] = "bool"; }
    else if (T->isEnumeralType()) {
      auto *ET = T->getAs<EnumType>();
      QualType IT = ET->getDecl()->getIntegerType();
      o["k"] = "int"; o["enum"] = true;
      o["w"] = (int64_t)(IT.isNull() ? 32 : C.getTypeSize(IT)); o["s"] = IT.isNull() ? true : IT->isSignedIntegerType();
    } else if (T->isIntegerType()) { o["k"] = "int"; o["w"] = (int64_t)C.getTypeSize(Q); o["s"] = T->isSignedIntegerType(); if (T->isAnyCharacterType()) o["char"] = true; }
    else if (T->isRealFloatingType()) { o["k"] = "float"; o["w"] = (int64_t)C.getTypeSize(Q); }
    else if (T->isVoidType()) o["k"] = "void";
    else if (T->isReferenceType()) { o["k"] = "ref"; o["to"] = type(T->getPointeeType()); o["const"] = T->getPointeeType().isConstQualified(); o["rv"] = T->isRValueReferenceType(); }
    else if (T->isPointerType()) { o["k"] = "ptr"; o["to"] = type(T->getPointeeType()); o["const"] = T->getPointeeType().isConstQualified(); }
    else if (auto *AT = dyn_cast<ConstantArrayType>(T)) { o["k"] = "array"; o["n"] = (int64_t)AT->getSize().getZExtValue(); o["to"] = type(AT->getElementType()); }
    else if (auto *AT = dyn_cast<ArrayType>(T)) { o["k"] = "array"; o["n"] = -1; o["to"] = type(AT->getElementType()); }
    else if (T->isFunctionType()) o["k"] = "fn";
    else if (T->isNullPtrType()) o["k"] = "nullptr";
    else if (auto *RT = dyn_cast<RecordType>(T)) {
      o["k"] = "rec";
      o["name"] = qual(RT->getDecl());
      o["key"] = key;
      if (auto *CTS = dyn_cast<ClassTemplateSpecializationDecl>(RT->getDecl())) {
        Arr a;
        for (auto &A : CTS->getTemplateArgs().asArray()) {
          if (A.getKind() == TemplateArgument::Pack) { for (auto &B : A.pack_elements()) a.push_back(targ(B)); }
          else a.push_back(targ(A));
        }
        o["args"] = std::move(a);
      }
      record(RT->getDecl(), key);
    } else { o["k"] = "other"; o["s"] = key; }
    if (!T->isIncompleteType() && !T->isFunctionType() && !T->isVoidType() && !T->isReferenceType() && !T->isDependentType())
      o["size"] = (int64_t)C.getTypeSizeInChars(Q).getQuantity();
    Types[key] = std::move(o);
    return key;
  }
  json::Value targ(const TemplateArgument &A) {
    if (A.getKind() == TemplateArgument::Type) return type(A.getAsType());
    if (A.getKind() == TemplateArgument::Integral) return (int64_t)A.getAsIntegral().getExtValue();
    return "?";
  }
  bool inRepo(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return false;
    return !SM.isInSystemHeader(L) && !SM.getFilename(L).starts_with("/usr/");
  }
  void record(const RecordDecl *RD, const std::string &key) {
    RD = RD->getDefinition();
    if (!RD) return;
    if (Records.find(key) != Records.end()) return;
    if (!inRepo(RD->getLocation()) && qual(RD) != "std::pair") { return; }
    Records[key] = Obj{};
    Obj o; o["name"] = qual(RD); o["union"] = RD->isUnion(); o["anon"] = RD->isAnonymousStructOrUnion();
    Arr fs;
    for (auto *F : RD->fields()) {
      Obj f; f["name"] = F->getNameAsString().empty() ? "anon" + std::to_string(F->getFieldIndex()) : F->getNameAsString();
      f["t"] = type(F->getType()); f["anon"] = F->isAnonymousStructOrUnion();
      if (F->isBitField()) f["bits"] = (int64_t)F->getBitWidthValue(C);
      f["off"] = RD->isDependentType() ? (int64_t)-1 : (int64_t)C.getFieldOffset(F);
      fs.push_back(std::move(f));
    }
    o["fields"] = std::move(fs);
    Arr bs;
    if (auto *CR = dyn_cast<CXXRecordDecl>(RD)) {
      for (auto &B : CR->bases()) bs.push_back(type(B.getType()));
      o["polymorphic"] = CR->isPolymorphic();
      if (CR->hasUserProvidedDefaultConstructor()) o["udc"] = true;
    }
    o["bases"] = std::move(bs);
    Records[key] = std::move(o);
  }

  json::Value fieldName(const FieldDecl *F) {
    return F->getNameAsString().empty() ? "anon" + std::to_string(F->getFieldIndex()) : F->getNameAsString();
  }
  Obj node(const char *k, const Expr *E) { Obj o; o["k"] = k; o["t"] = type(E->getType()); o["l"] = line(E->getBeginLoc()); if (E->isGLValue()) o["lv"] = true; return o; }

  Obj fnref(const FunctionDecl *FD) {
    Obj o;
    const FunctionDecl *Def = nullptr;
    FD->hasBody(Def);
    const FunctionDecl *X = Def ? Def : FD->getCanonicalDecl();
    std::string q = qual(FD);
    o["q"] = q;
    o["noret"] = FD->isNoReturn();
    o["ret"] = type(FD->getReturnType());
    Arr pt; for (auto *P : FD->parameters()) pt.push_back(type(P->getType()));
    o["pt"] = std::move(pt);
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
      o["cls"] = type(C.getRecordType(MD->getParent()));
      o["const"] = MD->isConst(); o["static"] = MD->isStatic();
      o["virtual"] = MD->isVirtual();
      if (MD->isCopyAssignmentOperator()) o["copyassign"] = true;
      if (MD->isMoveAssignmentOperator()) o["copyassign"] = true;
      if (MD->isImplicit() || MD->isDefaulted()) o["implicit"] = true;
      if (auto *CD = dyn_cast<CXXConstructorDecl>(MD)) {
        if (CD->isCopyOrMoveConstructor()) o["copyctor"] = true;
        if (CD->isDefaultConstructor()) o["defctor"] = true;
      }
    }
    if (auto *TA = FD->getTemplateSpecializationArgs()) {
      Arr a; for (auto &A : TA->asArray()) if (A.getKind() != TemplateArgument::Pack) a.push_back(targ(A)); else for (auto &B : A.pack_elements()) a.push_back(targ(B));
      o["targs"] = std::move(a);
    }
    if (Def && inRepo(Def->getLocation())) {
      o["id"] = (int64_t)id(Def);
      need(Def);
    }
    (void)X;
    return o;
  }
  void need(const FunctionDecl *Def) { if (Seen.insert(Def).second) Work.push_back(Def); }

  json::Value exprOrNull(const Expr *E) { if (!E) return nullptr; return expr(E); }
  Arr args(llvm::ArrayRef<const Expr *> A) { Arr r; for (auto *E : A) r.push_back(expr(E)); return r; }

  json::Value expr(const Expr *E) {
    if (auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ExprWithCleanups>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) { Obj o = node("temp", E); o["e"] = expr(X->getSubExpr()); return o; }
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(X->getSemanticForm());

    if (auto *X = dyn_cast<IntegerLiteral>(E)) { Obj o = node("int", E); llvm::SmallString<32> s; X->getValue().toString(s, 10, E->getType()->isSignedIntegerType()); o["v"] = s.str().str(); return o; }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { Obj o = node("int", E); int64_t v = X->getValue(); if (E->getType()->isCharType() && v > 127) v -= 256; o["v"] = std::to_string(v); return o; }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { Obj o = node("bool", E); o["v"] = X->getValue(); return o; }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      Obj o = node("float", E); llvm::SmallString<64> s; X->getValue().toString(s, 40, 0); o["v"] = s.str().str();
      SourceRange R = E->getSourceRange();
      o["src"] = Lexer::getSourceText(CharSourceRange::getTokenRange(R), SM, C.getLangOpts()).str();
      return o;
    }
    if (auto *X = dyn_cast<StringLiteral>(E)) { Obj o = node("str", E); std::string b; Arr a; if (X->getCharByteWidth() == 1) for (unsigned char c : X->getBytes()) a.push_back((int64_t)c); o["v"] = std::move(a); return o; }
    if (isa<PredefinedExpr>(E)) { Obj o = node("str", E); o["v"] = Arr{}; return o; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return node("null", E);
    if (isa<CXXThisExpr>(E)) { Obj o = node("this", E); return o; }

    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Expr::EvalResult R;
      Obj o = node("int", E);
      if (X->EvaluateAsInt(R, C)) { llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); o["v"] = s.str().str(); if (X->getKind() == UETT_SizeOf) o["sizeof"] = type(X->getTypeOfArgument()); return o; }
      return unsup(E);
    }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { Obj o = node("int", E); llvm::SmallString<32> s; EC->getInitVal().toString(s, 10); o["v"] = s.str().str(); return o; }
      if (auto *V = dyn_cast<VarDecl>(D)) return varref(V, E);
      if (auto *F = dyn_cast<FunctionDecl>(D)) { Obj o = node("fnref", E); o["fn"] = fnref(F); return o; }
      return unsup(E);
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) return varref(V, E);
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { Obj o = node("int", E); llvm::SmallString<32> s; EC->getInitVal().toString(s, 10); o["v"] = s.str().str(); return o; }
      if (auto *F = dyn_cast<FieldDecl>(D)) {
        Obj o = node("member", E); o["f"] = fieldName(F); o["arrow"] = X->isArrow(); o["b"] = expr(X->getBase());
        o["cls"] = type(C.getRecordType(F->getParent()));
        return o;
      }
      return unsup(E);
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      Obj o = node(X->isIncrementDecrementOp() ? "incdec" : "un", E);
      o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str(); o["e"] = expr(X->getSubExpr());
      o["prefix"] = X->isPrefix();
      return o;
    }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      Obj o = node("opassign", E); std::string op = X->getOpcodeStr().str(); op.pop_back(); o["op"] = op;
      o["a"] = expr(X->getLHS()); o["b"] = expr(X->getRHS()); o["ct"] = type(X->getComputationResultType()); o["cl"] = type(X->getComputationLHSType());
      return o;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      Obj o = node(X->getOpcode() == BO_Assign ? "assign" : X->getOpcode() == BO_Comma ? "comma" : "bin", E);
      o["op"] = X->getOpcodeStr().str(); o["a"] = expr(X->getLHS()); o["b"] = expr(X->getRHS());
      return o;
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      Obj o = node("cond", E); o["c"] = expr(X->getCond()); o["a"] = expr(X->getTrueExpr()); o["b"] = expr(X->getFalseExpr()); return o;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { Obj o = node("index", E); o["b"] = expr(X->getBase()); o["i"] = expr(X->getIdx()); return o; }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      switch (X->getCastKind()) {
        case CK_NoOp: case CK_LValueToRValue: case CK_ConstructorConversion: case CK_UserDefinedConversion: case CK_FunctionToPointerDecay: case CK_BuiltinFnToFnPtr: {
          if (X->getCastKind() == CK_LValueToRValue) { Obj o = node("load", E); o["e"] = expr(X->getSubExpr()); return o; }
          return expr(X->getSubExpr());
        }
        default: {
          Obj o = node("cast", E); o["ck"] = X->getCastKindName(); o["e"] = expr(X->getSubExpr()); return o;
        }
      }
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      const FunctionDecl *FD = X->getDirectCallee();
      if (!FD) return unsup(E);
      Obj o = node("call", E); o["fn"] = fnref(FD); o["oper"] = true;
      bool meth = isa<CXXMethodDecl>(FD) && !cast<CXXMethodDecl>(FD)->isStatic();
      Arr a;
      for (unsigned i = 0; i < X->getNumArgs(); ++i) {
        if (meth && i == 0) o["obj"] = expr(X->getArg(0)); else a.push_back(expr(X->getArg(i)));
      }
      o["args"] = std::move(a);
      return o;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      const FunctionDecl *FD = X->getMethodDecl();
      if (!FD) return unsup(E);
      Obj o = node("call", E); o["fn"] = fnref(FD);
      const Expr *O = X->getImplicitObjectArgument();
      o["obj"] = expr(O); o["objptr"] = O->getType()->isPointerType();
      Arr a; for (auto *A : X->arguments()) a.push_back(expr(A));
      o["args"] = std::move(a);
      return o;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      const FunctionDecl *FD = X->getDirectCallee();
      if (!FD) {
        Obj o = node("icall", E); o["f"] = expr(X->getCallee()); Arr a; for (auto *A : X->arguments()) a.push_back(expr(A)); o["args"] = std::move(a); return o;
      }
      Obj o = node("call", E); o["fn"] = fnref(FD);
      Arr a; for (auto *A : X->arguments()) a.push_back(expr(A));
      o["args"] = std::move(a);
      return o;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      Obj o = node("construct", E); o["fn"] = fnref(X->getConstructor()); o["elide"] = X->isElidable(); o["zero"] = X->requiresZeroInitialization();
      o["list"] = X->isStdInitListInitialization();
      Arr a; for (auto *A : X->arguments()) a.push_back(expr(A));
      o["args"] = std::move(a);
      return o;
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      if (X->isSyntacticForm() && X->getSemanticForm()) X = X->getSemanticForm();
      Obj o = node("initlist", E); Arr a; for (auto *A : X->inits()) a.push_back(expr(A)); o["args"] = std::move(a);
      if (X->hasArrayFiller()) o["filler"] = expr(X->getArrayFiller());
      return o;
    }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) return node("zeroinit", E);
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      Obj o = node("new", E); o["at"] = type(X->getAllocatedType()); o["array"] = X->isArray();
      if (X->isArray() && X->getArraySize() && *X->getArraySize()) o["n"] = expr(*X->getArraySize());
      if (X->getInitializer()) o["init"] = expr(X->getInitializer());
      Arr p; for (unsigned i = 0; i < X->getNumPlacementArgs(); ++i) p.push_back(expr(X->getPlacementArg(i)));
      o["place"] = std::move(p);
      return o;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { Obj o = node("delete", E); o["e"] = expr(X->getArgument()); o["array"] = X->isArrayForm(); 
      return o; }
    if (isa<CXXThrowExpr>(E)) return node("throw", E);
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      Obj o = node("lambda", E);
      Arr caps;
      for (auto &cp : X->captures()) {
        Obj c;
        if (cp.capturesThis()) c["this"] = true;
        else if (cp.capturesVariable()) { c["id"] = (int64_t)id(cast<VarDecl>(cp.getCapturedVar())->getCanonicalDecl()); c["byref"] = cp.getCaptureKind() == LCK_ByRef; c["name"] = cp.getCapturedVar()->getNameAsString(); }
        caps.push_back(std::move(c));
      }
      o["caps"] = std::move(caps);
      if (X->getCallOperator()) o["fn"] = fnref(X->getCallOperator());
      return o;
    }
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { if (X->getSourceExpr()) return expr(X->getSourceExpr()); }
    if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) { Obj o = node("arraycopy", E); o["e"] = expr(X->getCommonExpr()->getSourceExpr()); return o; }
    if (auto *X = dyn_cast<CXXPseudoDestructorExpr>(E)) { return node("nop", E); }
    return unsup(E);
  }
  Obj unsup(const Stmt *S) { Obj o; o["k"] = "unsupported"; o["cls"] = S->getStmtClassName(); o["l"] = line(S->getBeginLoc()); if (auto *E = dyn_cast<Expr>(S)) o["t"] = type(E->getType()); return o; }

  json::Value varref(const VarDecl *V, const Expr *E) {
    Obj o = node("var", E);
    o["id"] = (int64_t)id(V->getCanonicalDecl()); o["n"] = V->getNameAsString();
    bool global = !V->isLocalVarDeclOrParm() || V->isStaticLocal();
    o["global"] = global;
    if (global) {
      o["q"] = qual(V);
    }
    if ((V->getType().isConstQualified() || V->isConstexpr()) && V->getType()->isIntegralOrEnumerationType()) {
      const VarDecl *D = nullptr;
      if (auto *I = V->getAnyInitializer(D)) {
        Expr::EvalResult R;
        if (!I->isValueDependent() && I->EvaluateAsInt(R, C)) { Obj l = node("int", E); llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); l["v"] = s.str().str(); l["n"] = V->getNameAsString(); return l; }
      }
    }
    if (global && (V->getType().isConstQualified() || V->isConstexpr())) {
      const VarDecl *D = nullptr;
      if (auto *I = V->getAnyInitializer(D)) if (inRepo(V->getLocation())) { o["ginit"] = expr(I); }
    }
    return o;
  }
  Obj var(const VarDecl *V) {
    Obj o; o["id"] = (int64_t)id(V->getCanonicalDecl()); o["n"] = V->getNameAsString(); o["t"] = type(V->getType());
    o["ref"] = V->getType()->isReferenceType(); o["static"] = V->isStaticLocal(); o["const"] = V->getType().isConstQualified();
    o["l"] = line(V->getLocation());
    if (V->getInit() && !isa<ParmVarDecl>(V)) o["init"] = expr(V->getInit());
    return o;
  }
  json::Value stmtOrNull(const Stmt *S) { if (!S) return nullptr; return stmt(S); }
  json::Value stmt(const Stmt *S) {
    if (auto *E = dyn_cast<Expr>(S)) { Obj o; o["k"] = "expr"; o["l"] = line(S->getBeginLoc()); o["e"] = expr(E); return o; }
    Obj o; o["l"] = line(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) { o["k"] = "block"; Arr a; for (auto *B : X->body()) a.push_back(stmt(B)); o["b"] = std::move(a); return o; }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      o["k"] = "decl"; Arr a;
      for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) a.push_back(var(V));
      o["v"] = std::move(a); return o;
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      o["k"] = "if"; o["init"] = stmtOrNull(X->getInit());
      if (X->getConditionVariable()) o["cv"] = var(X->getConditionVariable());
      o["c"] = expr(X->getCond()); o["a"] = stmt(X->getThen()); o["b"] = stmtOrNull(X->getElse()); return o;
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      o["k"] = "for"; o["init"] = stmtOrNull(X->getInit()); o["c"] = exprOrNull(X->getCond()); o["inc"] = exprOrNull(X->getInc()); o["b"] = stmt(X->getBody()); return o;
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) { o["k"] = "for"; o["init"] = nullptr; o["inc"] = nullptr; if (X->getConditionVariable()) o["cv"] = var(X->getConditionVariable()); o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<DoStmt>(S)) { o["k"] = "do"; o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      o["k"] = "rangefor"; o["r"] = expr(X->getRangeInit());
      Obj v; const VarDecl *V = X->getLoopVariable();
      v["id"] = (int64_t)id(V->getCanonicalDecl()); v["n"] = V->getNameAsString(); v["t"] = type(V->getType()); v["ref"] = V->getType()->isReferenceType();
      o["v"] = std::move(v); o["b"] = stmt(X->getBody()); return o;
    }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { o["k"] = "return"; o["e"] = exprOrNull(X->getRetValue()); return o; }
    if (isa<BreakStmt>(S)) { o["k"] = "break"; return o; }
    if (isa<ContinueStmt>(S)) { o["k"] = "continue"; return o; }
    if (isa<NullStmt>(S)) { o["k"] = "null"; return o; }
    if (auto *X = dyn_cast<SwitchStmt>(S)) { o["k"] = "switch"; o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<CaseStmt>(S)) {
      o["k"] = "case"; Expr::EvalResult R; if (X->getLHS()->EvaluateAsInt(R, C)) { llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); o["v"] = s.str().str(); }
      o["s"] = stmt(X->getSubStmt()); return o;
    }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { o["k"] = "default"; o["s"] = stmt(X->getSubStmt()); return o; }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<CXXTryStmt>(S)) { return stmt(X->getTryBlock()); }
    if (auto *X = dyn_cast<LabelStmt>(S)) { o["k"] = "label"; o["n"] = X->getName(); o["s"] = stmt(X->getSubStmt()); return o; }
    if (auto *X = dyn_cast<GotoStmt>(S)) { o["k"] = "goto"; o["n"] = X->getLabel()->getNameAsString(); return o; }
    return unsup(S);
  }
  void function(const FunctionDecl *FD) {
    Obj o = fnref(FD);
    o["loc"] = locOf(FD->getLocation());
    o["end"] = line(FD->getEndLoc());
    Arr ps; for (auto *P : FD->parameters()) ps.push_back(var(P));
    o["params"] = std::move(ps);
    if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) {
      o["ctor"] = true; Arr in;
      for (auto *I : CD->inits()) {
        Obj i;
        if (I->isMemberInitializer()) i["f"] = fieldName(I->getMember());
        else if (I->isBaseInitializer()) i["base"] = type(QualType(I->getBaseClass(), 0));
        else if (I->isIndirectMemberInitializer()) { Arr ch; for (auto *N : I->getIndirectMember()->chain()) if (auto *F = dyn_cast<FieldDecl>(N)) ch.push_back(fieldName(F)); i["chain"] = std::move(ch); }
        else if (I->isDelegatingInitializer()) i["deleg"] = true;
        i["e"] = expr(I->getInit());
        in.push_back(std::move(i));
      }
      o["inits"] = std::move(in);
    }
    if (isa<CXXDestructorDecl>(FD)) o["dtor"] = true;
    if (FD->getBody()) o["body"] = stmt(FD->getBody());
    Functions[std::to_string(id(FD))] = std::move(o);
  }
};

struct Finder : RecursiveASTVisitor<Finder> {
  Emitter &E; std::set<std::string> Want; std::map<std::string, int> Hit;
  Finder(Emitter &E) : E(E) { Want.insert(Roots.begin(), Roots.end()); }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *FD) {
    if (FD->isDependentContext()) return true;
    if (!FD->doesThisDeclarationHaveABody()) return true;
    if (!E.inRepo(FD->getLocation())) return true;
    std::string q = E.qual(FD);
    if (Want.count(q)) { Hit[q]++; E.need(FD); }
    return true;
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    Emitter E(C);
    Finder F(E);
    F.TraverseDecl(C.getTranslationUnitDecl());
    while (!E.Work.empty()) { auto *FD = E.Work.front(); E.Work.pop_front(); E.function(FD); }
    Obj out;
    out["types"] = std::move(E.Types); out["records"] = std::move(E.Records); out["functions"] = std::move(E.Functions);
    Arr miss; for (auto &r : Roots) if (!F.Hit.count(r)) miss.push_back(r);
    out["missing"] = std::move(miss);
    out["errors"] = (int64_t)C.getDiagnostics().hasErrorOccurred();
    std::error_code ec; llvm::raw_fd_ostream os(OutFile, ec);
    os << json::Value(std::move(out)) << "\n";
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};
int main(int argc, char **argv) {
  // vcextract OUT ROOT,ROOT,... FILE -- flags
  if (argc < 5) return 2;
  OutFile = argv[1];
  std::string r = argv[2], cur;
  for (char c : r) { if (c == ';') { Roots.push_back(cur); cur.clear(); } else cur += c; }
  if (!cur.empty()) Roots.push_back(cur);
  std::string file = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
  std::ifstream in(file);
  std::string code((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
  flags.push_back("-w");
  bool ok = tooling::runToolOnCodeWithArgs(std::make_unique<Action>(), code, flags, file, "clang++");
  return ok ? 0 : 1;
}
