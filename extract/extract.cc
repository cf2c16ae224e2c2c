// kfacts: dumps a normalised, typed, CFG-level program representation of the
// kanon sources (one JSON document per translation unit).  It decides nothing;
// every rule lives in /verif/lib.  Functions are emitted with clang's CFG
// (setAllAlwaysAdd: one element per evaluated sub-expression, implicit
// destructors and constructor initialisers included), every name is resolved
// by the compiler's semantic analysis.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::string Root;   // only functions whose file lies below this
static std::string OutFile;

namespace {

class Dumper : public RecursiveASTVisitor<Dumper> {
 public:
  Dumper(ASTContext &C, raw_ostream &os)
    : Ctx(C), SM(C.getSourceManager()), Policy(C.getLangOpts()), J(os, 0)
  {
    Policy.SuppressTagKeyword = true;
    Policy.Bool = true;
    Policy.FullyQualifiedName = true;
    Policy.AnonymousTagLocations = false;
    Mangle.reset(C.createMangleContext());
  }

  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  void Run()
  {
    J.objectBegin();
    J.attributeBegin("functions");
    J.arrayBegin();
    TraverseDecl(Ctx.getTranslationUnitDecl());
    while (!Pending.empty()) {
      auto p = Pending.back();
      Pending.pop_back();
      EmitFunction(p);
    }
    J.arrayEnd();
    J.attributeEnd();
    J.attributeBegin("records");
    J.arrayBegin();
    for (size_t i = 0; i < RecordList.size(); ++i) EmitRecord(RecordList[i]);
    J.arrayEnd();
    J.attributeEnd();
    J.attributeBegin("enums");
    J.arrayBegin();
    for (auto *E : Enums) EmitEnum(E);
    J.arrayEnd();
    J.attributeEnd();
    J.attributeBegin("globals");
    J.arrayBegin();
    for (auto *V : Globals) EmitGlobal(V);
    J.arrayEnd();
    J.attributeEnd();
    J.objectEnd();
  }

  bool VisitFunctionDecl(FunctionDecl *F)
  {
    if (!F->doesThisDeclarationHaveABody() && !F->isDefaulted()) return true;
    if (F->isDependentContext()) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) return true;   // emitted with parent
    if (!InRoot(F->getLocation())) return true;
    Queue(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R)
  {
    if (R->isThisDeclarationADefinition() && !R->isDependentContext() &&
        !R->isLambda() && InRoot(R->getLocation()))
      AddRecord(R);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E)
  {
    if (E->isThisDeclarationADefinition() && InRoot(E->getLocation()) &&
        !E->isDependentContext())
      Enums.push_back(E);
    return true;
  }
  bool VisitVarDecl(VarDecl *V)
  {
    if ((V->isFileVarDecl() || (V->isStaticLocal() && !V->getType()->isDependentType())) && InRoot(V->getLocation()) &&
        !V->isTemplated() && V->isThisDeclarationADefinition())
      Globals.push_back(V);
    return true;
  }

 private:
  struct Item { const FunctionDecl *F; std::string Id; std::string Parent; };

  bool InRoot(SourceLocation L)
  {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    if (F.empty()) return false;
    // our own witness files count as part of the program
    if (F.ends_with(".inst.cc")) return true;
    return Abs(F).rfind(Root, 0) == 0;
  }
  std::string Abs(StringRef F)
  {
    auto it = AbsCache.find(F.str());
    if (it != AbsCache.end()) return it->second;
    SmallString<256> S(F);
    SM.getFileManager().makeAbsolutePath(S);
    llvm::sys::path::remove_dots(S, true);
    return AbsCache[F.str()] = S.str().str();
  }
  std::map<std::string, std::string> AbsCache;

  static std::string QName(const NamedDecl *D)
  {
    std::string s = BaseName(D);
    const DeclContext *DC = D->getDeclContext();
    while (DC && !DC->isTranslationUnit()) {
      if (auto *NS = dyn_cast<NamespaceDecl>(DC)) {
        if (!NS->isInline() && !NS->isAnonymousNamespace())
          s = NS->getNameAsString() + "::" + s;
      } else if (auto *R = dyn_cast<RecordDecl>(DC)) {
        s = BaseName(R) + "::" + s;
      } else if (auto *F = dyn_cast<FunctionDecl>(DC)) {
        s = BaseName(F) + "()::" + s;
      }
      DC = DC->getParent();
    }
    return s;
  }
  static std::string BaseName(const NamedDecl *D)
  {
    if (auto *R = dyn_cast<CXXRecordDecl>(D))
      if (R->isLambda()) return "$lambda";
    if (auto *C = dyn_cast<CXXConstructorDecl>(D))
      return C->getParent()->getNameAsString();
    if (auto *C = dyn_cast<CXXDestructorDecl>(D))
      return "~" + C->getParent()->getNameAsString();
    if (isa<CXXConversionDecl>(D)) return "operator<conv>";
    return D->getNameAsString();
  }
  std::string Mangled(const FunctionDecl *F)
  {
    auto it = LambdaIds.find(F->getCanonicalDecl());
    if (it != LambdaIds.end()) return it->second;
    std::string s;
    llvm::raw_string_ostream os(s);
    GlobalDecl GD;
    if (auto *C = dyn_cast<CXXConstructorDecl>(F))
      GD = GlobalDecl(C, Ctor_Complete);
    else if (auto *D = dyn_cast<CXXDestructorDecl>(F))
      GD = GlobalDecl(D, Dtor_Complete);
    else
      GD = GlobalDecl(F);
    if (F->isDependentContext() || F->getType()->isDependentType()) {
      return "dep:" + QName(F);
    }
    if (Mangle->shouldMangleDeclName(F))
      Mangle->mangleName(GD, os);
    else
      os << F->getNameAsString();
    os.flush();
    if (F->getFormalLinkage() == Linkage::Internal && InRoot(F->getLocation()))
      s += "@" + Abs(SM.getFilename(SM.getExpansionLoc(F->getLocation())));
    return s;
  }
  std::string Ty(QualType T)
  {
    if (T.isNull()) return "";
    T = T.getCanonicalType();
    // a constant pointer is handled like any other pointer
    if (T->isPointerType()) T = T.getUnqualifiedType();
    return T.getAsString(Policy);
  }
  // the class behind a type: strips refs/pointers/cv
  std::string Cls(QualType T)
  {
    if (T.isNull()) return "";
    T = T.getNonReferenceType();
    while (T->isPointerType()) T = T->getPointeeType();
    if (auto *R = T->getAsCXXRecordDecl()) return QName(R);
    if (auto *E = T->getAs<EnumType>()) return QName(E->getDecl());
    return "";
  }
  int Line(SourceLocation L) { return SM.getExpansionLineNumber(L); }

  void Queue(const FunctionDecl *F)
  {
    std::string id = Mangled(F);
    if (!Seen.insert(id).second) return;
    Pending.push_back({F, id, ""});
  }
  void AddRecord(const CXXRecordDecl *R)
  {
    R = R->getDefinition();
    if (!R || !RecordSeen.insert(R).second) return;
    RecordList.push_back(R);
  }

  // ------------------------------------------------------------ functions
  std::map<const Stmt *, int> SId;
  std::vector<const Stmt *> SList;
  std::map<const ValueDecl *, int> VarIds;
  std::string CurId;
  int LambdaCount = 0;
  std::map<const FunctionDecl *, std::string> LambdaIds;
  std::vector<Item> Pending;

  int Id(const Stmt *S)
  {
    if (!S) return -1;
    auto it = SId.find(S);
    if (it != SId.end()) return it->second;
    int n = SList.size();
    SId[S] = n;
    SList.push_back(S);
    return n;
  }

  std::string VarRef(const ValueDecl *V)
  {
    // local variable identity: name + line/col, stable across TUs
    V = cast<ValueDecl>(V->getCanonicalDecl());
    if (auto *P = dyn_cast<ParmVarDecl>(V))
      return "p:" + P->getNameAsString() + "#" +
             std::to_string(P->getFunctionScopeIndex()) + "@" + Loc(P->getLocation());
    if (auto *VD = dyn_cast<VarDecl>(V)) {
      if (VD->isLocalVarDecl())
        return (VD->isStaticLocal() ? "sl:" : "v:") + VD->getNameAsString() + "@" +
               Loc(VD->getLocation());
      return "g:" + QName(VD);
    }
    return "d:" + QName(V);
  }
  std::string Loc(SourceLocation L)
  {
    L = SM.getExpansionLoc(L);
    return std::to_string(SM.getExpansionLineNumber(L)) + ":" +
           std::to_string(SM.getExpansionColumnNumber(L));
  }

  void EmitFunction(const Item &It)
  {
    const FunctionDecl *F = It.F;
    SId.clear();
    SList.clear();
    CurId = It.Id;
    LambdaCount = 0;
    J.objectBegin();
    J.attribute("id", It.Id);
    J.attribute("q", QName(F));
    J.attribute("name", BaseName(F));
    if (!It.Parent.empty()) J.attribute("parent", It.Parent);
    J.attribute("file", Abs(SM.getFilename(SM.getExpansionLoc(F->getLocation()))));
    J.attribute("line", Line(F->getLocation()));
    J.attribute("ret", Ty(F->getReturnType()));
    J.attribute("retcls", Cls(F->getReturnType()));
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      J.attribute("cls", QName(M->getParent()));
      std::string tn;
      { llvm::raw_string_ostream os(tn); M->getParent()->getNameForDiagnostic(os, Policy, true); }
      J.attribute("clst", tn);
      J.attribute("static", M->isStatic());
      J.attribute("virtual", M->isVirtual());
      J.attribute("const", M->isConst());
      if (M->isVirtual()) {
        J.attributeBegin("overrides");
        J.arrayBegin();
        for (auto *O : M->overridden_methods()) J.value(Mangled(O));
        J.arrayEnd();
        J.attributeEnd();
      }
      const char *acc = M->getAccess() == AS_public      ? "public"
                        : M->getAccess() == AS_protected ? "protected"
                                                         : "private";
      J.attribute("access", acc);
    }
    if (isa<CXXConstructorDecl>(F)) {
      J.attribute("kind", "ctor");
      auto *C = cast<CXXConstructorDecl>(F);
      J.attribute("copymove", C->isCopyConstructor() ? "copy" : C->isMoveConstructor() ? "move" : "");
    } else if (isa<CXXDestructorDecl>(F)) J.attribute("kind", "dtor");
    else if (isa<CXXConversionDecl>(F)) J.attribute("kind", "conv");
    else J.attribute("kind", "fn");
    if (F->isOverloadedOperator()) J.attribute("op", true);
    J.attribute("defaulted", F->isDefaulted());
    J.attribute("deleted", F->isDeleted());
    bool inst = F->isTemplateInstantiation();
    J.attribute("inst", inst);
    J.attribute("internal", F->getFormalLinkage() == Linkage::Internal);
    if (auto *FPT = F->getType()->getAs<FunctionProtoType>())
      if (!isUnresolvedExceptionSpec(FPT->getExceptionSpecType()))
        J.attribute("noexcept", FPT->isNothrow());
    J.attributeBegin("params");
    J.arrayBegin();
    for (auto *P : F->parameters()) {
      J.objectBegin();
      J.attribute("v", VarRef(P));
      J.attribute("n", P->getNameAsString());
      J.attribute("t", Ty(P->getType()));
      J.attribute("c", Cls(P->getType()));
      J.objectEnd();
    }
    J.arrayEnd();
    J.attributeEnd();

    const Stmt *Body = F->getBody();
    if (Body && !F->isDeleted()) {
      CFG::BuildOptions O;
      O.setAllAlwaysAdd();
      O.AddImplicitDtors = true;
      O.AddTemporaryDtors = true;
      O.AddInitializers = true;
      O.AddCXXDefaultInitExprInCtors = true;
      O.AddCXXDefaultInitExprInAggregates = true;
      O.PruneTriviallyFalseEdges = true;
      auto G = CFG::buildCFG(F, const_cast<Stmt *>(Body), &Ctx, O);
      if (!G) {
        J.attribute("cfgfail", true);
      } else {
        EmitCFG(*G);
      }
    } else {
      J.attribute("nobody", true);
    }
    J.objectEnd();
  }

  void EmitCFG(const CFG &G)
  {
    J.attribute("entry", (int64_t)G.getEntry().getBlockID());
    J.attribute("exit", (int64_t)G.getExit().getBlockID());
    J.attributeBegin("blocks");
    J.arrayBegin();
    for (const CFGBlock *B : G) {
      J.objectBegin();
      J.attribute("b", (int64_t)B->getBlockID());
      if (B->hasNoReturnElement()) J.attribute("noret", true);
      J.attributeBegin("e");
      J.arrayBegin();
      for (const CFGElement &E : *B) EmitElem(E);
      J.arrayEnd();
      J.attributeEnd();
      if (const Stmt *L = B->getLabel()) {
        if (auto *CS = dyn_cast<CaseStmt>(L)) {
          J.attributeBegin("case");
          J.arrayBegin();
          Expr::EvalResult R;
          if (CS->getLHS()->EvaluateAsInt(R, Ctx))
            J.value(R.Val.getInt().getExtValue());
          // consecutive case labels nest
          const Stmt *Sub = CS->getSubStmt();
          (void)Sub;
          J.arrayEnd();
          J.attributeEnd();
        } else if (isa<DefaultStmt>(L)) {
          J.attribute("default", true);
        } else if (isa<CXXCatchStmt>(L)) {
          J.attribute("catch", true);
        }
      }
      if (B->getTerminator().isValid()) {
        const Stmt *T = B->getTerminatorStmt();
        J.attribute("tk", T ? T->getStmtClassName() : "");
        if (T) J.attribute("tl", Line(T->getBeginLoc()));
        if (B->getTerminator().isTemporaryDtorsBranch()) J.attribute("tmpbr", true);
        if (T) J.attribute("ts", Id(T));
        if (const Expr *C = B->getLastCondition()) J.attribute("cond", Id(C));
        else if (const Stmt *C2 = B->getTerminatorCondition()) J.attribute("cond", Id(C2));
      }
      J.attributeBegin("s");
      J.arrayBegin();
      for (auto &S : B->succs()) {
        if (const CFGBlock *R = S.getReachableBlock())
          J.value((int64_t)R->getBlockID());
        else
          J.value(nullptr);
      }
      J.arrayEnd();
      J.attributeEnd();
      J.objectEnd();
    }
    J.arrayEnd();
    J.attributeEnd();
    // statement table (grows while emitting)
    J.attributeBegin("x");
    J.arrayBegin();
    std::vector<std::pair<const FunctionDecl *, std::string>> lams;
    for (size_t i = 0; i < SList.size(); ++i) EmitStmt(SList[i], lams);
    J.arrayEnd();
    J.attributeEnd();
    for (auto &p : lams) {
      if (Seen.insert(p.second).second) Pending.push_back({p.first, p.second, CurId});
    }
  }

  void EmitElem(const CFGElement &E)
  {
    switch (E.getKind()) {
      case CFGElement::Statement:
      case CFGElement::Constructor:
      case CFGElement::CXXRecordTypedCall:
        J.value(Id(E.castAs<CFGStmt>().getStmt()));
        break;
      case CFGElement::Initializer: {
        const CXXCtorInitializer *I = E.castAs<CFGInitializer>().getInitializer();
        J.objectBegin();
        J.attribute("k", "init");
        if (I->isAnyMemberInitializer()) {
          J.attribute("field", QName(I->getAnyMember()));
          J.attribute("t", Ty(I->getAnyMember()->getType()));
        } else if (I->isBaseInitializer()) {
          J.attribute("base", Cls(QualType(I->getBaseClass(), 0)));
        } else
          J.attribute("deleg", true);
        J.attribute("written", I->isWritten());
        J.attribute("x", Id(I->getInit()));
        J.objectEnd();
        break;
      }
      case CFGElement::AutomaticObjectDtor: {
        auto D = E.castAs<CFGAutomaticObjDtor>();
        J.objectBegin();
        J.attribute("k", "dtor");
        J.attribute("v", VarRef(D.getVarDecl()));
        EmitDtor(D.getDestructorDecl(Ctx), D.getVarDecl()->getType());
        J.attribute("l", Line(D.getTriggerStmt()->getEndLoc()));
        J.objectEnd();
        break;
      }
      case CFGElement::TemporaryDtor: {
        auto D = E.castAs<CFGTemporaryDtor>();
        J.objectBegin();
        J.attribute("k", "tdtor");
        J.attribute("x", Id(D.getBindTemporaryExpr()));
        EmitDtor(D.getDestructorDecl(Ctx), D.getBindTemporaryExpr()->getType());
        J.objectEnd();
        break;
      }
      case CFGElement::MemberDtor: {
        auto D = E.castAs<CFGMemberDtor>();
        J.objectBegin();
        J.attribute("k", "mdtor");
        J.attribute("field", QName(D.getFieldDecl()));
        EmitDtor(D.getDestructorDecl(Ctx), D.getFieldDecl()->getType());
        J.objectEnd();
        break;
      }
      case CFGElement::BaseDtor: {
        auto D = E.castAs<CFGBaseDtor>();
        J.objectBegin();
        J.attribute("k", "bdtor");
        EmitDtor(D.getDestructorDecl(Ctx), D.getBaseSpecifier()->getType());
        J.objectEnd();
        break;
      }
      case CFGElement::DeleteDtor: {
        auto D = E.castAs<CFGDeleteDtor>();
        J.objectBegin();
        J.attribute("k", "ddtor");
        J.attribute("x", Id(D.getDeleteExpr()));
        J.objectEnd();
        break;
      }
      default:
        J.objectBegin();
        J.attribute("k", "other");
        J.objectEnd();
    }
  }
  void EmitDtor(const CXXDestructorDecl *D, QualType T)
  {
    J.attribute("t", Ty(T));
    J.attribute("c", Cls(T));
    if (D) {
      J.attribute("f", Mangled(D));
      J.attribute("q", QName(D));
    }
  }

  void Fn(const char *key, const FunctionDecl *F)
  {
    J.attribute(key, Mangled(F));
    J.attribute("q", QName(F));
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      J.attribute("fc", QName(M->getParent()));
      if (M->isVirtual()) J.attribute("virt", true);
      if (M->isStatic()) J.attribute("stat", true);
      if (M->isConst()) J.attribute("cm", true);
      if ((M->isCopyAssignmentOperator() || M->isMoveAssignmentOperator()) && (M->isTrivial() || M->isImplicit()))
        J.attribute("asg", true);
    }
    if (F->isNoReturn()) J.attribute("noret", true);
    if (auto *A = F->getPrimaryTemplate()) (void)A;
    // instantiate-on-demand bodies from /repo that the traversal has not seen
    const FunctionDecl *Def = nullptr;
    if (F->hasBody(Def) && Def && !Def->isDependentContext() &&
        InRoot(Def->getLocation())) {
      bool lam = false;
      if (auto *M = dyn_cast<CXXMethodDecl>(Def)) lam = M->getParent()->isLambda();
      if (!lam) Queue(Def);
    }
  }
  void Ids(const char *key, llvm::ArrayRef<const Expr *> A)
  {
    J.attributeBegin(key);
    J.arrayBegin();
    for (auto *E : A) J.value(Id(E));
    J.arrayEnd();
    J.attributeEnd();
  }

  static const Expr *Strip(const Expr *E)
  {
    while (E) {
      if (auto *P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
      else if (auto *X = dyn_cast<FullExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
      else if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) E = X->getSubExpr();
      else break;
    }
    return E;
  }

  void EmitStmt(const Stmt *S, std::vector<std::pair<const FunctionDecl *, std::string>> &lams)
  {
    J.objectBegin();
    J.attribute("l", Line(S->getBeginLoc()));
    if (S->getBeginLoc().isMacroID()) {
      auto nm = Lexer::getImmediateMacroName(S->getBeginLoc(), SM, Ctx.getLangOpts());
      (void)nm;
      SourceLocation L = S->getBeginLoc();
      std::string top;
      while (L.isMacroID()) {
        top = Lexer::getImmediateMacroName(L, SM, Ctx.getLangOpts()).str();
        L = SM.getImmediateMacroCallerLoc(L);
      }
      J.attribute("mac", top);
    }
    if (auto *E = dyn_cast<Expr>(S)) {
      const Expr *P = Strip(E);
      if (P != E) {
        J.attribute("k", "alias");
        J.attribute("a", Id(P));
        if (isa<CXXBindTemporaryExpr>(E)) J.attribute("bind", true);
        J.attribute("t", Ty(E->getType()));
        J.attribute("c", Cls(E->getType()));
        J.objectEnd();
        return;
      }
      J.attribute("t", Ty(E->getType()));
      {
        auto c = Cls(E->getType());
        if (!c.empty()) J.attribute("c", c);
      }
      if (E->isGLValue()) J.attribute("lv", true);
      if (E->getType()->isIntegerType() && E->getType()->isUnsignedIntegerOrEnumerationType() &&
          !E->getType()->isEnumeralType())
        J.attribute("u", (int64_t)Ctx.getIntWidth(E->getType()));
      else if (E->getType()->isIntegerType() && !E->getType()->isEnumeralType())
        J.attribute("i", (int64_t)Ctx.getIntWidth(E->getType()));
      // constant folding (enumerators, sizeof, constexpr, literals)
      if (!E->isValueDependent() && !E->isGLValue() &&
          E->getType()->isIntegralOrEnumerationType() &&
          !isa<CallExpr>(E)) {
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects)) {
          auto &v = R.Val.getInt();
          if (v.getSignificantBits() <= 64)
            J.attribute("cv", v.isSigned() || v.getActiveBits() < 64
                                  ? v.getExtValue()
                                  : (int64_t)v.getZExtValue());
        }
      }
    }
    if (auto *X = dyn_cast<IntegerLiteral>(S)) { (void)X; J.attribute("k", "int"); }
    else if (isa<CXXBoolLiteralExpr>(S)) J.attribute("k", "int");
    else if (isa<CharacterLiteral>(S)) J.attribute("k", "int");
    else if (isa<UnaryExprOrTypeTraitExpr>(S)) J.attribute("k", "int");
    else if (isa<TypeTraitExpr>(S)) J.attribute("k", "int");
    else if (isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S)) J.attribute("k", "null");
    else if (auto *X = dyn_cast<FloatingLiteral>(S)) {
      J.attribute("k", "float");
      SmallString<16> str;
      X->getValue().toString(str);
      J.attribute("s", str.str().str());
    } else if (auto *X = dyn_cast<StringLiteral>(S)) {
      J.attribute("k", "str");
      if (X->getCharByteWidth() == 1) {
        std::string b = X->getBytes().str();
        J.attribute("s", llvm::json::isUTF8(b) ? b : llvm::json::fixUTF8(b));
        J.attribute("len", (int64_t)X->getLength());
      }
    } else if (isa<PredefinedExpr>(S)) {
      J.attribute("k", "str");
      J.attribute("s", "__func__");
    } else if (auto *X = dyn_cast<DeclRefExpr>(S)) {
      const ValueDecl *D = X->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        J.attribute("k", "fref");
        Fn("f", F);
      } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        J.attribute("k", "enum");
        J.attribute("n", QName(EC));
      } else {
        J.attribute("k", "var");
        J.attribute("v", VarRef(D));
        J.attribute("n", D->getNameAsString());
        if (X->refersToEnclosingVariableOrCapture()) J.attribute("cap", true);
        J.attribute("dt", Ty(D->getType()));
      }
    } else if (auto *X = dyn_cast<MemberExpr>(S)) {
      const ValueDecl *D = X->getMemberDecl();
      J.attribute("b", Id(X->getBase()));
      J.attribute("arrow", X->isArrow());
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        J.attribute("k", "mref");
        Fn("f", F);
      } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        J.attribute("k", "enum");
        J.attribute("n", QName(EC));
      } else if (isa<FieldDecl>(D)) {
        J.attribute("k", "field");
        J.attribute("n", QName(D));
        J.attribute("dt", Ty(D->getType()));
        J.attribute("dc", Cls(D->getType()));
      } else {
        J.attribute("k", "var");
        J.attribute("v", VarRef(D));
        J.attribute("n", D->getNameAsString());
        J.attribute("dt", Ty(D->getType()));
      }
    } else if (isa<CXXThisExpr>(S)) {
      J.attribute("k", "this");
    } else if (auto *X = dyn_cast<UnaryOperator>(S)) {
      J.attribute("k", "un");
      J.attribute("op", UnaryOperator::getOpcodeStr(X->getOpcode()).str() + (X->isPostfix() ? "post" : ""));
      J.attribute("a", Id(X->getSubExpr()));
    } else if (auto *X = dyn_cast<BinaryOperator>(S)) {
      J.attribute("k", "bin");
      J.attribute("op", X->getOpcodeStr().str());
      J.attribute("a", Id(X->getLHS()));
      J.attribute("r", Id(X->getRHS()));
    } else if (auto *X = dyn_cast<CXXOperatorCallExpr>(S)) {
      J.attribute("k", "call");
      J.attribute("opc", getOperatorSpelling(X->getOperator()));
      if (auto *F = X->getDirectCallee()) {
        Fn("f", F);
        if (isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) {
          J.attribute("o", Id(X->getArg(0)));
          std::vector<const Expr *> A;
          for (unsigned i = 1; i < X->getNumArgs(); ++i) A.push_back(X->getArg(i));
          Ids("args", A);
        } else {
          std::vector<const Expr *> A(X->arg_begin(), X->arg_end());
          Ids("args", A);
        }
      } else {
        std::vector<const Expr *> A(X->arg_begin(), X->arg_end());
        Ids("args", A);
      }
    } else if (auto *X = dyn_cast<CXXMemberCallExpr>(S)) {
      J.attribute("k", "call");
      if (auto *F = X->getMethodDecl()) {
        Fn("f", F);
        // devirtualised: qualified call Base::f()
        if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens()))
          if (ME->hasQualifier()) J.attribute("qualcall", true);
      } else
        J.attribute("cx", Id(X->getCallee()));
      if (auto *O = X->getImplicitObjectArgument()) {
        J.attribute("o", Id(O));
        J.attribute("oc", Cls(O->getType()));
      }
      std::vector<const Expr *> A(X->arg_begin(), X->arg_end());
      Ids("args", A);
    } else if (auto *X = dyn_cast<CallExpr>(S)) {
      J.attribute("k", "call");
      if (auto *F = X->getDirectCallee()) Fn("f", F);
      else J.attribute("cx", Id(X->getCallee()));
      std::vector<const Expr *> A(X->arg_begin(), X->arg_end());
      Ids("args", A);
    } else if (auto *X = dyn_cast<CXXConstructExpr>(S)) {
      J.attribute("k", "ctor");
      Fn("f", X->getConstructor());
      std::vector<const Expr *> A(X->arg_begin(), X->arg_end());
      Ids("args", A);
      J.attribute("elide", X->isElidable());
      J.attribute("cpmv", X->getConstructor()->isCopyConstructor() ? "copy"
                          : X->getConstructor()->isMoveConstructor() ? "move" : "");
    } else if (auto *X = dyn_cast<CXXNewExpr>(S)) {
      J.attribute("k", "new");
      J.attribute("at", Ty(X->getAllocatedType()));
      J.attribute("ac", Cls(X->getAllocatedType()));
      J.attribute("array", X->isArray());
      if (X->isArray() && X->getArraySize() && *X->getArraySize()) J.attribute("asz", Id(*X->getArraySize()));
      if (X->getInitializer()) J.attribute("a", Id(X->getInitializer()));
      std::vector<const Expr *> A(X->placement_arg_begin(), X->placement_arg_end());
      Ids("pargs", A);
    } else if (auto *X = dyn_cast<CXXDeleteExpr>(S)) {
      J.attribute("k", "delete");
      J.attribute("array", X->isArrayForm());
      J.attribute("a", Id(X->getArgument()));
    } else if (auto *X = dyn_cast<CastExpr>(S)) {
      J.attribute("k", "cast");
      J.attribute("ck", X->getCastKindName());
      J.attribute("a", Id(X->getSubExpr()));
      if (isa<ExplicitCastExpr>(X)) J.attribute("ex", X->getStmtClassName());
      if (X->getCastKind() == CK_UserDefinedConversion ||
          X->getCastKind() == CK_ConstructorConversion) {
        J.attribute("userconv", true);
      }
    } else if (auto *X = dyn_cast<AbstractConditionalOperator>(S)) {
      J.attribute("k", "cond");
      J.attribute("q0", Id(X->getCond()));
      J.attribute("a", Id(X->getTrueExpr()));
      J.attribute("r", Id(X->getFalseExpr()));
    } else if (auto *X = dyn_cast<OpaqueValueExpr>(S)) {
      J.attribute("k", "alias");
      J.attribute("a", X->getSourceExpr() ? Id(X->getSourceExpr()) : -1);
    } else if (auto *X = dyn_cast<LambdaExpr>(S)) {
      J.attribute("k", "lambda");
      const FunctionDecl *Op = X->getCallOperator();
      auto it = LambdaIds.find(Op->getCanonicalDecl());
      std::string lid;
      if (it != LambdaIds.end()) lid = it->second;
      else {
        lid = CurId + "$L" + std::to_string(LambdaCount++);
        LambdaIds[Op->getCanonicalDecl()] = lid;
      }
      lams.push_back({Op, lid});
      J.attribute("f", lid);
      J.attributeBegin("caps");
      J.arrayBegin();
      auto I = X->capture_init_begin();
      auto FI = X->getLambdaClass()->field_begin();
      for (auto &C : X->captures()) {
        J.objectBegin();
        if (C.capturesThis()) J.attribute("this", true);
        else if (C.capturesVariable()) {
          J.attribute("v", VarRef(C.getCapturedVar()));
          J.attribute("n", C.getCapturedVar()->getNameAsString());
        }
        J.attribute("ref", C.getCaptureKind() == LCK_ByRef);
        if (*I) J.attribute("x", Id(*I));
        J.attribute("t", Ty(FI->getType()));
        J.attribute("c", Cls(FI->getType()));
        J.objectEnd();
        ++I;
        ++FI;
      }
      J.arrayEnd();
      J.attributeEnd();
    } else if (auto *X = dyn_cast<InitListExpr>(S)) {
      J.attribute("k", "initlist");
      std::vector<const Expr *> A(X->inits().begin(), X->inits().end());
      Ids("args", A);
      if (auto *RT = X->getType()->getAs<RecordType>(); RT && !RT->getDecl()->isUnion()) {
        J.attributeBegin("fs");
        J.arrayBegin();
        for (auto *D : RT->getDecl()->fields()) J.value(QName(D));
        J.arrayEnd();
        J.attributeEnd();
      }
    } else if (auto *X = dyn_cast<ArraySubscriptExpr>(S)) {
      J.attribute("k", "index");
      J.attribute("a", Id(X->getBase()));
      J.attribute("r", Id(X->getIdx()));
    } else if (isa<ImplicitValueInitExpr>(S) || isa<CXXScalarValueInitExpr>(S)) {
      J.attribute("k", "zero");
    } else if (auto *X = dyn_cast<CXXThrowExpr>(S)) {
      J.attribute("k", "throw");
      if (X->getSubExpr()) J.attribute("a", Id(X->getSubExpr()));
    } else if (auto *X = dyn_cast<ReturnStmt>(S)) {
      J.attribute("k", "return");
      if (X->getRetValue()) J.attribute("a", Id(X->getRetValue()));
    } else if (auto *X = dyn_cast<DeclStmt>(S)) {
      J.attribute("k", "decl");
      J.attributeBegin("vars");
      J.arrayBegin();
      for (auto *D : X->decls()) {
        auto *V = dyn_cast<VarDecl>(D);
        if (!V) continue;
        J.objectBegin();
        J.attribute("v", VarRef(V));
        J.attribute("n", V->getNameAsString());
        J.attribute("t", Ty(V->getType()));
        J.attribute("c", Cls(V->getType()));
        J.attribute("ref", V->getType()->isReferenceType());
        if (V->isStaticLocal()) J.attribute("static", true);
        if (V->getInit()) J.attribute("x", Id(V->getInit()));
        if (auto *AT = Ctx.getAsConstantArrayType(V->getType()))
          J.attribute("alen", (int64_t)AT->getSize().getZExtValue());
        J.objectEnd();
      }
      J.arrayEnd();
      J.attributeEnd();
    } else {
      J.attribute("k", "other");
      J.attribute("sc", S->getStmtClassName());
      std::vector<const Expr *> A;
      for (const Stmt *C : S->children())
        if (auto *E = dyn_cast_or_null<Expr>(C)) A.push_back(E);
      Ids("args", A);
    }
    J.objectEnd();
  }

  // --------------------------------------------------------- records etc.
  void EmitRecord(const CXXRecordDecl *R)
  {
    J.objectBegin();
    J.attribute("q", QName(R));
    std::string tn;
    { llvm::raw_string_ostream os(tn); R->getNameForDiagnostic(os, Policy, true); }
    J.attribute("t", tn);
    J.attribute("file", Abs(SM.getFilename(SM.getExpansionLoc(R->getLocation()))));
    J.attribute("line", Line(R->getLocation()));
    J.attributeBegin("bases");
    J.arrayBegin();
    for (auto &B : R->bases()) J.value(Cls(B.getType()));
    J.arrayEnd();
    J.attributeEnd();
    J.attribute("trivdtor", R->hasTrivialDestructor());
    J.attribute("userdtor", R->hasUserDeclaredDestructor());
    if (auto *D = R->getDestructor()) {
      J.attribute("virtdtor", D->isVirtual());
      if (!D->isDeleted() && !D->isDependentContext()) J.attribute("dtor", Mangled(D));
    }
    J.attribute("poly", R->isPolymorphic());
    {
      bool cc = false, mc = false, ca = false, ma = false;
      for (auto *C : R->ctors()) {
        if (!C->isUserProvided()) continue;
        if (C->isCopyConstructor()) cc = true;
        else if (C->isMoveConstructor()) mc = true;
      }
      for (auto *M : R->methods()) {
        if (!M->isUserProvided()) continue;
        if (M->isCopyAssignmentOperator()) ca = true;
        else if (M->isMoveAssignmentOperator()) ma = true;
      }
      J.attribute("ownCC", cc);
      J.attribute("ownMC", mc);
      J.attribute("ownCA", ca);
      J.attribute("ownMA", ma);
    }
    J.attributeBegin("fields");
    J.arrayBegin();
    for (auto *F : R->fields()) {
      J.objectBegin();
      J.attribute("n", QName(F));
      J.attribute("sn", F->getNameAsString());
      J.attribute("t", Ty(F->getType()));
      J.attribute("c", Cls(F->getType()));
      J.attribute("line", Line(F->getLocation()));
      J.attribute("init", F->hasInClassInitializer());
      if (F->isMutable()) J.attribute("mutable", true);
      if (auto *AT = Ctx.getAsConstantArrayType(F->getType()))
        J.attribute("alen", (int64_t)AT->getSize().getZExtValue());
      J.objectEnd();
    }
    J.arrayEnd();
    J.attributeEnd();
    J.objectEnd();
  }
  void EmitEnum(const EnumDecl *E)
  {
    J.objectBegin();
    J.attribute("q", QName(E));
    J.attributeBegin("vals");
    J.arrayBegin();
    for (auto *C : E->enumerators()) {
      J.arrayBegin();
      J.value(QName(C));
      J.value(C->getInitVal().getExtValue());
      J.arrayEnd();
    }
    J.arrayEnd();
    J.attributeEnd();
    J.objectEnd();
  }
  void EmitGlobal(const VarDecl *V)
  {
    J.objectBegin();
    J.attribute("q", V->isStaticLocal() ? VarRef(V) : QName(V));
    J.attribute("t", Ty(V->getType()));
    J.attribute("c", Cls(V->getType()));
    J.attribute("file", Abs(SM.getFilename(SM.getExpansionLoc(V->getLocation()))));
    J.attribute("line", Line(V->getLocation()));
    J.attribute("const", V->getType().isConstQualified());
    J.attribute("tls", V->getTLSKind() != VarDecl::TLS_None);
    if (auto *AT = Ctx.getAsConstantArrayType(V->getType()))
      J.attribute("alen", (int64_t)AT->getSize().getZExtValue());
    if (V->getInit() && !V->getInit()->isValueDependent() &&
        V->getType()->isIntegralOrEnumerationType()) {
      Expr::EvalResult R;
      if (V->getInit()->EvaluateAsInt(R, Ctx))
        J.attribute("cv", R.Val.getInt().getExtValue());
    }
    if (auto *IL = dyn_cast_or_null<InitListExpr>(V->getInit())) {
      J.attribute("ninit", (int64_t)IL->getNumInits());
      J.attributeBegin("strs");
      J.arrayBegin();
      for (auto *I : IL->inits()) {
        auto *SL = dyn_cast<StringLiteral>(I->IgnoreParenImpCasts());
        if (SL) J.value(llvm::json::fixUTF8(SL->getBytes())); else J.value(nullptr);
      }
      J.arrayEnd();
      J.attributeEnd();
    }
    J.objectEnd();
  }

  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy Policy;
  json::OStream J;
  std::unique_ptr<MangleContext> Mangle;
  std::set<std::string> Seen;
  std::set<const CXXRecordDecl *> RecordSeen;
  std::vector<const CXXRecordDecl *> RecordList;
  std::vector<const EnumDecl *> Enums;
  std::vector<const VarDecl *> Globals;
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext &C) override
  {
    std::error_code EC;
    llvm::raw_fd_ostream os(OutFile, EC);
    Dumper D(C, os);
    D.Run();
  }
};
class Action : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override
  {
    CI.getDiagnostics().setSuppressAllDiagnostics(false);
    return std::make_unique<Consumer>();
  }
};
} // namespace

// usage: kfacts ROOT OUT SOURCE -- flags...
int main(int argc, char **argv)
{
  if (argc < 5) return 2;
  Root = argv[1];
  OutFile = argv[2];
  std::string Src = argv[3];
  std::vector<std::string> Flags;
  for (int i = 5; i < argc; ++i) Flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool Tool(DB, {Src});
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
