// Extractor: dumps the resolved, typed syntax tree of the functions that are defined under the given
// source roots as JSON.  Analysis input only; nothing of the analysed program is executed.
//
//   extract OUT.json TAG ROOT[:ROOT...] MAINFILE -- COMPILER-FLAGS...
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/Mangle.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <deque>

using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::string OutPath, Tag;
static std::vector<std::string> Roots;
static bool HadErrors = false;

class Dumper : public RecursiveASTVisitor<Dumper> {
  ASTContext &C;
  SourceManager &SM;
  std::unique_ptr<MangleContext> MC;
  PrintingPolicy PP;
  Object Types, Records, Functions, Globals;
  Array Asserts;
  std::map<const Decl *, std::string> VarIds;
  std::map<const CXXRecordDecl *, std::string> LambdaKeys;
  std::map<std::string, int> LambdaCount, StaticCount;
  std::map<const VarDecl *, std::string> StaticIds;
  std::set<const CXXRecordDecl *> SeenRec;
  std::set<const FunctionDecl *> SeenFn;
  std::deque<const FunctionDecl *> Work;
  std::set<std::string> SeenGlobal;
  unsigned Serial = 0;
  const FunctionDecl *Cur = nullptr;

public:
  Dumper(ASTContext &C)
      : C(C), SM(C.getSourceManager()), MC(C.createMangleContext()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressUnwrittenScope = false;
    PP.Bool = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  // ---------- locations
  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    auto F = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!F) return "";
    auto RP = F->getFileEntry().tryGetRealPathName();
    return RP.empty() ? F->getName().str() : RP.str();
  }
  unsigned lineOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return L.isInvalid() ? 0 : SM.getExpansionLineNumber(L);
  }
  bool inRoots(SourceLocation L) {
    auto F = fileOf(L);
    for (auto &R : Roots)
      if (F.compare(0, R.size(), R) == 0) return true;
    return false;
  }
  std::string relFile(SourceLocation L) {
    auto F = fileOf(L);
    for (auto &R : Roots)
      if (F.compare(0, R.size(), R) == 0) {
        auto S = F.substr(R.size());
        if (!S.empty() && S[0] == '/') S = S.substr(1);
        return S;
      }
    return F;
  }

  // ---------- names
  std::string qual(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->printQualifiedName(OS, PP);
    return OS.str();
  }
  std::string recKey(const CXXRecordDecl *R) {
    R = R->getCanonicalDecl();
    if (R->isLambda()) {
      auto It = LambdaKeys.find(R);
      if (It != LambdaKeys.end()) return It->second;
      std::string Ctx = "file";
      const DeclContext *DC = R->getDeclContext();
      while (DC && !DC->isFunctionOrMethod() && !DC->isFileContext()) DC = DC->getParent();
      if (DC)
        if (auto *F = dyn_cast<FunctionDecl>(DC)) Ctx = fnId(F);
      if (Ctx == "file") Ctx = "file:" + relFile(R->getLocation());
      int N = LambdaCount[Ctx]++;
      return LambdaKeys[R] = "lambda(" + Ctx + ")#" + std::to_string(N);
    }
    QualType T = C.getRecordType(R);
    std::string S = T.getAsString(PP);
    if (!R->isExternallyVisible()) S += "@" + relFile(R->getLocation());
    return S;
  }
  std::string linkSuffix(const NamedDecl *D) {
    if (D->isExternallyVisible()) return "";
    return "@" + relFile(D->getLocation());
  }
  std::string fnId(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->getParent()->isLambda()) {
        std::string K = recKey(M->getParent());
        if (M == M->getParent()->getLambdaCallOperator()) {
          return K + "::operator()";
        }
        std::string S = K + "::" + M->getNameAsString();
        for (auto *P : M->parameters()) S += "," + P->getType().getAsString(PP);
        return S;
      }
    }
    std::string S;
    llvm::raw_string_ostream OS(S);
    if (auto *D = dyn_cast<CXXConstructorDecl>(F))
      MC->mangleName(GlobalDecl(D, Ctor_Complete), OS);
    else if (auto *D = dyn_cast<CXXDestructorDecl>(F))
      MC->mangleName(GlobalDecl(D, Dtor_Complete), OS);
    else if (MC->shouldMangleDeclName(F))
      MC->mangleName(GlobalDecl(F), OS);
    else
      OS << F->getNameAsString();
    OS.flush();
    const FunctionDecl *Def = nullptr;
    if (!F->isExternallyVisible() && inRoots(F->getLocation())) {
      if (!F->hasBody(Def)) Def = F;
      S += "@" + relFile(Def->getLocation());
    }
    return S;
  }
  std::string varId(const VarDecl *V) {
    V = V->getCanonicalDecl();
    if (V->isStaticLocal()) {
      auto It = StaticIds.find(V);
      if (It != StaticIds.end()) return It->second;
      std::string Ctx = "?";
      if (auto *F = dyn_cast<FunctionDecl>(V->getDeclContext())) Ctx = fnId(F);
      std::string K = Ctx + "::" + V->getNameAsString();
      int N = StaticCount[K]++;
      if (N) K += "#" + std::to_string(N);
      return StaticIds[V] = K;
    }
    if (V->hasGlobalStorage()) {
      std::string S = qual(V);
      if (!V->isExternallyVisible()) S += "@" + relFile(V->getLocation());
      return S;
    }
    auto It = VarIds.find(V);
    if (It != VarIds.end()) return It->second;
    std::string S = Tag + "v" + std::to_string(Serial++);
    VarIds[V] = S;
    return S;
  }
  std::string fieldName(const FieldDecl *F) {
    if (!F->getName().empty()) return F->getNameAsString();
    return "#" + std::to_string(F->getFieldIndex());
  }

  // ---------- types
  std::string ty(QualType Q) {
    if (Q.isNull()) return "";
    Q = Q.getCanonicalType();
    std::string S;
    if (auto *R = Q->getAsCXXRecordDecl()) {
      S = recKey(R);
      if (Q.isConstQualified()) S = "const " + S;
    } else if (Q->isReferenceType() || Q->isPointerType()) {
      S = ty(Q->getPointeeType()) +
          (Q->isPointerType() ? "*" : Q->isRValueReferenceType() ? "&&" : "&");
      if (Q.isConstQualified()) S += " const";
    } else
      S = Q.getAsString(PP);
    if (Types.find(S) != Types.end()) return S;
    Types[S] = nullptr;
    Object O;
    if (Q.isConstQualified()) O["const"] = true;
    if (Q.isVolatileQualified()) O["vol"] = true;
    if (auto *R = Q->getAsCXXRecordDecl()) {
      O["k"] = "rec";
      O["rec"] = recKey(R);
      noteRecord(R);
    } else if (Q->isPointerType()) {
      O["k"] = "ptr";
      O["el"] = ty(Q->getPointeeType());
    } else if (Q->isReferenceType()) {
      O["k"] = Q->isRValueReferenceType() ? "rref" : "lref";
      O["el"] = ty(Q->getPointeeType());
    } else if (Q->isBooleanType())
      O["k"] = "bool";
    else if (Q->isEnumeralType()) {
      O["k"] = "enum";
    } else if (Q->isIntegerType()) {
      O["k"] = "int";
      O["bits"] = (int64_t)C.getTypeSize(Q);
      O["sgn"] = Q->isSignedIntegerType();
    } else if (Q->isRealFloatingType())
      O["k"] = "float";
    else if (Q->isVoidType())
      O["k"] = "void";
    else if (Q->isNullPtrType())
      O["k"] = "nullptr";
    else if (Q->isArrayType()) {
      O["k"] = "array";
      if (auto *A = C.getAsConstantArrayType(Q)) O["n"] = (int64_t)A->getSize().getZExtValue();
      O["el"] = ty(C.getAsArrayType(Q)->getElementType());
    } else if (Q->isFunctionType())
      O["k"] = "func";
    else if (Q->isMemberPointerType())
      O["k"] = "memptr";
    else
      O["k"] = "other";
    Types[S] = std::move(O);
    return S;
  }

  void noteRecord(const CXXRecordDecl *R) {
    R = R->getCanonicalDecl();
    if (!SeenRec.insert(R).second) return;
    std::string K = recKey(R);
    const CXXRecordDecl *D = R->getDefinition();
    Object O;
    O["name"] = qual(R);
    O["repo"] = inRoots(R->getLocation());
    O["file"] = relFile(R->getLocation());
    O["line"] = (int64_t)lineOf(R->getLocation());
    if (R->isLambda()) O["lambda"] = true;
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
      Array A;
      std::function<void(const TemplateArgument &)> add = [&](const TemplateArgument &T) {
        if (T.getKind() == TemplateArgument::Type)
          A.push_back(ty(T.getAsType()));
        else if (T.getKind() == TemplateArgument::Pack)
          for (auto &P : T.pack_elements()) add(P);
        else if (T.getKind() == TemplateArgument::Integral)
          A.push_back((int64_t)T.getAsIntegral().getExtValue());
        else
          A.push_back(nullptr);
      };
      for (auto &T : S->getTemplateArgs().asArray()) add(T);
      O["targs"] = std::move(A);
    }
    if (D) {
      Array Bases;
      for (auto &B : D->bases())
        if (auto *BR = B.getType()->getAsCXXRecordDecl()) {
          Bases.push_back(recKey(BR));
          noteRecord(BR);
        }
      O["bases"] = std::move(Bases);
      O["trivdtor"] = D->hasTrivialDestructor();
      O["trivcopy"] = D->isTriviallyCopyable();
      O["poly"] = D->isPolymorphic();
      O["agg"] = D->isAggregate();
      if (D->isUnion()) O["union"] = true;
      bool Repo = inRoots(R->getLocation());
      if (Repo || R->isLambda()) {
        Array Fs;
        for (auto *F : D->fields()) {
          Object FO;
          FO["n"] = fieldName(F);
          FO["t"] = ty(F->getType());
          FO["l"] = (int64_t)lineOf(F->getLocation());
          if (F->isMutable()) FO["mut"] = true;
          if (F->hasInClassInitializer()) FO["hasinit"] = true;
          Fs.push_back(std::move(FO));
        }
        O["fields"] = std::move(Fs);
        if (auto *DD = D->getDestructor()) {
          O["dtor"] = fnId(DD);
          O["virtdtor"] = DD->isVirtual();
          queueFn(DD);
        }
        Array Ms;
        for (auto *M : D->methods()) {
          Object MO;
          MO["id"] = fnId(M);
          MO["n"] = M->getNameAsString();
          if (M->isVirtual()) MO["virt"] = true;
          if (M->isPureVirtual()) MO["pure"] = true;
          if (M->isDeleted()) MO["deleted"] = true;
          if (M->isImplicit()) MO["implicit"] = true;
          if (M->getAccess() == AS_private) MO["private"] = true;
          if (auto *CD = dyn_cast<CXXConstructorDecl>(M)) {
            MO["ctor"] = CD->isCopyConstructor() ? "copy" : CD->isMoveConstructor() ? "move" : CD->isDefaultConstructor() ? "default" : "other";
          }
          if (M->isCopyAssignmentOperator()) MO["asg"] = "copy";
          if (M->isMoveAssignmentOperator()) MO["asg"] = "move";
          if (M->size_overridden_methods()) {
            Array Ov;
            for (auto *B : M->overridden_methods()) Ov.push_back(fnId(B));
            MO["overrides"] = std::move(Ov);
          }
          Ms.push_back(std::move(MO));
          queueFn(M);
        }
        O["methods"] = std::move(Ms);
        if (R->isLambda()) {
          O["callop"] = fnId(D->getLambdaCallOperator());
          if (auto *FT = D->getDependentLambdaCallOperator()) {
            // a generic lambda: the bodies are those of the specializations in use
            Array Ops;
            for (auto *S : FT->specializations()) {
              if (!S->getDefinition()) continue;
              Ops.push_back(fnId(S));
              queueFn(S);
            }
            O["callops"] = std::move(Ops);
          } else
            queueFn(D->getLambdaCallOperator());
        }
      }
    }
    Records[K] = std::move(O);
  }

  void queueFn(const FunctionDecl *F) {
    if (!F) return;
    if (F->isDependentContext()) return;
    const FunctionDecl *Def = nullptr;
    if (!F->hasBody(Def) ) {
      // implicit/defaulted functions that Sema defined have a body; others do not
      if (auto *D = F->getDefinition()) Def = D; else return;
    }
    if (!Def->hasBody()) return;
    if (!inRoots(Def->getLocation())) {
      bool Ok = false;
      if (auto *M = dyn_cast<CXXMethodDecl>(Def))
        Ok = inRoots(M->getParent()->getLocation());
      if (!Ok) return;
    }
    if (SeenFn.insert(Def).second) Work.push_back(Def);
  }

  // ---------- expressions
  Value intNode(const llvm::APSInt &V, QualType T) {
    Object O;
    O["k"] = "int";
    llvm::SmallString<32> S;
    V.toString(S, 10);
    O["v"] = std::string(S);
    O["t"] = ty(T);
    return O;
  }
  Value exprs(llvm::ArrayRef<const Expr *> Es) {
    Array A;
    for (auto *E : Es) A.push_back(expr(E));
    return A;
  }
  template <class It> Array args(It B, It E) {
    Array A;
    for (; B != E; ++B) A.push_back(expr(*B));
    return A;
  }
  void fnRef(Object &O, const FunctionDecl *F) {
    O["fn"] = fnId(F);
    O["n"] = qual(F);
    if (!inRoots(F->getLocation())) O["ext"] = true;
    if (F->isNoReturn()) O["noret"] = true;
    if (auto *FT = F->getType()->getAs<FunctionProtoType>())
      if (FT->isNothrow()) O["nothrow"] = true;
    Array PT;
    for (auto *P : F->parameters()) PT.push_back(ty(P->getType()));
    O["pt"] = std::move(PT);
    if (F->isVariadic()) O["variadic"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["mrec"] = recKey(M->getParent());
      noteRecord(M->getParent());
      if (M->isConst()) O["cm"] = true;
      if (M->isStatic()) O["sm"] = true;
    }
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      Array A;
      for (auto &T : TA->asArray()) {
        if (T.getKind() == TemplateArgument::Type) A.push_back(ty(T.getAsType()));
        else if (T.getKind() == TemplateArgument::Pack) {
          for (auto &P : T.pack_elements())
            if (P.getKind() == TemplateArgument::Type) A.push_back(ty(P.getAsType()));
        } else if (T.getKind() == TemplateArgument::Integral)
          A.push_back("#" + llvm::toString(T.getAsIntegral(), 10));
        else A.push_back(nullptr);
      }
      O["ta"] = std::move(A);
    }
    queueFn(F);
  }
  Value varRef(const ValueDecl *D, QualType T) {
    Object O;
    O["t"] = ty(T);
    if (auto *V = dyn_cast<VarDecl>(D)) {
      O["k"] = "var";
      O["id"] = varId(V);
      O["n"] = V->getNameAsString();
      if (V->getType()->isReferenceType()) O["ref"] = true;
      O["vk"] = isa<ParmVarDecl>(V) ? "param" : V->isStaticLocal() ? "static" : V->hasGlobalStorage() ? "global" : "local";
      if (V->hasGlobalStorage()) noteGlobal(V);
      return O;
    }
    if (auto *F = dyn_cast<FunctionDecl>(D)) {
      O["k"] = "fn";
      fnRef(O, F);
      O["id"] = fnId(F);
      return O;
    }
    if (auto *B = dyn_cast<BindingDecl>(D)) {
      if (auto *H = B->getHoldingVar()) return varRef(H, H->getType());
      if (B->getBinding()) return expr(B->getBinding());
    }
    O["k"] = "opaque";
    O["kind"] = D->getDeclKindName();
    O["n"] = D->getNameAsString();
    return O;
  }
  void noteGlobal(const VarDecl *V) {
    const VarDecl *Def = V->getDefinition() ? V->getDefinition() : V->getCanonicalDecl();
    std::string Id = varId(V);
    if (!SeenGlobal.insert(Id).second) return;
    if (!inRoots(Def->getLocation())) {
      Object O;
      O["n"] = qual(V);
      O["t"] = ty(V->getType());
      O["ext"] = true;
      Globals[Id] = std::move(O);
      return;
    }
    Object O;
    O["n"] = qual(V);
    O["t"] = ty(V->getType());
    O["file"] = relFile(Def->getLocation());
    O["line"] = (int64_t)lineOf(Def->getLocation());
    if (V->isStaticLocal()) O["staticlocal"] = true;
    if (V->getTLSKind() != VarDecl::TLS_None) O["tls"] = true;
    if (V->getType().isConstQualified()) O["const"] = true;
    if (V->isConstexpr()) O["constexpr"] = true;
    if (!V->isExternallyVisible()) O["internal"] = true;
    if (Def->getAnyInitializer() && !Def->isStaticLocal()) O["init"] = expr(Def->getAnyInitializer());
    Globals[Id] = std::move(O);
  }
  Value mk(const char *K, const Expr *E, Object O = {}) {
    O["k"] = K;
    O["t"] = ty(E->getType());
    O["l"] = (int64_t)lineOf(E->getExprLoc());
    if (E->isGLValue()) O["lv"] = E->isXValue() ? 2 : 1;
    return O;
  }
  Value expr(const Expr *E) {
    if (!E) return nullptr;
    if (auto *P = dyn_cast<ParenExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<ConstantExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) return expr(P->getExpr());
    if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) return expr(P->getExpr());
    if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(P->getReplacement());
    if (auto *P = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(P->getSemanticForm());
    if (auto *P = dyn_cast<OpaqueValueExpr>(E))
      if (P->getSourceExpr()) return expr(P->getSourceExpr());
    if (E->isValueDependent() || E->isTypeDependent()) {
      return mk("opaque", E, Object{{"kind", "dependent"}});
    }
    QualType T = E->getType();
    if (E->isPRValue() && T->isIntegralOrEnumerationType() && !isa<InitListExpr>(E)) {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, C) && !R.HasSideEffects && !R.HasUndefinedBehavior)
        return intNode(R.Val.getInt(), T);
    }
    switch (E->getStmtClass()) {
    case Stmt::FloatingLiteralClass: {
      Object O;
      O["v"] = cast<FloatingLiteral>(E)->getValueAsApproximateDouble();
      return mk("float", E, std::move(O));
    }
    case Stmt::StringLiteralClass: {
      Object O;
      auto *S = cast<StringLiteral>(E);
      std::string B = S->getCharByteWidth() == 1 ? S->getString().str() : S->getBytes().str();
      std::string X;
      for (unsigned char c : B) {
        if (c < 0x80 && c) X += (char)c;
        else { static const char *H = "0123456789abcdef"; X += "\\x"; X += H[c >> 4]; X += H[c & 15]; }
      }
      O["v"] = X;
      return mk("str", E, std::move(O));
    }
    case Stmt::PredefinedExprClass: {
      Object O;
      auto *P = cast<PredefinedExpr>(E);
      O["v"] = P->getFunctionName() ? P->getFunctionName()->getString().str() : "";
      O["pre"] = true;
      return mk("str", E, std::move(O));
    }
    case Stmt::CXXNullPtrLiteralExprClass:
    case Stmt::GNUNullExprClass:
      return mk("null", E);
    case Stmt::DeclRefExprClass: {
      auto *D = cast<DeclRefExpr>(E);
      return varRef(D->getDecl(), T);
    }
    case Stmt::CXXThisExprClass:
      return mk("this", E);
    case Stmt::MemberExprClass: {
      auto *M = cast<MemberExpr>(E);
      if (auto *F = dyn_cast<FieldDecl>(M->getMemberDecl())) {
        Object O;
        O["b"] = expr(M->getBase());
        O["arrow"] = M->isArrow();
        O["f"] = fieldName(F);
        O["rec"] = recKey(cast<CXXRecordDecl>(F->getParent()));
        if (F->getType()->isReferenceType()) O["ref"] = true;
        noteRecord(cast<CXXRecordDecl>(F->getParent()));
        return mk("mem", E, std::move(O));
      }
      return varRef(M->getMemberDecl(), T);
    }
    case Stmt::CXXMemberCallExprClass: {
      auto *X = cast<CXXMemberCallExpr>(E);
      Object O;
      const CXXMethodDecl *MD = X->getMethodDecl();
      const Expr *Cal = X->getCallee()->IgnoreParenImpCasts();
      if (MD) {
        fnRef(O, MD);
        O["obj"] = expr(X->getImplicitObjectArgument());
        if (auto *ME = dyn_cast<MemberExpr>(Cal)) {
          O["arrow"] = ME->isArrow();
          if (MD->isVirtual() && !ME->hasQualifier()) O["virt"] = true;
        }
      } else {
        O["ce"] = expr(Cal);
      }
      O["args"] = args(X->arg_begin(), X->arg_end());
      return mk("call", E, std::move(O));
    }
    case Stmt::CXXOperatorCallExprClass: {
      auto *X = cast<CXXOperatorCallExpr>(E);
      Object O;
      O["op"] = getOperatorSpelling(X->getOperator());
      auto *FD = X->getDirectCallee();
      auto B = X->arg_begin();
      if (FD) {
        fnRef(O, FD);
        if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
          O["obj"] = expr(*B);
          ++B;
          if (MD->isVirtual()) O["virt"] = true;
        }
      } else
        O["ce"] = expr(X->getCallee());
      O["args"] = args(B, X->arg_end());
      return mk("call", E, std::move(O));
    }
    case Stmt::UserDefinedLiteralClass:
    case Stmt::CallExprClass: {
      auto *X = cast<CallExpr>(E);
      Object O;
      auto *FD = X->getDirectCallee();
      if (FD) {
        fnRef(O, FD);
        if (auto B = FD->getBuiltinID()) O["builtin"] = (int64_t)B;
      } else
        O["ce"] = expr(X->getCallee());
      O["args"] = args(X->arg_begin(), X->arg_end());
      return mk("call", E, std::move(O));
    }
    case Stmt::CXXTemporaryObjectExprClass:
    case Stmt::CXXConstructExprClass: {
      auto *X = cast<CXXConstructExpr>(E);
      Object O;
      auto *CD = X->getConstructor();
      fnRef(O, CD);
      O["rec"] = recKey(CD->getParent());
      O["elide"] = X->isElidable();
      O["ckind"] = CD->isCopyConstructor() ? "copy" : CD->isMoveConstructor() ? "move" : CD->isDefaultConstructor() ? "default" : "other";
      if (CD->isImplicit() || CD->isDefaulted()) O["implicit"] = true;
      if (X->isListInitialization()) O["list"] = true;
      O["args"] = args(X->arg_begin(), X->arg_end());
      return mk("ctor", E, std::move(O));
    }
    case Stmt::CXXNewExprClass: {
      auto *X = cast<CXXNewExpr>(E);
      Object O;
      O["ty"] = ty(X->getAllocatedType());
      if (X->getInitializer()) O["init"] = expr(X->getInitializer());
      if (X->isArray() && X->getArraySize()) O["n"] = expr(*X->getArraySize());
      return mk("new", E, std::move(O));
    }
    case Stmt::CXXDeleteExprClass: {
      auto *X = cast<CXXDeleteExpr>(E);
      Object O;
      O["e"] = expr(X->getArgument());
      O["dt"] = ty(X->getDestroyedType());
      return mk("del", E, std::move(O));
    }
    case Stmt::UnaryOperatorClass: {
      auto *X = cast<UnaryOperator>(E);
      if (X->getOpcode() == UO_Extension) return expr(X->getSubExpr());
      Object O;
      std::string Op = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->getOpcode() == UO_PostInc || X->getOpcode() == UO_PostDec) Op = "p" + Op;
      if (X->getOpcode() == UO_AddrOf)
        if (auto *DR = dyn_cast<DeclRefExpr>(X->getSubExpr()->IgnoreParens())) {
          if (auto *MD = dyn_cast<CXXMethodDecl>(DR->getDecl()); MD && !MD->isStatic()) {
            fnRef(O, MD);
            O["id"] = fnId(MD);
            O["memfn"] = true;
            if (MD->isVirtual()) O["virt"] = true;
            return mk("fn", E, std::move(O));
          }
          if (auto *FD = dyn_cast<FieldDecl>(DR->getDecl())) {
            O["f"] = fieldName(FD);
            O["rec"] = recKey(cast<CXXRecordDecl>(FD->getParent()));
            return mk("fieldptr", E, std::move(O));
          }
        }
      O["op"] = Op;
      O["e"] = expr(X->getSubExpr());
      return mk("un", E, std::move(O));
    }
    case Stmt::CompoundAssignOperatorClass:
    case Stmt::BinaryOperatorClass: {
      auto *X = cast<BinaryOperator>(E);
      Object O;
      O["op"] = X->getOpcodeStr().str();
      O["a"] = expr(X->getLHS());
      O["b"] = expr(X->getRHS());
      return mk(X->isAssignmentOp() ? "asg" : "bin", E, std::move(O));
    }
    case Stmt::ConditionalOperatorClass: {
      auto *X = cast<ConditionalOperator>(E);
      Object O;
      O["c"] = expr(X->getCond());
      O["a"] = expr(X->getTrueExpr());
      O["b"] = expr(X->getFalseExpr());
      return mk("cond", E, std::move(O));
    }
    case Stmt::BinaryConditionalOperatorClass: {
      auto *X = cast<BinaryConditionalOperator>(E);
      Object O;
      O["c"] = expr(X->getCommon());
      O["a"] = expr(X->getCommon());
      O["b"] = expr(X->getFalseExpr());
      O["gnu"] = true;
      return mk("cond", E, std::move(O));
    }
    case Stmt::ImplicitCastExprClass:
    case Stmt::CStyleCastExprClass:
    case Stmt::CXXFunctionalCastExprClass:
    case Stmt::CXXStaticCastExprClass:
    case Stmt::CXXConstCastExprClass:
    case Stmt::CXXReinterpretCastExprClass:
    case Stmt::CXXDynamicCastExprClass: {
      auto *X = cast<CastExpr>(E);
      switch (X->getCastKind()) {
      case CK_NoOp:
      case CK_ConstructorConversion:
      case CK_UserDefinedConversion:
      case CK_FunctionToPointerDecay:
      case CK_BuiltinFnToFnPtr:
        return expr(X->getSubExpr());
      case CK_LValueToRValue: {
        Object O;
        O["e"] = expr(X->getSubExpr());
        return mk("load", E, std::move(O));
      }
      case CK_NullToPointer:
      case CK_NullToMemberPointer:
        return mk("null", E);
      default: {
        Object O;
        O["ck"] = X->getCastKindName();
        O["e"] = expr(X->getSubExpr());
        return mk("cast", E, std::move(O));
      }
      }
    }
    case Stmt::InitListExprClass: {
      auto *X = cast<InitListExpr>(E);
      if (!X->isSemanticForm() && X->getSemanticForm()) X = X->getSemanticForm();
      if (X->isTransparent()) return expr(X->getInit(0));
      Object O;
      Array A;
      for (unsigned i = 0; i < X->getNumInits(); ++i) A.push_back(expr(X->getInit(i)));
      O["items"] = std::move(A);
      if (auto *R = T->getAsCXXRecordDecl()) {
        O["rec"] = recKey(R);
        noteRecord(R);
        Array N;
        if (R->isUnion()) {
          if (auto *F = X->getInitializedFieldInUnion()) N.push_back(F->getNameAsString());
        } else if (!isa<ClassTemplateSpecializationDecl>(R) && R->getNumBases() == 0) {
          for (auto *F : R->fields())
            if (!F->isUnnamedBitfield()) N.push_back(F->getNameAsString());
        }
        O["fns"] = std::move(N);
      }
      return mk("init", E, std::move(O));
    }
    case Stmt::CXXStdInitializerListExprClass: {
      Object O;
      O["e"] = expr(cast<CXXStdInitializerListExpr>(E)->getSubExpr());
      return mk("sil", E, std::move(O));
    }
    case Stmt::ImplicitValueInitExprClass:
    case Stmt::CXXScalarValueInitExprClass:
      return mk("zero", E);
    case Stmt::LambdaExprClass: {
      auto *X = cast<LambdaExpr>(E);
      auto *R = X->getLambdaClass();
      Object O;
      O["rec"] = recKey(R);
      noteRecord(R);
      O["op"] = fnId(X->getCallOperator());
      Array Caps;
      auto FI = R->field_begin();
      auto CI = X->capture_init_begin();
      for (auto &Cp : X->captures()) {
        if (Cp.capturesVLAType()) { ++FI; ++CI; continue; }
        Object CO;
        CO["f"] = fieldName(*FI);
        CO["ft"] = ty((*FI)->getType());
        CO["byref"] = Cp.getCaptureKind() == LCK_ByRef;
        if (Cp.capturesThis()) CO["this"] = true;
        if (Cp.capturesVariable()) {
          if (auto *V = dyn_cast<VarDecl>(Cp.getCapturedVar())) {
            CO["var"] = varId(V);
            CO["n"] = V->getNameAsString();
            CO["vt"] = ty(V->getType());
          }
        }
        CO["init"] = expr(*CI);
        Caps.push_back(std::move(CO));
        ++FI;
        ++CI;
      }
      // also attach to the record so that the call operator can map captured names
      Array Map;
      for (auto &V : Caps) {
        auto *Ob = V.getAsObject();
        Object M;
        M["f"] = Ob->getString("f")->str();
        if (auto S = Ob->getString("var")) M["var"] = S->str();
        if (Ob->get("this")) M["this"] = true;
        M["byref"] = *Ob->getBoolean("byref");
        Map.push_back(std::move(M));
      }
      if (auto *RO = Records[recKey(R)].getAsObject()) (*RO)["caps"] = std::move(Map);
      O["caps"] = std::move(Caps);
      queueFn(X->getCallOperator());
      return mk("lambda", E, std::move(O));
    }
    case Stmt::MaterializeTemporaryExprClass: {
      auto *X = cast<MaterializeTemporaryExpr>(E);
      Object O;
      O["e"] = expr(X->getSubExpr());
      if (X->getStorageDuration() != SD_FullExpression) O["ext"] = true;
      return mk("mat", E, std::move(O));
    }
    case Stmt::ExprWithCleanupsClass: {
      Object O;
      O["e"] = expr(cast<ExprWithCleanups>(E)->getSubExpr());
      return mk("cleanups", E, std::move(O));
    }
    case Stmt::CXXBindTemporaryExprClass: {
      Object O;
      O["e"] = expr(cast<CXXBindTemporaryExpr>(E)->getSubExpr());
      return mk("bindtmp", E, std::move(O));
    }
    case Stmt::CXXThrowExprClass: {
      Object O;
      O["e"] = expr(cast<CXXThrowExpr>(E)->getSubExpr());
      return mk("throw", E, std::move(O));
    }
    case Stmt::ArraySubscriptExprClass: {
      auto *X = cast<ArraySubscriptExpr>(E);
      Object O;
      O["b"] = expr(X->getBase());
      O["i"] = expr(X->getIdx());
      return mk("idx", E, std::move(O));
    }
    case Stmt::StmtExprClass: {
      Object O;
      O["b"] = stmt(cast<StmtExpr>(E)->getSubStmt());
      return mk("stmtexpr", E, std::move(O));
    }
    case Stmt::ArrayInitLoopExprClass: {
      auto *X = cast<ArrayInitLoopExpr>(E);
      Object O;
      O["e"] = expr(X->getCommonExpr()->getSourceExpr());
      return mk("arraycopy", E, std::move(O));
    }
    case Stmt::CXXTypeidExprClass:
      return mk("typeid", E);
    case Stmt::VAArgExprClass:
      return mk("vaarg", E);
    case Stmt::CXXInheritedCtorInitExprClass: {
      Object O;
      auto *X = cast<CXXInheritedCtorInitExpr>(E);
      fnRef(O, X->getConstructor());
      return mk("inhctor", E, std::move(O));
    }
    default: {
      Object O;
      O["kind"] = E->getStmtClassName();
      Array A;
      for (auto *S : E->children())
        if (S)
          if (auto *CE = dyn_cast<Expr>(S)) A.push_back(expr(CE));
      O["c"] = std::move(A);
      return mk("opaque", E, std::move(O));
    }
    }
  }

  // ---------- statements
  Value st(const char *K, const Stmt *S, Object O = {}) {
    O["s"] = K;
    O["l"] = (int64_t)lineOf(S->getBeginLoc());
    return O;
  }
  Value varDecl(const VarDecl *V) {
    Object O;
    O["id"] = varId(V);
    O["n"] = V->getNameAsString();
    O["t"] = ty(V->getType());
    O["l"] = (int64_t)lineOf(V->getLocation());
    if (V->isStaticLocal()) {
      O["static"] = true;
      noteGlobal(V);
    }
    if (V->getTLSKind() != VarDecl::TLS_None) O["tls"] = true;
    if (V->getInit()) O["init"] = expr(V->getInit());
    return O;
  }
  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) {
      Object O;
      O["e"] = expr(E);
      return st("expr", S, std::move(O));
    }
    switch (S->getStmtClass()) {
    case Stmt::CompoundStmtClass: {
      Object O;
      Array A;
      for (auto *X : cast<CompoundStmt>(S)->body()) A.push_back(stmt(X));
      O["b"] = std::move(A);
      O["el"] = (int64_t)lineOf(cast<CompoundStmt>(S)->getRBracLoc());
      return st("block", S, std::move(O));
    }
    case Stmt::DeclStmtClass: {
      Object O;
      Array A;
      for (auto *D : cast<DeclStmt>(S)->decls()) {
        if (auto *DD = dyn_cast<DecompositionDecl>(D)) {
          A.push_back(varDecl(DD));
          for (auto *B : DD->bindings())
            if (auto *H = B->getHoldingVar()) A.push_back(varDecl(H));
        } else if (auto *V = dyn_cast<VarDecl>(D))
          A.push_back(varDecl(V));
        else if (auto *SA = dyn_cast<StaticAssertDecl>(D))
          (void)SA;
      }
      O["vars"] = std::move(A);
      return st("decl", S, std::move(O));
    }
    case Stmt::IfStmtClass: {
      auto *X = cast<IfStmt>(S);
      Object O;
      if (X->getInit()) O["init"] = stmt(X->getInit());
      if (auto *V = X->getConditionVariable()) O["cv"] = varDecl(V);
      O["c"] = expr(X->getCond());
      O["then"] = stmt(X->getThen());
      if (X->getElse()) O["else"] = stmt(X->getElse());
      return st("if", S, std::move(O));
    }
    case Stmt::ForStmtClass: {
      auto *X = cast<ForStmt>(S);
      Object O;
      if (X->getInit()) O["init"] = stmt(X->getInit());
      if (auto *V = X->getConditionVariable()) O["cv"] = varDecl(V);
      if (X->getCond()) O["c"] = expr(X->getCond());
      if (X->getInc()) O["inc"] = expr(X->getInc());
      O["b"] = stmt(X->getBody());
      return st("for", S, std::move(O));
    }
    case Stmt::WhileStmtClass: {
      auto *X = cast<WhileStmt>(S);
      Object O;
      if (auto *V = X->getConditionVariable()) O["cv"] = varDecl(V);
      O["c"] = expr(X->getCond());
      O["b"] = stmt(X->getBody());
      return st("while", S, std::move(O));
    }
    case Stmt::DoStmtClass: {
      auto *X = cast<DoStmt>(S);
      Object O;
      O["c"] = expr(X->getCond());
      O["b"] = stmt(X->getBody());
      return st("do", S, std::move(O));
    }
    case Stmt::CXXForRangeStmtClass: {
      auto *X = cast<CXXForRangeStmt>(S);
      Object O;
      if (X->getInit()) O["init"] = stmt(X->getInit());
      O["range"] = stmt(X->getRangeStmt());
      O["begin"] = stmt(X->getBeginStmt());
      O["end"] = stmt(X->getEndStmt());
      O["c"] = expr(X->getCond());
      O["inc"] = expr(X->getInc());
      O["var"] = stmt(X->getLoopVarStmt());
      O["b"] = stmt(X->getBody());
      return st("range", S, std::move(O));
    }
    case Stmt::SwitchStmtClass: {
      auto *X = cast<SwitchStmt>(S);
      Object O;
      if (X->getInit()) O["init"] = stmt(X->getInit());
      if (auto *V = X->getConditionVariable()) O["cv"] = varDecl(V);
      O["c"] = expr(X->getCond());
      O["b"] = stmt(X->getBody());
      return st("switch", S, std::move(O));
    }
    case Stmt::CaseStmtClass: {
      auto *X = cast<CaseStmt>(S);
      Object O;
      O["v"] = expr(X->getLHS());
      if (X->getRHS()) O["hi"] = expr(X->getRHS());
      O["b"] = stmt(X->getSubStmt());
      return st("case", S, std::move(O));
    }
    case Stmt::DefaultStmtClass: {
      Object O;
      O["b"] = stmt(cast<DefaultStmt>(S)->getSubStmt());
      return st("default", S, std::move(O));
    }
    case Stmt::ReturnStmtClass: {
      Object O;
      if (auto *E = cast<ReturnStmt>(S)->getRetValue()) O["e"] = expr(E);
      return st("return", S, std::move(O));
    }
    case Stmt::BreakStmtClass: return st("break", S);
    case Stmt::ContinueStmtClass: return st("continue", S);
    case Stmt::NullStmtClass: return st("null", S);
    case Stmt::CXXTryStmtClass: {
      auto *X = cast<CXXTryStmt>(S);
      Object O;
      O["b"] = stmt(X->getTryBlock());
      Array H;
      for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
        auto *CS = X->getHandler(i);
        Object HO;
        if (auto *V = CS->getExceptionDecl()) {
          HO["var"] = varDecl(V);
          HO["t"] = ty(V->getType());
        }
        HO["b"] = stmt(CS->getHandlerBlock());
        HO["l"] = (int64_t)lineOf(CS->getBeginLoc());
        H.push_back(std::move(HO));
      }
      O["h"] = std::move(H);
      return st("try", S, std::move(O));
    }
    case Stmt::LabelStmtClass: {
      auto *X = cast<LabelStmt>(S);
      Object O;
      O["n"] = X->getDecl()->getNameAsString();
      O["b"] = stmt(X->getSubStmt());
      return st("label", S, std::move(O));
    }
    case Stmt::GotoStmtClass: {
      Object O;
      O["n"] = cast<GotoStmt>(S)->getLabel()->getNameAsString();
      return st("goto", S, std::move(O));
    }
    case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(S)->getSubStmt());
    default: {
      Object O;
      O["kind"] = S->getStmtClassName();
      return st("opaque", S, std::move(O));
    }
    }
  }

  void dumpFn(const FunctionDecl *F) {
    std::string Id = fnId(F);
    if (Functions.find(Id) != Functions.end()) return;
    Functions[Id] = nullptr;
    Cur = F;
    Object O;
    O["n"] = qual(F);
    O["file"] = relFile(F->getLocation());
    O["line"] = (int64_t)lineOf(F->getLocation());
    O["ret"] = ty(F->getReturnType());
    if (F->isNoReturn()) O["noret"] = true;
    if (F->isVariadic()) O["variadic"] = true;
    if (F->isImplicit()) O["implicit"] = true;
    if (F->isDefaulted()) O["defaulted"] = true;
    if (!F->isExternallyVisible()) O["internal"] = true;
    if (auto *FT = F->getType()->getAs<FunctionProtoType>())
      if (FT->isNothrow()) O["nothrow"] = true;
    Array Ps;
    for (auto *P : F->parameters()) {
      Object PO;
      PO["id"] = varId(P);
      PO["n"] = P->getNameAsString();
      PO["t"] = ty(P->getType());
      if (P->hasDefaultArg() && !P->hasUnparsedDefaultArg() && !P->hasUninstantiatedDefaultArg())
        PO["def"] = expr(P->getDefaultArg());
      Ps.push_back(std::move(PO));
    }
    O["params"] = std::move(Ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["rec"] = recKey(M->getParent());
      noteRecord(M->getParent());
      if (M->isVirtual()) O["virt"] = true;
      if (M->isStatic()) O["sm"] = true;
      if (M->isConst()) O["cm"] = true;
      if (M->getParent()->isLambda()) O["lambda"] = true;
      if (M->size_overridden_methods()) {
        Array Ov;
        for (auto *B : M->overridden_methods()) Ov.push_back(fnId(B));
        O["overrides"] = std::move(Ov);
      }
      O["access"] = M->getAccess() == AS_private ? "private" : M->getAccess() == AS_protected ? "protected" : "public";
    }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      O["kind"] = "ctor";
      O["ckind"] = CD->isCopyConstructor() ? "copy" : CD->isMoveConstructor() ? "move" : CD->isDefaultConstructor() ? "default" : "other";
      Array Is;
      for (auto *I : CD->inits()) {
        Object IO;
        IO["e"] = expr(I->getInit());
        if (I->isAnyMemberInitializer()) {
          IO["f"] = fieldName(I->getAnyMember());
          IO["t"] = ty(I->getAnyMember()->getType());
        } else if (I->isBaseInitializer()) {
          if (auto *R = QualType(I->getBaseClass(), 0)->getAsCXXRecordDecl()) IO["base"] = recKey(R);
        } else if (I->isDelegatingInitializer())
          IO["deleg"] = true;
        IO["l"] = (int64_t)lineOf(I->getSourceLocation());
        if (I->isWritten()) IO["w"] = true;
        Is.push_back(std::move(IO));
      }
      O["inits"] = std::move(Is);
    } else if (isa<CXXDestructorDecl>(F))
      O["kind"] = "dtor";
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      O["tmpl"] = true;
      Array A;
      for (auto &T : TA->asArray()) {
        if (T.getKind() == TemplateArgument::Type) A.push_back(ty(T.getAsType()));
        else if (T.getKind() == TemplateArgument::Pack) {
          for (auto &P : T.pack_elements())
            if (P.getKind() == TemplateArgument::Type) A.push_back(ty(P.getAsType()));
        } else if (T.getKind() == TemplateArgument::Integral)
          A.push_back("#" + llvm::toString(T.getAsIntegral(), 10));
        else A.push_back(nullptr);
      }
      O["ta"] = std::move(A);
    }
    O["body"] = stmt(F->getBody());
    O["endl"] = (int64_t)lineOf(F->getEndLoc());
    Functions[Id] = std::move(O);
  }

  // ---------- visitor
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext() || F->isInvalidDecl()) return true;
    if (F->isThisDeclarationADefinition() && inRoots(F->getLocation())) {
      if (auto *M = dyn_cast<CXXMethodDecl>(F))
        if (M->getParent()->isLambda() && M != M->getParent()->getLambdaCallOperator()) return true;
      queueFn(F);
    }
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isDependentContext() || !R->isThisDeclarationADefinition() || !inRoots(R->getLocation())) return true;
    if (R->isLambda()) return true;
    noteRecord(R);
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (isa<ParmVarDecl>(V) || V->getDeclContext()->isDependentContext()) return true;
    if (V->hasGlobalStorage() && !V->isStaticLocal() && inRoots(V->getLocation())) noteGlobal(V);
    return true;
  }

  void run() {
    TraverseDecl(C.getTranslationUnitDecl());
    while (!Work.empty()) {
      auto *F = Work.front();
      Work.pop_front();
      dumpFn(F);
    }
    Object Top;
    Top["tag"] = Tag;
    Top["types"] = std::move(Types);
    Top["records"] = std::move(Records);
    Top["functions"] = std::move(Functions);
    Top["globals"] = std::move(Globals);
    Array Main;
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutPath, EC);
    OS << Value(std::move(Top)) << "\n";
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) {
      HadErrors = true;
      return;
    }
    Dumper D(C);
    D.run();
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    return std::make_unique<Consumer>();
  }
};

int main(int argc, char **argv) {
  if (argc < 6) {
    llvm::errs() << "usage: extract OUT TAG ROOTS MAIN -- FLAGS\n";
    return 2;
  }
  OutPath = argv[1];
  Tag = argv[2];
  llvm::SmallVector<StringRef, 4> Rs;
  StringRef(argv[3]).split(Rs, ':');
  for (auto R : Rs) Roots.push_back(R.str());
  std::vector<std::string> Flags;
  for (int i = 6; i < argc; ++i) Flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool Tool(DB, {std::string(argv[4])});
  int R = Tool.run(tooling::newFrontendActionFactory<Action>().get());
  return R || HadErrors ? 1 : 0;
}
