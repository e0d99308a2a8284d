// cxxvc exporter: dumps the clang AST of every function body that lives under
// ROOT (the real source tree) as compact JSON.  Purely mechanical: nothing is
// rewritten, only syntactic sugar nodes (parens, cleanups, no-op casts) are
// dropped.  One JSON document per translation unit on stdout.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include <cstdlib>
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::string Root;

namespace {

struct Exporter {
  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
  Object Funcs;    // usr -> info
  Object Records;  // name -> info
  Object Enums;    // name -> {const:val}
  Object Globals;  // id -> {name,type,init}
  Array Bodies;
  std::set<std::string> SeenFn, SeenRec, SeenEnum, SeenBody, SeenVar;
  std::vector<const CXXRecordDecl *> RecQueue;

  explicit Exporter(ASTContext &C)
      : Ctx(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.SuppressUnwrittenScope = false;
    PP.FullyQualifiedName = true;
    PP.SuppressScope = false;
    PP.PrintCanonicalTypes = true;
    PP.AnonymousTagLocations = false;
  }

  std::string fileOf(SourceLocation L) {
    if (L.isInvalid())
      return "";
    auto P = SM.getPresumedLoc(SM.getExpansionLoc(L), false);
    if (P.isInvalid())
      return "";
    auto FE = SM.getFileEntryRefForID(SM.getFileID(SM.getExpansionLoc(L)));
    if (FE) {
      llvm::StringRef R = FE->getFileEntry().tryGetRealPathName();
      if (!R.empty())
        return R.str();
    }
    return P.getFilename();
  }
  int lineOf(SourceLocation L) {
    return L.isInvalid() ? 0 : (int)SM.getExpansionLineNumber(L);
  }
  bool inRoot(SourceLocation L) {
    auto F = fileOf(L);
    return llvm::StringRef(F).starts_with(Root) ||
           (L.isValid() && SM.isInMainFile(SM.getExpansionLoc(L)));
  }

  std::string tyArg(const TemplateArgument &A) {
    switch (A.getKind()) {
    case TemplateArgument::Type:
      return ty(A.getAsType());
    case TemplateArgument::Integral: {
      llvm::SmallString<16> S;
      A.getAsIntegral().toString(S, 10);
      return S.str().str();
    }
    case TemplateArgument::Pack: {
      std::string R;
      for (auto &X : A.pack_elements()) {
        if (!R.empty())
          R += ",";
        R += tyArg(X);
      }
      return R;
    }
    default: {
      std::string S;
      llvm::raw_string_ostream OS(S);
      A.print(PP, OS, true);
      return OS.str();
    }
    }
  }

  std::string recName(const RecordDecl *RD) {
    if (auto *CR = dyn_cast<CXXRecordDecl>(RD))
      if (CR->isLambda())
        return "lambda:" + usr(CR);
    std::string N;
    llvm::raw_string_ostream OS(N);
    // qualified name, dropping inline namespaces such as __cxx11
    std::vector<std::string> Parts;
    const DeclContext *DC = RD;
    while (DC && !isa<TranslationUnitDecl>(DC)) {
      if (auto *NS = dyn_cast<NamespaceDecl>(DC)) {
        if (NS->isAnonymousNamespace())
          Parts.push_back("(anon)");
        else if (!NS->isInline())
          Parts.push_back(NS->getNameAsString());
      } else if (auto *R = dyn_cast<RecordDecl>(DC)) {
        std::string P = R->getNameAsString();
        if (P.empty())
          P = "(unnamed)";
        if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
          P += "<";
          bool F = true;
          for (auto &A : S->getTemplateArgs().asArray()) {
            if (!F)
              P += ",";
            F = false;
            P += tyArg(A);
          }
          P += ">";
        }
        Parts.push_back(P);
      } else if (auto *F = dyn_cast<FunctionDecl>(DC)) {
        Parts.push_back(F->getNameAsString() + "()");
      }
      DC = DC->getParent();
    }
    for (auto I = Parts.rbegin(); I != Parts.rend(); ++I) {
      if (I != Parts.rbegin())
        OS << "::";
      OS << *I;
    }
    return OS.str();
  }

  std::string ty(QualType Q) {
    Q = Q.getCanonicalType();
    std::string C = Q.isConstQualified() ? "const " : "";
    const Type *T = Q.getTypePtr();
    if (auto *R = dyn_cast<LValueReferenceType>(T))
      return ty(R->getPointeeType()) + "&";
    if (auto *R = dyn_cast<RValueReferenceType>(T))
      return ty(R->getPointeeType()) + "&&";
    if (auto *R = dyn_cast<PointerType>(T))
      return ty(R->getPointeeType()) + "*";
    if (auto *R = dyn_cast<RecordType>(T)) {
      auto *RD = R->getDecl();
      if (auto *CR = dyn_cast<CXXRecordDecl>(RD))
        noteRecord(CR);
      return C + recName(RD);
    }
    if (auto *E = dyn_cast<EnumType>(T)) {
      noteEnum(E->getDecl());
      return C + "enum " + enumName(E->getDecl());
    }
    if (auto *A = dyn_cast<ConstantArrayType>(T))
      return ty(A->getElementType()) + "[" +
             std::to_string(A->getSize().getZExtValue()) + "]";
    if (auto *F = dyn_cast<FunctionProtoType>(T)) {
      std::string S = ty(F->getReturnType()) + "(";
      bool First = true;
      for (auto P : F->param_types()) {
        if (!First)
          S += ",";
        First = false;
        S += ty(P);
      }
      return S + ")";
    }
    if (isa<BuiltinType>(T))
      return C + QualType(T, 0).getAsString(PP);
    return Q.getAsString(PP);
  }
  std::string enumName(const EnumDecl *E) {
    std::string S = E->getNameAsString();
    const DeclContext *DC = E->getDeclContext();
    while (DC && !isa<TranslationUnitDecl>(DC)) {
      if (auto *R = dyn_cast<RecordDecl>(DC)) {
        return recName(R) + "::" + S;
      }
      if (auto *NS = dyn_cast<NamespaceDecl>(DC))
        if (!NS->isInline())
          S = (NS->isAnonymousNamespace() ? std::string("(anon)")
                                          : NS->getNameAsString()) +
              "::" + S;
      DC = DC->getParent();
    }
    return S;
  }

  std::string usr(const Decl *D) {
    llvm::SmallString<256> B;
    if (index::generateUSRForDecl(D, B) || B.empty()) {
      return "p" + std::to_string((uintptr_t)D->getCanonicalDecl());
    }
    return B.str().str();
  }

  void noteEnum(const EnumDecl *E) {
    std::string N = enumName(E);
    if (!SeenEnum.insert(N).second)
      return;
    if (!inRoot(E->getLocation()))
      return;
    Object O;
    for (auto *C : E->enumerators())
      O[C->getNameAsString()] = C->getInitVal().getExtValue();
    Enums[N] = std::move(O);
  }

  void noteRecord(const CXXRecordDecl *RD) {
    RD = RD->getDefinition() ? RD->getDefinition() : RD;
    if (RD->isLambda() || RD->isDependentType())
      return;
    if (!inRoot(RD->getLocation()))
      return;
    std::string N = recName(RD);
    if (!SeenRec.insert(N).second)
      return;
    RecQueue.push_back(RD);
  }
  void drainRecords() {
    while (!RecQueue.empty()) {
      auto *RD = RecQueue.back();
      RecQueue.pop_back();
      if (!RD->hasDefinition())
        continue;
      Object O;
      O["file"] = fileOf(RD->getLocation());
      O["line"] = lineOf(RD->getLocation());
      Array Bs;
      for (auto &B : RD->bases())
        Bs.push_back(ty(B.getType()));
      O["bases"] = std::move(Bs);
      Array Fs;
      for (auto *F : RD->fields()) {
        Object FO;
        FO["name"] = F->getNameAsString();
        FO["type"] = ty(F->getType());
        if (F->hasInClassInitializer() && F->getInClassInitializer())
          FO["init"] = expr(F->getInClassInitializer());
        Fs.push_back(std::move(FO));
      }
      O["fields"] = std::move(Fs);
      O["poly"] = RD->isPolymorphic();
      Array Ms;
      for (auto *M : RD->methods()) {
        Object MO;
        MO["fn"] = fn(M);
        MO["name"] = M->getNameAsString();
        MO["virtual"] = M->isVirtual();
        MO["pure"] = M->isPureVirtual();
        Ms.push_back(std::move(MO));
      }
      O["methods"] = std::move(Ms);
      Records[recName(RD)] = std::move(O);
    }
  }

  std::string fnName(const FunctionDecl *F) {
    std::string S = F->getNameAsString();
    if (auto *CD = dyn_cast<CXXConversionDecl>(F))
      S = "operator " + ty(CD->getConversionType());
    if (isa<CXXConstructorDecl>(F))
      S = "(ctor)";
    if (isa<CXXDestructorDecl>(F))
      S = "(dtor)";
    const DeclContext *DC = F->getDeclContext();
    if (F->getFriendObjectKind() && isa<RecordDecl>(F->getLexicalDeclContext()))
      ; // friend: namespace-scope semantic context is right
    while (DC && !isa<TranslationUnitDecl>(DC)) {
      if (auto *R = dyn_cast<RecordDecl>(DC)) {
        return recName(R) + "::" + S;
      }
      if (auto *NS = dyn_cast<NamespaceDecl>(DC))
        if (!NS->isInline())
          S = (NS->isAnonymousNamespace() ? std::string("(anon)")
                                          : NS->getNameAsString()) +
              "::" + S;
      if (auto *FD = dyn_cast<FunctionDecl>(DC)) {
        return fnName(FD) + "()::" + S;
      }
      DC = DC->getParent();
    }
    return S;
  }

  // returns function id and registers it
  std::string fn(const FunctionDecl *F) {
    std::string U = usr(F);
    if (!SeenFn.insert(U).second)
      return U;
    Object O;
    O["name"] = fnName(F);
    O["base"] = F->getNameAsString();
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = recName(M->getParent());
      O["static"] = M->isStatic();
      O["virtual"] = M->isVirtual();
      O["const"] = M->isConst();
      O["kind"] = isa<CXXConstructorDecl>(M)   ? "ctor"
                  : isa<CXXDestructorDecl>(M)  ? "dtor"
                  : isa<CXXConversionDecl>(M)  ? "conv"
                                               : "method";
      if (auto *C = dyn_cast<CXXConstructorDecl>(M)) {
        O["copymove"] = C->isCopyOrMoveConstructor();
        O["defctor"] = C->isDefaultConstructor();
      }
      O["assignop"] =
          M->isCopyAssignmentOperator() || M->isMoveAssignmentOperator();
    } else
      O["kind"] = "func";
    O["defaulted"] = F->isDefaulted() || F->isImplicit();
    O["noreturn"] = F->isNoReturn();
    O["root"] = inRoot(F->getLocation());
    O["ret"] = ty(F->getReturnType());
    Array Ps;
    for (auto *P : F->parameters()) {
      Object PO;
      PO["name"] = P->getNameAsString();
      PO["type"] = ty(P->getType());
      PO["id"] = vid(P);
      Ps.push_back(std::move(PO));
    }
    O["params"] = std::move(Ps);
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      Array As;
      for (auto &A : TA->asArray())
        As.push_back(tyArg(A));
      O["targs"] = std::move(As);
    }
    O["file"] = fileOf(F->getLocation());
    O["line"] = lineOf(F->getLocation());
    Funcs[U] = std::move(O);
    if (inRoot(F->getLocation()))
      Pending.push_back(F);
    return U;
  }
  std::vector<const FunctionDecl *> Pending;

  std::map<const Decl *, std::string> VIds;
  std::string vid(const ValueDecl *V) {
    const Decl *C = V;
    if (auto *VD = dyn_cast<VarDecl>(V))
      if (!isa<ParmVarDecl>(VD))
        C = VD->getCanonicalDecl();
    auto It = VIds.find(C);
    if (It != VIds.end())
      return It->second;
    std::string S;
    if (auto *VD = dyn_cast<VarDecl>(V))
      if (VD->hasGlobalStorage() && !VD->isStaticLocal())
        S = "g:" + usr(VD);
    if (S.empty())
      S = "v" + std::to_string(VIds.size()) + ":" + V->getNameAsString();
    VIds[C] = S;
    return S;
  }

  void noteGlobal(const VarDecl *V) {
    std::string I = vid(V);
    if (!SeenVar.insert(I).second)
      return;
    Object O;
    O["name"] = V->getQualifiedNameAsString();
    O["type"] = ty(V->getType());
    O["root"] = inRoot(V->getLocation());
    O["constexpr"] = V->isConstexpr() || V->getType().isConstQualified();
    if (inRoot(V->getLocation())) {
      const VarDecl *D = nullptr;
      const Expr *E = V->getAnyInitializer(D);
      if (E && !E->isValueDependent())
        O["init"] = expr(E);
    } else if (V->getType()->isIntegralOrEnumerationType()) {
      const VarDecl *D = nullptr;
      const Expr *E = V->getAnyInitializer(D);
      if (E && !E->isValueDependent()) {
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, Ctx)) {
          llvm::SmallString<24> S;
          R.Val.getInt().toString(S, 10);
          O["int"] = S.str().str();
        }
      }
    }
    Globals[I] = std::move(O);
  }

  static const Expr *strip(const Expr *E) {
    while (true) {
      if (auto *P = dyn_cast<ParenExpr>(E)) {
        E = P->getSubExpr();
      } else if (auto *P = dyn_cast<FullExpr>(E)) { // ExprWithCleanups,ConstantExpr
        E = P->getSubExpr();
      } else if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) {
        E = P->getSubExpr();
      } else if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) {
        E = P->getReplacement();
      } else if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) {
        E = P->getExpr();
      } else if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) {
        E = P->getExpr();
      } else
        break;
    }
    return E;
  }

  Array exprs(llvm::iterator_range<CallExpr::const_arg_iterator> R) {
    Array A;
    for (auto *E : R)
      A.push_back(expr(E));
    return A;
  }

  Value expr(const Expr *E0) {
    if (!E0)
      return nullptr;
    bool DefInit = isa<CXXDefaultInitExpr>(E0);
    (void)DefInit;
    const Expr *E = strip(E0);
    Object O;
    O["l"] = lineOf(E->getBeginLoc());
    auto T = [&]() { O["t"] = ty(E->getType()); };
    if (auto *M = dyn_cast<MaterializeTemporaryExpr>(E)) {
      O["k"] = "mat";
      T();
      O["e"] = expr(M->getSubExpr());
      return O;
    }
    if (auto *C = dyn_cast<CastExpr>(E)) {
      auto K = C->getCastKind();
      switch (K) {
      case CK_NoOp:
      case CK_UserDefinedConversion:
      case CK_ConstructorConversion:
      case CK_FunctionToPointerDecay:
      case CK_ArrayToPointerDecay:
      case CK_UncheckedDerivedToBase:
      case CK_DerivedToBase:
      case CK_BaseToDerived:
      case CK_BitCast:
        if (K == CK_DerivedToBase || K == CK_UncheckedDerivedToBase) {
          O["k"] = "d2b";
          T();
          O["e"] = expr(C->getSubExpr());
          return O;
        }
        return expr(C->getSubExpr());
      case CK_LValueToRValue:
        O["k"] = "rv";
        T();
        O["e"] = expr(C->getSubExpr());
        return O;
      default:
        O["k"] = "cast";
        T();
        O["ck"] = C->getCastKindName();
        O["e"] = expr(C->getSubExpr());
        return O;
      }
    }
    T();
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      O["k"] = "int";
      llvm::SmallString<24> S;
      X->getValue().toString(S, 10, X->getType()->isSignedIntegerType());
      O["v"] = S.str().str();
    } else if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      O["k"] = "bool";
      O["v"] = X->getValue();
    } else if (auto *X = dyn_cast<CharacterLiteral>(E)) {
      O["k"] = "char";
      O["v"] = (int64_t)X->getValue();
    } else if (auto *X = dyn_cast<StringLiteral>(E)) {
      O["k"] = "str";
      if (X->getCharByteWidth() == 1)
        O["v"] = json::fixUTF8(X->getString());
      else
        O["v"] = "";
    } else if (auto *X = dyn_cast<PredefinedExpr>(E)) {
      O["k"] = "str";
      O["v"] = X->getFunctionName()
                   ? json::fixUTF8(X->getFunctionName()->getString())
                   : std::string("");
    } else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      O["k"] = "null";
    } else if (isa<CXXThisExpr>(E)) {
      O["k"] = "this";
    } else if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      auto *D = X->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        O["k"] = "fnref";
        O["fn"] = fn(F);
      } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        O["k"] = "enum";
        O["v"] = EC->getInitVal().getExtValue();
        O["n"] = EC->getNameAsString();
      } else if (auto *B = dyn_cast<BindingDecl>(D)) {
        O["k"] = "var";
        O["id"] = vid(B);
        O["n"] = B->getNameAsString();
      } else if (auto *V = dyn_cast<VarDecl>(D)) {
        O["k"] = "var";
        O["id"] = vid(V);
        O["n"] = V->getNameAsString();
        if (V->hasGlobalStorage() && !V->isStaticLocal()) {
          noteGlobal(V);
          O["g"] = true;
        }
      } else {
        O["k"] = "unsupported";
        O["n"] = "DeclRef:" + std::string(D->getDeclKindName());
      }
    } else if (auto *X = dyn_cast<MemberExpr>(E)) {
      auto *D = X->getMemberDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) {
        O["k"] = "var";
        O["id"] = vid(V);
        O["n"] = V->getNameAsString();
        O["g"] = true;
        noteGlobal(V);
      } else if (auto *F = dyn_cast<CXXMethodDecl>(D)) {
        O["k"] = "methref";
        O["fn"] = fn(F);
        O["e"] = expr(X->getBase());
      } else {
        O["k"] = "member";
        O["f"] = D->getNameAsString();
        O["arrow"] = X->isArrow();
        O["e"] = expr(X->getBase());
        O["bt"] = ty(X->getBase()->getType());
      }
    } else if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      auto *M = X->getMethodDecl();
      if (M) {
        O["k"] = "mcall";
        O["fn"] = fn(M);
        O["obj"] = expr(X->getImplicitObjectArgument());
        O["arrow"] =
            X->getImplicitObjectArgument()->getType()->isPointerType();
        bool Qual = false;
        if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens()))
          Qual = ME->hasQualifier();
        O["qual"] = Qual;
        O["args"] = exprs(X->arguments());
      } else {
        O["k"] = "unsupported";
        O["n"] = "memptrcall";
      }
    } else if (auto *X = dyn_cast<CallExpr>(E)) {
      auto *F = X->getDirectCallee();
      bool Op = isa<CXXOperatorCallExpr>(X);
      if (F && Op && isa<CXXMethodDecl>(F) &&
          !cast<CXXMethodDecl>(F)->isStatic()) {
        O["k"] = "mcall";
        O["fn"] = fn(F);
        O["op"] = true;
        O["qual"] = false;
        O["arrow"] = false;
        O["obj"] = expr(X->getArg(0));
        Array A;
        for (unsigned I = 1; I < X->getNumArgs(); ++I)
          A.push_back(expr(X->getArg(I)));
        O["args"] = std::move(A);
      } else if (F) {
        O["k"] = "call";
        O["fn"] = fn(F);
        O["args"] = exprs(X->arguments());
      } else {
        O["k"] = "icall";
        O["callee"] = expr(X->getCallee());
        O["args"] = exprs(X->arguments());
      }
    } else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      O["k"] = "ctor";
      O["fn"] = fn(X->getConstructor());
      O["list"] = X->isListInitialization();
      O["stdil"] = X->isStdInitListInitialization();
      O["elide"] = X->isElidable();
      Array A;
      for (auto *Arg : X->arguments())
        A.push_back(expr(Arg));
      O["args"] = std::move(A);
    } else if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      O["k"] = "inhctor";
      O["fn"] = fn(X->getConstructor());
    } else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) {
      O["k"] = "stdil";
      O["e"] = expr(X->getSubExpr());
    } else if (auto *X = dyn_cast<InitListExpr>(E)) {
      O["k"] = "ilist";
      Array A;
      const InitListExpr *S = X->isSemanticForm() ? X : X->getSemanticForm();
      if (!S)
        S = X;
      for (auto *I : S->inits())
        A.push_back(expr(I));
      O["args"] = std::move(A);
      if (auto *RT = E->getType()->getAs<RecordType>()) {
        Array Fn;
        if (auto *CR = dyn_cast<CXXRecordDecl>(RT->getDecl())) {
          for (auto &B : CR->bases())
            Fn.push_back("base:" + ty(B.getType()));
        }
        for (auto *F : RT->getDecl()->fields())
          Fn.push_back(F->getNameAsString());
        O["fields"] = std::move(Fn);
      }
    } else if (isa<CXXScalarValueInitExpr>(E) ||
               isa<ImplicitValueInitExpr>(E)) {
      O["k"] = "zero";
    } else if (auto *X = dyn_cast<UnaryOperator>(E)) {
      O["k"] = "un";
      O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      O["post"] = X->isPostfix();
      O["e"] = expr(X->getSubExpr());
    } else if (auto *X = dyn_cast<BinaryOperator>(E)) {
      O["k"] = X->isCompoundAssignmentOp() ? "cassign" : "bin";
      O["op"] = X->getOpcodeStr().str();
      O["a"] = expr(X->getLHS());
      O["b"] = expr(X->getRHS());
    } else if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) {
      return expr(X->getSemanticForm());
    } else if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
      O["k"] = "cond";
      O["c"] = expr(X->getCond());
      O["a"] = expr(X->getTrueExpr());
      O["b"] = expr(X->getFalseExpr());
    } else if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      O["k"] = "index";
      O["e"] = expr(X->getBase());
      O["i"] = expr(X->getIdx());
    } else if (auto *X = dyn_cast<LambdaExpr>(E)) {
      O["k"] = "lambda";
      Array Cs;
      unsigned Idx = 0;
      auto InitIt = X->capture_init_begin();
      for (auto &C : X->captures()) {
        Object CO;
        if (C.capturesThis()) {
          CO["this"] = true;
          CO["byref"] = C.getCaptureKind() != LCK_StarThis;
        } else if (C.capturesVariable()) {
          auto *V = C.getCapturedVar();
          CO["id"] = vid(V);
          CO["n"] = V->getNameAsString();
          CO["byref"] = C.getCaptureKind() == LCK_ByRef;
          if (auto *VD = dyn_cast<VarDecl>(V))
            if (VD->isInitCapture())
              CO["init"] = expr(VD->getInit());
        }
        Cs.push_back(std::move(CO));
        ++InitIt;
        ++Idx;
      }
      O["caps"] = std::move(Cs);
      auto *CO = X->getCallOperator();
      const CXXMethodDecl *M = CO;
      O["generic"] = X->isGenericLambda();
      O["cls"] = recName(X->getLambdaClass());
      if (X->isGenericLambda()) {
        // export instantiations
        Array Is;
        if (auto *FT = CO->getDescribedFunctionTemplate())
          for (auto *S : FT->specializations()) {
            Object FO;
            FO["fn"] = fn(S);
            FO["body"] = S->getBody() ? stmt(S->getBody()) : Value(nullptr);
            Is.push_back(std::move(FO));
          }
        O["insts"] = std::move(Is);
      } else {
        O["fn"] = fn(M);
        O["body"] = stmt(X->getBody());
      }
    } else if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      O["k"] = "new";
      O["at"] = ty(X->getAllocatedType());
      O["e"] = X->getInitializer() ? expr(X->getInitializer()) : Value(nullptr);
      O["ce"] = X->getConstructExpr() ? expr(X->getConstructExpr())
                                      : Value(nullptr);
    } else if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      O["k"] = "delete";
      O["e"] = expr(X->getArgument());
    } else if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      O["k"] = "throw";
      O["e"] = X->getSubExpr() ? expr(X->getSubExpr()) : Value(nullptr);
    } else if (auto *X = dyn_cast<CXXTypeidExpr>(E)) {
      O["k"] = "typeid";
      if (X->isTypeOperand())
        O["ty"] = ty(X->getTypeOperand(Ctx));
      else
        O["ty"] = "expr:" + ty(X->getExprOperand()->getType());
    } else if (isa<UnaryExprOrTypeTraitExpr>(E) || isa<TypeTraitExpr>(E) ||
               isa<SizeOfPackExpr>(E)) {
      O["k"] = "int";
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, Ctx)) {
        llvm::SmallString<24> S;
        R.Val.getInt().toString(S, 10);
        O["v"] = S.str().str();
      } else
        O["k"] = "unsupported";
    } else if (auto *X = dyn_cast<OpaqueValueExpr>(E)) {
      if (X->getSourceExpr())
        return expr(X->getSourceExpr());
      O["k"] = "unsupported";
      O["n"] = "opaque";
    } else if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) {
      O["k"] = "unsupported";
      O["n"] = "ArrayInitLoop";
      (void)X;
    } else {
      O["k"] = "unsupported";
      O["n"] = E->getStmtClassName();
    }
    return O;
  }

  Value varDecl(const VarDecl *V) {
    Object O;
    O["id"] = vid(V);
    O["n"] = V->getNameAsString();
    O["t"] = ty(V->getType());
    O["l"] = lineOf(V->getLocation());
    O["static"] = V->isStaticLocal();
    if (V->getInit())
      O["init"] = expr(V->getInit());
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      Array Bs;
      for (auto *B : DD->bindings()) {
        Object BO;
        BO["id"] = vid(B);
        BO["n"] = B->getNameAsString();
        Bs.push_back(std::move(BO));
      }
      O["bind"] = std::move(Bs);
    }
    return O;
  }

  Value stmt(const Stmt *S) {
    if (!S)
      return nullptr;
    Object O;
    O["l"] = lineOf(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      O["k"] = "block";
      Array A;
      for (auto *C : X->body())
        A.push_back(stmt(C));
      O["s"] = std::move(A);
    } else if (auto *X = dyn_cast<DeclStmt>(S)) {
      O["k"] = "decl";
      Array A;
      for (auto *D : X->decls())
        if (auto *V = dyn_cast<VarDecl>(D))
          A.push_back(varDecl(V));
      O["d"] = std::move(A);
    } else if (auto *X = dyn_cast<IfStmt>(S)) {
      O["k"] = "if";
      O["init"] = stmt(X->getInit());
      if (X->getConditionVariable())
        O["cv"] = varDecl(X->getConditionVariable());
      O["constexpr"] = X->isConstexpr();
      if (X->isConstexpr()) {
        if (auto V = X->getCond()->getIntegerConstantExpr(Ctx))
          O["cval"] = V->getBoolValue();
      }
      O["c"] = expr(X->getCond());
      O["a"] = stmt(X->getThen());
      O["b"] = stmt(X->getElse());
    } else if (auto *X = dyn_cast<ForStmt>(S)) {
      O["k"] = "for";
      O["init"] = stmt(X->getInit());
      O["c"] = expr(X->getCond());
      O["inc"] = expr(X->getInc());
      O["body"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      O["k"] = "rfor";
      O["range"] = expr(X->getRangeInit());
      O["rt"] = ty(X->getRangeInit()->getType());
      O["var"] = varDecl(X->getLoopVariable());
      O["body"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<WhileStmt>(S)) {
      O["k"] = "while";
      if (X->getConditionVariable())
        O["cv"] = varDecl(X->getConditionVariable());
      O["c"] = expr(X->getCond());
      O["body"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<DoStmt>(S)) {
      O["k"] = "do";
      O["c"] = expr(X->getCond());
      O["body"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<SwitchStmt>(S)) {
      O["k"] = "switch";
      O["init"] = stmt(X->getInit());
      O["c"] = expr(X->getCond());
      O["body"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<CaseStmt>(S)) {
      O["k"] = "case";
      O["v"] = expr(X->getLHS());
      O["s"] = stmt(X->getSubStmt());
    } else if (auto *X = dyn_cast<DefaultStmt>(S)) {
      O["k"] = "default";
      O["s"] = stmt(X->getSubStmt());
    } else if (isa<BreakStmt>(S)) {
      O["k"] = "break";
    } else if (isa<ContinueStmt>(S)) {
      O["k"] = "continue";
    } else if (auto *X = dyn_cast<ReturnStmt>(S)) {
      O["k"] = "return";
      O["e"] = expr(X->getRetValue());
    } else if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      O["k"] = "try";
      O["body"] = stmt(X->getTryBlock());
      Array A;
      for (unsigned I = 0; I < X->getNumHandlers(); ++I) {
        auto *H = X->getHandler(I);
        Object HO;
        HO["all"] = H->getExceptionDecl() == nullptr;
        if (H->getExceptionDecl())
          HO["var"] = varDecl(H->getExceptionDecl());
        HO["body"] = stmt(H->getHandlerBlock());
        A.push_back(std::move(HO));
      }
      O["h"] = std::move(A);
    } else if (isa<NullStmt>(S)) {
      O["k"] = "null";
    } else if (auto *X = dyn_cast<AttributedStmt>(S)) {
      return stmt(X->getSubStmt());
    } else if (auto *X = dyn_cast<Expr>(S)) {
      O["k"] = "expr";
      O["e"] = expr(X);
    } else {
      O["k"] = "unsupported";
      O["n"] = S->getStmtClassName();
    }
    return O;
  }

  void body(const FunctionDecl *F) {
    if (!F)
      return;
    const FunctionDecl *Def = nullptr;
    if (!F->hasBody(Def) || !Def)
      return;
    if (Def->isDependentContext() || Def->isTemplated())
      return;
    if (!inRoot(Def->getLocation()))
      return;
    if (auto *M = dyn_cast<CXXMethodDecl>(Def))
      if (M->getParent()->isLambda())
        return;
    std::string U = usr(Def);
    if (!SeenBody.insert(U).second)
      return;
    fn(Def);
    Object O;
    O["fn"] = U;
    O["file"] = fileOf(Def->getLocation());
    O["line"] = lineOf(Def->getLocation());
    O["endline"] = lineOf(Def->getEndLoc());
    Array Ps;
    for (auto *P : Def->parameters()) {
      Object PO;
      PO["name"] = P->getNameAsString();
      PO["type"] = ty(P->getType());
      PO["id"] = vid(P);
      Ps.push_back(std::move(PO));
    }
    O["params"] = std::move(Ps);
    if (auto *C = dyn_cast<CXXConstructorDecl>(Def)) {
      Array Is;
      for (auto *I : C->inits()) {
        Object IO;
        if (I->isMemberInitializer())
          IO["f"] = I->getMember()->getNameAsString();
        else if (I->isBaseInitializer())
          IO["base"] = ty(QualType(I->getBaseClass(), 0));
        else
          IO["deleg"] = true;
        IO["written"] = I->isWritten();
        IO["e"] = expr(I->getInit());
        Is.push_back(std::move(IO));
      }
      O["inits"] = std::move(Is);
    }
    O["body"] = stmt(Def->getBody());
    Bodies.push_back(std::move(O));
  }
};

class V : public RecursiveASTVisitor<V> {
public:
  explicit V(Exporter &E) : E(E) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (E.inRoot(F->getLocation()))
      E.body(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isThisDeclarationADefinition() && !R->isDependentType())
      E.noteRecord(R);
    return true;
  }
  bool VisitVarDecl(VarDecl *D) {
    if (D->hasGlobalStorage() && !D->isStaticLocal() &&
        E.inRoot(D->getLocation()) && !D->isTemplated())
      E.noteGlobal(D);
    return true;
  }
  Exporter &E;
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred())
      Failed = true;
    Exporter E(C);
    V Vis(E);
    for (Decl *D : C.getTranslationUnitDecl()->noload_decls())
      if (!D->isFromASTFile())
        Vis.TraverseDecl(D);
    for (size_t I = 0; I < E.Pending.size(); ++I) {
      E.body(E.Pending[I]);
    }
    E.drainRecords();
    for (size_t I = 0; I < E.Pending.size(); ++I)
      E.body(E.Pending[I]);
    E.drainRecords();
    Object O;
    O["main"] = C.getSourceManager()
                    .getFileEntryRefForID(C.getSourceManager().getMainFileID())
                    ->getName()
                    .str();
    O["funcs"] = std::move(E.Funcs);
    O["records"] = std::move(E.Records);
    O["enums"] = std::move(E.Enums);
    O["globals"] = std::move(E.Globals);
    O["bodies"] = std::move(E.Bodies);
    O["errors"] = Failed;
    llvm::outs() << Value(std::move(O)) << "\n";
  }
  bool Failed = false;
};

class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &,
                                                 llvm::StringRef) override {
    return std::make_unique<Consumer>();
  }
};

} // namespace

static llvm::cl::OptionCategory Cat("cxxvc-export");
static llvm::cl::opt<std::string> RootOpt("root", llvm::cl::desc("source root"),
                                          llvm::cl::cat(Cat),
                                          llvm::cl::init("/repo/"));

int main(int argc, const char **argv) {
  auto P = tooling::CommonOptionsParser::create(argc, argv, Cat);
  if (!P) {
    llvm::errs() << llvm::toString(P.takeError());
    return 2;
  }
  Root = RootOpt;
  tooling::ClangTool Tool(P->getCompilations(), P->getSourcePathList());
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
