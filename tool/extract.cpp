// dyfacts: dumps the resolved (type-checked, template-instantiated) syntax trees of every
// function defined under a given source root as JSON lines.
//   usage: dyfacts <root> <out.jsonl> <file.cpp> -- <clang args...>
// One line per entity: {"e":"fn",...} {"e":"var",...} {"e":"rec",...} {"e":"enum",...}
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/ExprOpenMP.h"
#include "clang/AST/PrettyPrinter.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Lex/PPCallbacks.h"
#include "clang/Lex/MacroArgs.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/Path.h"
#include <set>
#include <map>
using namespace clang;
using std::string;

static string ROOT;
static llvm::raw_ostream *OUT;

static void js(llvm::raw_ostream &o, llvm::StringRef s) {
  o << '"';
  for (unsigned char c : s) {
    switch (c) {
    case '"': o << "\\\""; break;
    case '\\': o << "\\\\"; break;
    case '\n': o << "\\n"; break;
    case '\t': o << "\\t"; break;
    case '\r': o << "\\r"; break;
    default:
      if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o << b; }
      else o << c;
    }
  }
  o << '"';
}

struct Dumper {
  ASTContext &C;
  const SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, string> fidCache;
  std::map<const Type*, string> tyCache;
  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true;
    PP.Bool = true; PP.SuppressUnwrittenScope = false; PP.AnonymousTagLocations = true;
    PP.TerseOutput = true;
  }
  // file relative to ROOT, or "" if outside
  string relFile(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    auto FE = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!FE) return "";
    static std::map<string,string> cache;
    string n = FE->getName().str();
    auto it = cache.find(n);
    if (it != cache.end()) return it->second;
    llvm::SmallString<256> p(n);
    llvm::sys::fs::make_absolute(p);
    llvm::sys::path::remove_dots(p, true);
    string a = p.str().str(), r;
    if (a.rfind(ROOT + "/", 0) == 0) r = a.substr(ROOT.size() + 1);
    cache[n] = r;
    return r;
  }
  unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  unsigned col(SourceLocation L) { return SM.getExpansionColumnNumber(L); }

  string typeStr(QualType T) {
    if (T.isNull()) return "";
    string s = T.getCanonicalType().getAsString(PP);
    if (s.size() > 600) s.resize(600);
    return s;
  }
  string spelled(QualType T) {
    if (T.isNull()) return "";
    PrintingPolicy P2 = PP; P2.PrintCanonicalTypes = false; P2.FullyQualifiedName = false;
    string s = T.getAsString(P2);
    if (s.size() > 200) s.resize(200);
    return s;
  }
  string qual(const NamedDecl *D) {
    string s; llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, PP);
    return os.str();
  }

  string varId(const ValueDecl *V) {
    SourceLocation L = V->getLocation();
    string s = V->getNameAsString();
    s += "@"; 
    string f = relFile(L);
    if (f.empty()) f = "ext";
    // last path component is enough together with line:col
    s += f + ":" + std::to_string(line(L)) + ":" + std::to_string(col(L));
    if (auto *P = dyn_cast<ParmVarDecl>(V)) // elements of an expanded parameter pack share name and place
      if (auto *F = dyn_cast_or_null<FunctionDecl>(P->getDeclContext())) {
        unsigned i = P->getFunctionScopeIndex(), k = 0;
        for (unsigned j = 0; j < i && j < F->getNumParams(); j++)
          if (F->getParamDecl(j)->getLocation() == L) k++;
        if (k) s += "#" + std::to_string(k);
      }
    return s;
  }
  void lamTag(llvm::raw_ostream &os, QualType T) {
    T = T.getNonReferenceType();
    auto *RD = T->getAsCXXRecordDecl();
    if (!RD || !RD->isLambda()) return;
    if (auto *PF = dyn_cast_or_null<FunctionDecl>(RD->getParentFunctionOrMethod())) {
      string p = fnId(PF);
      uint64_t h = 1469598103934665603ULL; for (unsigned char c : p) { h ^= c; h *= 1099511628211ULL; }
      char b[20]; snprintf(b, 20, "{%08x}", (unsigned)(h ^ (h >> 32))); os << b;
    }
  }
  string fnId(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    auto it = fidCache.find(F);
    if (it != fidCache.end()) return it->second;
    string s; llvm::raw_string_ostream os(s);
    const CXXMethodDecl *M = dyn_cast<CXXMethodDecl>(F);
    if (M && M->getParent()->isLambda()) {
      string par;
      if (auto *PF = dyn_cast_or_null<FunctionDecl>(M->getParent()->getParentFunctionOrMethod())) par = fnId(PF);
      SourceLocation L = M->getParent()->getLocation();
      os << par << "$L" << relFile(L) << ":" << line(L) << ":" << col(L);
      if (F->isFunctionTemplateSpecialization()) {
        os << "<";
        if (auto *TA = F->getTemplateSpecializationArgs())
          for (auto &A : TA->asArray()) { A.print(PP, os, true); os << ","; }
        os << ">";
      }
      if (!M->getDeclName().isIdentifier() && M->getOverloadedOperator() != OO_Call) os << "#conv";
    } else {
      F->getNameForDiagnostic(os, PP, true);
      os << "(";
      bool first = true;
      for (auto *P : F->parameters()) { if (!first) os << ","; first = false; os << P->getType().getCanonicalType().getAsString(PP); }
      os << ")";
      if (M && M->isConst()) os << "const";
      // the same lambda location in two instantiations of its enclosing template is two types
      if (auto *TA = F->getTemplateSpecializationArgs())
        for (auto &A : TA->asArray()) {
          if (A.getKind() == TemplateArgument::Type) lamTag(os, A.getAsType());
          else if (A.getKind() == TemplateArgument::Pack) for (auto &B : A.pack_elements()) if (B.getKind() == TemplateArgument::Type) lamTag(os, B.getAsType());
        }
      if (F->getFormalLinkage() == Linkage::Internal || F->isInAnonymousNamespace()) {
        os << "@" << relFile(F->getLocation());
      }
    }
    string r = os.str();
    if (r.size() > 1500) { size_t h = std::hash<string>{}(r); r.resize(1400); r += "#" + std::to_string(h); }
    return fidCache[F] = r;
  }

  // -------- statements
  typedef llvm::raw_ostream OS;
  void kids(OS &o, const Stmt *S) {
    o << ",\"c\":[";
    bool first = true;
    for (const Stmt *K : S->children()) {
      if (!first) o << ","; first = false;
      node(o, K);
    }
    o << "]";
  }
  void callee(OS &o, const FunctionDecl *F) {
    if (!F) return;
    o << ",\"f\":"; js(o, fnId(F));
    o << ",\"fn\":"; js(o, qual(F));
    string rf = relFile(F->getLocation());
    if (!rf.empty()) o << ",\"in\":1";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { if (M->isVirtual()) o << ",\"virt\":1"; if (M->isStatic()) o << ",\"st\":1"; else o << ",\"mem\":1"; if (M->isConst()) o << ",\"cm\":1"; }
  }
  void vardecl(OS &o, const VarDecl *V) {
    o << "{\"k\":\"Var\",\"d\":"; js(o, varId(V));
    o << ",\"n\":"; js(o, V->getNameAsString());
    o << ",\"t\":"; js(o, typeStr(V->getType()));
    o << ",\"s\":"; js(o, spelled(V->getType()));
    o << ",\"l\":" << line(V->getLocation());
    if (V->getType()->isReferenceType()) o << ",\"ref\":1";
    if (V->isStaticLocal()) o << ",\"static\":1";
    if (V->isConstexpr()) o << ",\"cx\":1";
    const Expr *I = V->getInit();
    if (I) {
      bool implicitDefault = false;
      if (auto *CE = dyn_cast<CXXConstructExpr>(I->IgnoreImplicit()))
        if (CE->getNumArgs() == 0 && !CE->isListInitialization() && CE->getParenOrBraceRange().isInvalid()) {
          implicitDefault = CE->getConstructor()->isTrivial() ;
        }
      if (implicitDefault) o << ",\"triv\":1";
      if (!I->isValueDependent() && V->getType()->isIntegralOrEnumerationType() && V->getType().isConstQualified()) {
        Expr::EvalResult R;
        if (I->EvaluateAsInt(R, C)) o << ",\"cv\":" << R.Val.getInt().getExtValue();
      }
      o << ",\"init\":"; node(o, I);
    }
    // does default-init leave it indeterminate?
    o << "}";
  }
  void node(OS &o, const Stmt *S) {
    if (!S) { o << "null"; return; }
    if (auto *E = dyn_cast<Expr>(S)) {
      // transparent wrappers
      if (auto *X = dyn_cast<ParenExpr>(E)) return node(o, X->getSubExpr());
      if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
        if (X->getCastKind() == CK_LValueToRValue) {
          // mark loads explicitly
          const Expr *sub = X->getSubExpr();
          return node(o, sub);
        }
        return node(o, X->getSubExpr());
      }
      if (auto *X = dyn_cast<ExprWithCleanups>(E)) return node(o, X->getSubExpr());
      if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) return node(o, X->getSubExpr());
      if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return node(o, X->getSubExpr());
      if (auto *X = dyn_cast<ConstantExpr>(E)) return node(o, X->getSubExpr());
      if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return node(o, X->getReplacement());
      if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) { o << "{\"k\":\"DefArg\",\"c\":["; node(o, X->getExpr()); o << "]}"; return; }
      if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) { o << "{\"k\":\"DefInit\",\"c\":["; node(o, X->getExpr()); o << "]}"; return; }
      if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return node(o, X->getSubExpr());
      if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { if (X->getSourceExpr()) return node(o, X->getSourceExpr()); }
    }
    if (auto *A = dyn_cast<AttributedStmt>(S)) return node(o, A->getSubStmt());
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      o << "{\"k\":\"Decl\",\"l\":" << line(S->getBeginLoc()) << ",\"c\":[";
      bool first = true;
      for (auto *D : X->decls()) {
        if (auto *V = dyn_cast<VarDecl>(D)) { if (!first) o << ","; first = false; vardecl(o, V);
          if (auto *DD = dyn_cast<DecompositionDecl>(D)) {
            for (auto *B : DD->bindings()) { o << ",{\"k\":\"Binding\",\"d\":"; js(o, varId(B)); o << ",\"n\":"; js(o, B->getNameAsString()); o << ",\"of\":"; js(o, varId(V)); o << ",\"t\":"; js(o, typeStr(B->getType())); o << "}"; }
          }
        }
      }
      o << "]}";
      return;
    }
    if (auto *X = dyn_cast<LambdaExpr>(S)) { lambda(o, X); return; }
    o << "{\"k\":";
    string kind = S->getStmtClassName();
    js(o, kind);
    o << ",\"l\":" << line(S->getBeginLoc());
    if (auto *E = dyn_cast<Expr>(S)) {
      o << ",\"t\":"; js(o, typeStr(E->getType()));
      if (E->isGLValue()) o << ",\"lv\":1";
      bool wantEval = isa<BinaryOperator>(E) || isa<UnaryOperator>(E) || isa<ConditionalOperator>(E) || isa<DeclRefExpr>(E) || isa<IntegerLiteral>(E) || isa<CXXBoolLiteralExpr>(E) || isa<CharacterLiteral>(E) || isa<UnaryExprOrTypeTraitExpr>(E) || isa<TypeTraitExpr>(E) || isa<ExplicitCastExpr>(E) || isa<CallExpr>(E) || isa<SizeOfPackExpr>(E);
      if (wantEval && !E->isValueDependent() && !E->isTypeDependent() && E->getType()->isIntegralOrEnumerationType()) {
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) { llvm::SmallString<32> b; R.Val.getInt().toString(b, 10); o << ",\"cv\":" << b; }
      }
    }
    if (auto *X = dyn_cast<DeclRefExpr>(S)) {
      const ValueDecl *D = X->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o << ",\"dk\":\"fn\""; callee(o, F); }
      else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        o << ",\"dk\":\"enum\",\"n\":"; js(o, EC->getNameAsString());
        o << ",\"q\":"; js(o, qual(EC));
        o << ",\"v\":" << EC->getInitVal().getExtValue();
      } else {
        bool loc = false;
        if (auto *V = dyn_cast<VarDecl>(D)) loc = V->isLocalVarDeclOrParm();
        if (isa<BindingDecl>(D)) loc = true;
        o << ",\"dk\":"; js(o, isa<ParmVarDecl>(D) ? "param" : (loc ? "local" : "global"));
        o << ",\"n\":"; js(o, D->getNameAsString());
        if (!loc) { o << ",\"q\":"; js(o, qual(D)); string s; llvm::raw_string_ostream os(s); D->getNameForDiagnostic(os, PP, true); o << ",\"qd\":"; js(o, os.str()); 
          if (auto *VD=dyn_cast<VarDecl>(D)) { const DeclContext *DC = VD->getDeclContext(); if (auto *CTS = dyn_cast<ClassTemplateSpecializationDecl>(DC)) { string s2; llvm::raw_string_ostream os2(s2); CTS->getNameForDiagnostic(os2, PP, true); o << ",\"cls\":"; js(o, os2.str()); } } }
        o << ",\"d\":"; js(o, varId(D));
        if (X->refersToEnclosingVariableOrCapture()) o << ",\"cap\":1";
      }
    } else if (auto *X = dyn_cast<MemberExpr>(S)) {
      const ValueDecl *D = X->getMemberDecl();
      o << ",\"n\":"; js(o, D->getNameAsString());
      o << ",\"q\":"; js(o, qual(D));
      if (X->isArrow()) o << ",\"arrow\":1";
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o << ",\"dk\":\"fn\""; callee(o, F); }
      else if (isa<FieldDecl>(D)) o << ",\"dk\":\"field\"";
      else { o << ",\"dk\":\"smem\",\"d\":"; js(o, varId(D)); }
    } else if (auto *X = dyn_cast<CallExpr>(S)) {
      const FunctionDecl *F = X->getDirectCallee();
      callee(o, F);
      if (auto *OC = dyn_cast<CXXOperatorCallExpr>(S)) { o << ",\"o\":"; js(o, getOperatorSpelling(OC->getOperator())); }
      if (auto *MC = dyn_cast<CXXMemberCallExpr>(S)) {
        if (F) if (auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParenImpCasts())) if (ME->hasQualifier()) o << ",\"nov\":1";
        if (auto *RD = MC->getRecordDecl()) { o << ",\"rc\":"; js(o, qual(RD)); }
      }
      if (F && F->getTemplateSpecializationArgs() && relFile(F->getLocation()) != "") {
        o << ",\"ta\":[";
        bool first = true;
        for (auto &A : F->getTemplateSpecializationArgs()->asArray()) { if (!first) o << ","; first = false; string s; llvm::raw_string_ostream os(s); A.print(PP, os, true); js(o, os.str().substr(0,300)); }
        o << "]";
      }
      if (F) if (auto *MD = dyn_cast<CXXMethodDecl>(F)) if (MD->getParent()->isLambda()) {
        o << ",\"lamcall\":1";
      }
    } else if (auto *X = dyn_cast<CXXConstructExpr>(S)) {
      callee(o, X->getConstructor());
      o << ",\"cls\":"; js(o, qual(X->getConstructor()->getParent()));
      if (X->getConstructor()->isTrivial()) o << ",\"trivctor\":1";
      if (X->getConstructor()->isCopyOrMoveConstructor()) o << ",\"copy\":1";
      if (X->isListInitialization()) o << ",\"list\":1";
      if (X->requiresZeroInitialization()) o << ",\"zero\":1";
    } else if (auto *X = dyn_cast<BinaryOperator>(S)) {
      o << ",\"o\":"; js(o, X->getOpcodeStr());
    } else if (auto *X = dyn_cast<UnaryOperator>(S)) {
      o << ",\"o\":"; js(o, (X->isPostfix() ? string("post") : string("")) + UnaryOperator::getOpcodeStr(X->getOpcode()).str());
    } else if (auto *X = dyn_cast<IntegerLiteral>(S)) {
      llvm::SmallString<32> b; X->getValue().toString(b, 10, X->getType()->isSignedIntegerType()); o << ",\"v\":" << b;
    } else if (auto *X = dyn_cast<FloatingLiteral>(S)) {
      o << ",\"v\":"; 
      llvm::SmallString<40> b; X->getValue().toString(b, 20); js(o, b);
    } else if (auto *X = dyn_cast<CXXBoolLiteralExpr>(S)) {
      o << ",\"v\":" << (X->getValue() ? 1 : 0);
    } else if (auto *X = dyn_cast<CharacterLiteral>(S)) {
      o << ",\"v\":" << X->getValue();
    } else if (auto *X = dyn_cast<StringLiteral>(S)) {
      o << ",\"v\":"; if (X->getCharByteWidth() == 1) js(o, X->getString()); else o << "null";
    } else if (auto *X = dyn_cast<ExplicitCastExpr>(S)) {
      o << ",\"ck\":"; js(o, X->getCastKindName());
    } else if (auto *X = dyn_cast<IfStmt>(S)) {
      if (X->isConstexpr()) o << ",\"cx\":1";
      o << ",\"init\":"; node(o, X->getInit());
      o << ",\"cvar\":"; if (X->getConditionVariable()) vardecl(o, X->getConditionVariable()); else o << "null";
      o << ",\"cond\":"; node(o, X->getCond());
      o << ",\"then\":"; node(o, X->getThen());
      o << ",\"else\":"; node(o, X->getElse());
      o << "}"; return;
    } else if (auto *X = dyn_cast<ForStmt>(S)) {
      o << ",\"init\":"; node(o, X->getInit());
      o << ",\"cond\":"; node(o, X->getCond());
      o << ",\"inc\":"; node(o, X->getInc());
      o << ",\"body\":"; node(o, X->getBody());
      o << "}"; return;
    } else if (auto *X = dyn_cast<WhileStmt>(S)) {
      o << ",\"cond\":"; node(o, X->getCond());
      o << ",\"body\":"; node(o, X->getBody());
      o << "}"; return;
    } else if (auto *X = dyn_cast<DoStmt>(S)) {
      o << ",\"cond\":"; node(o, X->getCond());
      o << ",\"body\":"; node(o, X->getBody());
      o << "}"; return;
    } else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      o << ",\"var\":"; vardecl(o, X->getLoopVariable());
      if (auto *DD = dyn_cast<DecompositionDecl>(X->getLoopVariable())) {
        o << ",\"binds\":["; bool first = true;
        for (auto *B : DD->bindings()) { if (!first) o << ","; first = false; js(o, varId(B)); }
        o << "]";
      }
      o << ",\"range\":"; node(o, X->getRangeInit());
      o << ",\"body\":"; node(o, X->getBody());
      o << "}"; return;
    } else if (auto *X = dyn_cast<SwitchStmt>(S)) {
      o << ",\"cond\":"; node(o, X->getCond());
      if (X->isAllEnumCasesCovered()) o << ",\"allenum\":1";
      o << ",\"body\":"; node(o, X->getBody());
      o << "}"; return;
    } else if (auto *X = dyn_cast<CaseStmt>(S)) {
      o << ",\"val\":"; node(o, X->getLHS());
      o << ",\"body\":"; node(o, X->getSubStmt());
      o << "}"; return;
    } else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
      o << ",\"o\":"; js(o, getTraitSpelling(X->getKind()));
      if (X->isArgumentType()) { o << ",\"at\":"; js(o, typeStr(X->getArgumentType())); }
      o << ",\"c\":[]}"; return;
    } else if (auto *X = dyn_cast<CXXCatchStmt>(S)) {
      o << ",\"c\":["; node(o, X->getHandlerBlock()); o << "]}"; return;
    } else if (auto *X = dyn_cast<CXXNewExpr>(S)) {
      if (X->isArray()) o << ",\"arr\":1";
    } else if (auto *X = dyn_cast<CXXThisExpr>(S)) {
      if (X->isImplicit()) o << ",\"impl\":1";
    } else if (auto *X = dyn_cast<InitListExpr>(S)) {
      if (auto *Sem = X->isSemanticForm() ? X : X->getSemanticForm()) {
        o << ",\"c\":["; bool first = true;
        for (auto *K : Sem->inits()) { if (!first) o << ","; first = false; node(o, K); }
        o << "]}"; return;
      }
    }
    kids(o, S);
    o << "}";
  }
  string curFn;
  void lambda(OS &o, const LambdaExpr *L) {
    const CXXRecordDecl *RD = L->getLambdaClass();
    o << "{\"k\":\"Lambda\",\"l\":" << line(L->getBeginLoc());
    o << ",\"cd\":"; js(o, L->getCaptureDefault() == LCD_ByCopy ? "=" : L->getCaptureDefault() == LCD_ByRef ? "&" : "");
    o << ",\"t\":"; js(o, typeStr(L->getType()));
    o << ",\"caps\":[";
    bool first = true;
    auto ii = L->capture_init_begin();
    for (auto &Cp : L->captures()) {
      if (!first) o << ","; first = false;
      if (Cp.capturesThis()) o << "{\"this\":1,\"impl\":" << (Cp.isImplicit() ? 1 : 0) << ",\"star\":" << (Cp.getCaptureKind() == LCK_StarThis ? 1 : 0) << "}";
      else if (Cp.capturesVariable()) {
        auto *V = Cp.getCapturedVar();
        o << "{\"d\":"; js(o, varId(V)); o << ",\"n\":"; js(o, V->getNameAsString());
        o << ",\"t\":"; js(o, typeStr(V->getType()));
        o << ",\"ref\":" << (Cp.getCaptureKind() == LCK_ByRef ? 1 : 0);
        o << ",\"impl\":" << (Cp.isImplicit() ? 1 : 0);
        if (V->isInitCapture()) { o << ",\"init\":"; if (auto *VD = dyn_cast<VarDecl>(V)) node(o, VD->getInit()); else o << "null"; }
        o << "}";
      } else o << "{}";
      ++ii;
    }
    o << "],\"fns\":[";
    // call operator(s)
    string save = curFn;
    first = true;
    if (RD->isGenericLambda()) {
      if (auto *FT = RD->getDependentLambdaCallOperator())
        for (auto *Sp : FT->specializations()) {
          const FunctionDecl *Def = nullptr;
          if (!Sp->isDefined(Def)) continue;
          if (!first) o << ","; first = false;
          js(o, fnId(Sp));
          pending.push_back({cast<FunctionDecl>(Def), fnId(Sp)});
        }
    } else if (auto *M = L->getCallOperator()) {
      js(o, fnId(M));
      pending.push_back({M, fnId(M)});
    }
    curFn = save;
    o << "]}";
  }
  std::vector<std::pair<const FunctionDecl *, string>> pending;
  std::set<string> done;

  void function(const FunctionDecl *F) {
    const FunctionDecl *Def = nullptr;
    if (!F->isDefined(Def) || !Def || !Def->hasBody()) return;
    if (Def->isDependentContext()) return;
    if (Def->isImplicit() || Def->isDefaulted()) return;
    string rf = relFile(Def->getLocation());
    if (rf.empty()) return;
    emit(Def, fnId(Def), "");
  }
  void emit(const FunctionDecl *Def, const string &id, const string &parent) {
    if (!done.insert(id).second) return;
    string buf; llvm::raw_string_ostream o(buf);
    string saveFn = curFn; curFn = id;
    o << "{\"e\":\"fn\",\"id\":"; js(o, id);
    o << ",\"q\":"; js(o, qual(Def));
    o << ",\"n\":"; js(o, Def->getNameAsString());
    o << ",\"file\":"; js(o, relFile(Def->getLocation()));
    o << ",\"line\":" << line(Def->getLocation());
    o << ",\"end\":" << line(Def->getEndLoc());
    o << ",\"rt\":"; js(o, typeStr(Def->getReturnType()));
    if (!parent.empty()) { o << ",\"parent\":"; js(o, parent); }
    if (Def->isTemplateInstantiation()) o << ",\"inst\":1";
    if (auto *M = dyn_cast<CXXMethodDecl>(Def)) {
      o << ",\"cls\":"; js(o, qual(M->getParent()));
      { string s; llvm::raw_string_ostream os(s); M->getParent()->getNameForDiagnostic(os, PP, true); o << ",\"clsd\":"; js(o, os.str().substr(0,400)); }
      if (M->isVirtual()) o << ",\"virt\":1";
      if (M->isStatic()) o << ",\"st\":1";
      if (M->isConst()) o << ",\"cm\":1";
      o << ",\"ov\":["; bool first = true;
      for (auto *O : M->overridden_methods()) { if (!first) o << ","; first = false; js(o, fnId(O)); }
      o << "]";
      if (M->getParent()->isLambda()) o << ",\"lambda\":1";
    }
    if (auto *TA = Def->getTemplateSpecializationArgs()) {
      o << ",\"ta\":["; bool first = true;
      for (auto &A : TA->asArray()) { if (!first) o << ","; first = false; string s; llvm::raw_string_ostream os(s); A.print(PP, os, true); js(o, os.str().substr(0,300)); }
      o << "]";
    }
    o << ",\"params\":[";
    bool first = true;
    for (auto *P : Def->parameters()) {
      if (!first) o << ","; first = false;
      o << "{\"d\":"; js(o, varId(P)); o << ",\"n\":"; js(o, P->getNameAsString()); o << ",\"t\":"; js(o, typeStr(P->getType())); o << ",\"s\":"; js(o, spelled(P->getType())); o << "}";
    }
    o << "]";
    if (auto *Ct = dyn_cast<CXXConstructorDecl>(Def)) {
      o << ",\"ctor\":1,\"inits\":[";
      bool first = true;
      for (auto *I : Ct->inits()) {
        if (!first) o << ","; first = false;
        o << "{\"m\":";
        if (I->isAnyMemberInitializer()) js(o, I->getAnyMember()->getNameAsString());
        else if (I->isBaseInitializer()) { js(o, "base:" + typeStr(QualType(I->getBaseClass(), 0))); }
        else js(o, "delegating");
        o << ",\"w\":" << (I->isWritten() ? 1 : 0) << ",\"x\":"; node(o, I->getInit()); o << "}";
      }
      o << "]";
    }
    if (isa<CXXDestructorDecl>(Def)) o << ",\"dtor\":1";
    o << ",\"body\":"; node(o, Def->getBody());
    o << "}\n";
    curFn = saveFn;
    *OUT << o.str();
    // lambdas found inside
    auto p = std::move(pending); pending.clear();
    for (auto &x : p) emit(x.first, x.second, id);
  }
  void global(const VarDecl *V) {
    string rf = relFile(V->getLocation());
    if (rf.empty()) return;
    if (V->isLocalVarDeclOrParm()) return;
    if (V->getType()->isDependentType()) return;
    if (V->getDeclContext()->isDependentContext()) return;
    string buf; llvm::raw_string_ostream o(buf);
    curFn = "var:" + rf + ":" + std::to_string(line(V->getLocation()));
    o << "{\"e\":\"var\",\"file\":"; js(o, rf); o << ",\"line\":" << line(V->getLocation());
    o << ",\"q\":"; js(o, qual(V));
    string s; llvm::raw_string_ostream os(s);
    if (auto *CTS = dyn_cast<ClassTemplateSpecializationDecl>(V->getDeclContext())) { CTS->getNameForDiagnostic(os, PP, true); os << "::" << V->getNameAsString(); }
    else V->getNameForDiagnostic(os, PP, true);
    o << ",\"qd\":"; js(o, os.str());
    o << ",\"isdef\":" << (V->isThisDeclarationADefinition() ? 1 : 0);
    o << ",\"v\":"; 
    const VarDecl *D = V; 
    vardecl(o, D);
    o << "}\n";
    *OUT << o.str();
    auto p = std::move(pending); pending.clear();
    for (auto &x : p) emit(x.first, x.second, curFn);
  }
  void record(const CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return;
    string rf = relFile(R->getLocation());
    if (rf.empty()) return;
    string buf; llvm::raw_string_ostream o(buf);
    o << "{\"e\":\"rec\",\"file\":"; js(o, rf); o << ",\"line\":" << line(R->getLocation());
    o << ",\"q\":"; js(o, qual(R));
    string s; llvm::raw_string_ostream os(s); R->getNameForDiagnostic(os, PP, true);
    o << ",\"qd\":"; js(o, os.str());
    o << ",\"bases\":["; bool first = true;
    for (auto &B : R->bases()) { if (!first) o << ","; first = false; js(o, typeStr(B.getType())); }
    o << "],\"abstract\":" << (R->isAbstract() ? 1 : 0);
    o << ",\"agg\":" << (R->isAggregate() ? 1 : 0);
    bool userctor=false; for (auto *Ct : R->ctors()) if (Ct->isUserProvided()) userctor=true;
    o << ",\"userctor\":" << (userctor?1:0);
    o << ",\"fields\":["; first = true;
    for (auto *F : R->fields()) {
      if (!first) o << ","; first = false;
      o << "{\"n\":"; js(o, F->getNameAsString()); o << ",\"t\":"; js(o, typeStr(F->getType())); o << ",\"s\":"; js(o, spelled(F->getType()));
      o << ",\"l\":" << line(F->getLocation());
      o << ",\"scalar\":" << (F->getType()->isScalarType() ? 1 : 0);
      o << ",\"init\":"; if (F->hasInClassInitializer() && F->getInClassInitializer()) { curFn = "rec:" + rf; node(o, F->getInClassInitializer()); pending.clear(); } else o << "null";
      o << "}";
    }
    o << "],\"methods\":["; first = true;
    for (auto *M : R->methods()) { if (M->isImplicit()) continue; if (!first) o << ","; first = false;
      o << "{\"id\":"; js(o, fnId(M)); o << ",\"n\":"; js(o, M->getNameAsString()); o << ",\"pure\":" << (M->isPureVirtual() ? 1 : 0) << ",\"virt\":" << (M->isVirtual()?1:0) << "}"; }
    o << "]}\n";
    *OUT << o.str();
  }
  void enumd(const EnumDecl *E) {
    if (!E->isThisDeclarationADefinition()) return;
    string rf = relFile(E->getLocation());
    if (rf.empty()) return;
    if (E->getDeclContext()->isDependentContext()) return;
    llvm::raw_ostream &o = *OUT;
    o << "{\"e\":\"enum\",\"file\":"; js(o, rf); o << ",\"line\":" << line(E->getLocation()); o << ",\"q\":"; js(o, qual(E)); o << ",\"vals\":[";
    bool first = true;
    for (auto *C : E->enumerators()) { if (!first) o << ","; first = false; o << "["; js(o, C->getNameAsString()); o << "," << C->getInitVal().getExtValue() << "]"; }
    o << "]}\n";
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Dumper &D;
  Visitor(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true; // emitted with parent
    if (F->isThisDeclarationADefinition() && !D.relFile(F->getLocation()).empty()) D.function(F);
    return true;
  }
  bool VisitVarDecl(VarDecl *V) { if (!isa<ParmVarDecl>(V)) D.global(V); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { D.record(R); return true; }
  bool VisitEnumDecl(EnumDecl *E) { D.enumd(E); return true; }
  bool TraverseDecl(Decl *X) {
    if (!X) return true;
    // prune top-level declarations of system headers (instantiations of repo templates live with the template)
    if (!isa<TranslationUnitDecl>(X) && !isa<NamespaceDecl>(X) && !isa<LinkageSpecDecl>(X) && X->getDeclContext()->isFileContext()) {
      SourceLocation L = X->getLocation();
      if (L.isValid() && D.relFile(L).empty()) return true;
    }
    return RecursiveASTVisitor<Visitor>::TraverseDecl(X);
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C);
    Visitor V(D);
    V.TraverseDecl(C.getTranslationUnitDecl());
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    CI.getDiagnostics().setSuppressSystemWarnings(true);
    return std::make_unique<Consumer>();
  }
};

int main(int argc, char **argv) {
  if (argc < 5) return 2;
  ROOT = argv[1];
  std::error_code EC;
  llvm::raw_fd_ostream out(argv[2], EC);
  if (EC) { llvm::errs() << "cannot write\n"; return 2; }
  OUT = &out;
  string file = argv[3];
  std::vector<string> args;
  for (int i = 5; i < argc; i++) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", args);
  tooling::ClangTool T(DB, {file});
  int r = T.run(tooling::newFrontendActionFactory<Action>().get());
  out.flush();
  return r ? 3 : 0;
}
