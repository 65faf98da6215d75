// yxt: dumps the resolved, type-checked program as structured JSON trees.
// Usage: yxt -o OUT.json -root DIR [-root DIR]... SOURCE -- clang flags...
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Attr.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ExprOpenMP.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/ADT/SmallString.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
using std::string;

static std::vector<string> roots;
static string outName;
static bool hadError = false;

namespace {

struct Out {
  string s;
  void raw(llvm::StringRef r) { s.append(r.data(), r.size()); }
  void str(llvm::StringRef r) {
    s.push_back('"');
    for (unsigned char c : r) {
      switch (c) {
      case '"': s += "\\\""; break;
      case '\\': s += "\\\\"; break;
      case '\n': s += "\\n"; break;
      case '\t': s += "\\t"; break;
      case '\r': s += "\\r"; break;
      default:
        if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); s += b; }
        else s.push_back(c);
      }
    }
    s.push_back('"');
  }
  void num(long long v) { s += std::to_string(v); }
};

class Dumper : public RecursiveASTVisitor<Dumper> {
  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<string, int> files, types;
  std::vector<string> fileList, typeList;
  std::set<string> seenFn, seenCls, seenVar;
public:
  Out F, Cl, Gv;          // function, class & global records.
  bool firstF = true, firstC = true, firstG = true;

  Dumper(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.Bool = true;
    PP.SuppressInlineNamespace = true; PP.TerseOutput = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  const std::vector<string> &getFiles() { return fileList; }
  const std::vector<string> &getTypes() { return typeList; }

  string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto FE = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!FE) return "";
    llvm::StringRef rp = FE->getFileEntry().tryGetRealPathName();
    return rp.empty() ? FE->getName().str() : rp.str();
  }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    string f = fileOf(L);
    for (auto &r : roots) if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  int fileIdx(const string &f) {
    auto it = files.find(f); if (it != files.end()) return it->second;
    int n = fileList.size(); files[f] = n; fileList.push_back(f); return n;
  }
  int typeIdx(QualType T) {
    string s = T.isNull() ? "?" : T.getCanonicalType().getAsString(PP);
    auto it = types.find(s); if (it != types.end()) return it->second;
    int n = typeList.size(); types[s] = n; typeList.push_back(s); return n;
  }
  void loc(Out &o, SourceLocation L) {
    if (L.isInvalid()) { o.raw("[-1,0]"); return; }
    SourceLocation E = SM.getExpansionLoc(L);
    o.raw("["); o.num(fileIdx(fileOf(E))); o.raw(","); o.num(SM.getExpansionLineNumber(E)); o.raw("]");
  }
  string usr(const Decl *D) {
    llvm::SmallString<128> B;
    if (index::generateUSRForDecl(D, B)) {
      return "?";
    }
    string s = B.str().str();
    // Make function-template specialisations unique.
    if (auto *FD = dyn_cast<FunctionDecl>(D))
      if (auto *TA = FD->getTemplateSpecializationArgs()) {
        s += "<";
        for (auto &A : TA->asArray()) { llvm::raw_string_ostream os(s); A.print(PP, os, true); s += ","; }
        s += ">";
      }
    for (const DeclContext *DC = D->getDeclContext(); DC; DC = DC->getParent())
      if (auto *CS = dyn_cast<ClassTemplateSpecializationDecl>(DC)) {
        s += "{";
        for (auto &A : CS->getTemplateArgs().asArray()) { llvm::raw_string_ostream os(s); A.print(PP, os, true); s += ","; }
        s += "}";
      }
    return s;
  }
  string qname(const NamedDecl *D) {
    string s; llvm::raw_string_ostream os(s);
    PrintingPolicy P2 = PP; 
    D->printQualifiedName(os, P2);
    return os.str();
  }
  string localId(const ValueDecl *D) {
    SourceLocation L = SM.getExpansionLoc(D->getLocation());
    // Variables in one macro expansion: use spelling position as well.
    SourceLocation S = SM.getSpellingLoc(D->getLocation());
    string r = D->getNameAsString() + "@" + std::to_string(L.isValid() ? SM.getFileOffset(L) : 0) ;
    if (S != L) r += "/" + std::to_string(SM.getFileOffset(S));
    if (L.isInvalid()) { char b[32]; snprintf(b, 32, "%p", (const void*)D->getCanonicalDecl()); r += b; }
    return r;
  }
  bool isLocal(const ValueDecl *D) {
    if (isa<ParmVarDecl>(D)) return true;
    if (auto *V = dyn_cast<VarDecl>(D)) return V->isLocalVarDecl() || V->isInitCapture() || V->getDeclContext()->isFunctionOrMethod();
    if (isa<BindingDecl>(D)) return true;
    return false;
  }
  string declId(const ValueDecl *D) { return isLocal(D) ? localId(D) : usr(D); }

  void fieldId(Out &o, const ValueDecl *D) {
    // "Class::field" w/o template args, for readability and stable matching.
    string s;
    if (auto *RD = dyn_cast<RecordDecl>(D->getDeclContext())) s = qname(RD) + "::";
    s += D->getNameAsString();
    o.str(s);
  }

  // ---- expressions.
  void kv(Out &o, const char *k) { o.raw(",\""); o.raw(k); o.raw("\":"); }
  void open(Out &o, const char *k, const Stmt *S) {
    o.raw("{\"k\":\""); o.raw(k); o.raw("\",\"l\":");
    loc(o, S ? S->getBeginLoc() : SourceLocation());
  }
  void args(Out &o, llvm::ArrayRef<const Expr *> A) {
    o.raw("[");
    for (size_t i = 0; i < A.size(); i++) { if (i) o.raw(","); expr(o, A[i]); }
    o.raw("]");
  }
  template <typename R> void argsR(Out &o, R &&rng, unsigned skip = 0) {
    o.raw("["); bool f = true;
    for (auto *a : rng) { if (skip) { skip--; continue; } if (!f) o.raw(","); f = false; expr(o, dyn_cast_or_null<Expr>(a)); }
    o.raw("]");
  }
  void fnref(Out &o, const FunctionDecl *FD) {
    kv(o, "fn"); o.str(usr(FD)); kv(o, "n"); o.str(qname(FD));
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
      if (MD->isVirtual()) o.raw(",\"virt\":1");
      if (MD->isStatic()) o.raw(",\"static\":1");
      else if (MD->isConst()) o.raw(",\"cst\":1");
    }
    // Arguments bound to non-const lvalue references.
    string mr; unsigned i = 0;
    for (auto *P : FD->parameters()) {
      QualType T = P->getType();
      if (T->isLValueReferenceType() && !T.getNonReferenceType().isConstQualified()) { if (!mr.empty()) mr += ","; mr += std::to_string(i); }
      i++;
    }
    if (!mr.empty()) { o.raw(",\"mr\":["); o.raw(mr); o.raw("]"); }
    if (FD->isNoReturn()) o.raw(",\"noret\":1");
  }
  void expr(Out &o, const Expr *E) {
    if (!E) { o.raw("null"); return; }
    // Strip wrappers.
    for (;;) {
      if (auto *P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<FullExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = P->getReplacement();
      else if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) E = P->getExpr();
      else if (auto *P = dyn_cast<OpaqueValueExpr>(E)) { if (!P->getSourceExpr()) break; E = P->getSourceExpr(); }
      else if (auto *P = dyn_cast<ImplicitCastExpr>(E)) {
        auto CK = P->getCastKind();
        bool keep = false;
        const Expr *S = P->getSubExpr();
        if (CK == CK_FloatingToIntegral || CK == CK_IntegralToFloating || CK == CK_FloatingCast) keep = true;
        if (CK == CK_IntegralCast && !S->isValueDependent() && !S->getType()->isDependentType() && S->getType()->isIntegerType() && E->getType()->isIntegerType() &&
            Ctx.getTypeSize(S->getType()) > Ctx.getTypeSize(E->getType())) keep = true;
        if (keep && isa<IntegerLiteral>(S->IgnoreParenImpCasts())) keep = false;
        if (keep && isa<FloatingLiteral>(S->IgnoreParenImpCasts())) keep = false;
        if (keep) break;
        E = S;
      }
      else break;
    }
    if (auto *D = dyn_cast<CXXDefaultArgExpr>(E)) {
      open(o, "defarg", E); kv(o, "e"); 
      expr(o, D->getExpr());
      o.raw("}"); return;
    }
    if (auto *L = dyn_cast<IntegerLiteral>(E)) {
      open(o, "lit", E); kv(o, "v");
      llvm::SmallString<32> B; L->getValue().toString(B, 10, L->getType()->isSignedIntegerType()); o.raw(B);
      kv(o, "t"); o.num(typeIdx(E->getType()));
      o.raw("}"); return;
    }
    if (auto *L = dyn_cast<FloatingLiteral>(E)) {
      open(o, "lit", E); kv(o, "v"); llvm::SmallString<32> B; L->getValue().toString(B); o.str(B); kv(o, "t"); o.num(typeIdx(E->getType())); o.raw(",\"fl\":1}"); return;
    }
    if (auto *L = dyn_cast<CXXBoolLiteralExpr>(E)) { open(o, "lit", E); kv(o, "v"); o.raw(L->getValue() ? "true" : "false"); o.raw("}"); return; }
    if (auto *L = dyn_cast<CharacterLiteral>(E)) { open(o, "chr", E); kv(o, "v"); o.num(L->getValue()); o.raw("}"); return; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { open(o, "null", E); o.raw("}"); return; }
    if (auto *L = dyn_cast<StringLiteral>(E)) {
      open(o, "str", E); kv(o, "v"); if (L->isOrdinary() || L->isUTF8()) o.str(L->getString()); else o.str("?"); o.raw("}"); return;
    }
    if (isa<PredefinedExpr>(E)) { open(o, "str", E); kv(o, "v"); o.str("__func__"); o.raw("}"); return; }
    if (auto *D = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *VD = D->getDecl();
      open(o, "ref", E); kv(o, "d"); o.str(declId(VD)); kv(o, "n"); o.str(isLocal(VD) ? VD->getNameAsString() : qname(VD));
      const char *dk = "var";
      if (isa<ParmVarDecl>(VD)) dk = "parm";
      else if (isa<FunctionDecl>(VD)) dk = "func";
      else if (isa<EnumConstantDecl>(VD)) dk = "enum";
      else if (isa<NonTypeTemplateParmDecl>(VD)) dk = "tparm";
      else if (auto *V = dyn_cast<VarDecl>(VD)) { if (!isLocal(V)) dk = "glob"; else if (V->isStaticLocal()) dk = "slocal"; }
      kv(o, "dk"); o.str(dk); kv(o, "t"); o.num(typeIdx(VD->getType()));
      if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType()) {
        bool ok = isa<EnumConstantDecl>(VD);
        if (auto *V = dyn_cast<VarDecl>(VD)) ok = V->isConstexpr() || (V->getType().isConstQualified() && !V->getType()->isReferenceType() && V->isUsableInConstantExpressions(Ctx));
        Expr::EvalResult R;
        if (ok && E->EvaluateAsInt(R, Ctx)) { kv(o, "cv"); llvm::SmallString<32> B; R.Val.getInt().toString(B, 10); o.raw(B); }
      }
      if (D->refersToEnclosingVariableOrCapture()) o.raw(",\"cap\":1");
      o.raw("}"); return;
    }
    if (auto *M = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *VD = M->getMemberDecl();
      if (isa<FieldDecl>(VD) || isa<IndirectFieldDecl>(VD)) {
        open(o, "mem", E); kv(o, "f"); fieldId(o, VD); kv(o, "n"); o.str(VD->getNameAsString()); kv(o, "t"); o.num(typeIdx(VD->getType())); kv(o, "b"); expr(o, M->getBase()); 
        if (auto *FD = dyn_cast<FieldDecl>(VD)) if (FD->isMutable()) o.raw(",\"mut\":1");
        o.raw("}"); return;
      }
      if (auto *V = dyn_cast<VarDecl>(VD)) { // static member
        open(o, "ref", E); kv(o, "d"); o.str(usr(V)); kv(o, "n"); o.str(qname(V)); kv(o, "dk"); o.str("glob"); kv(o, "t"); o.num(typeIdx(V->getType())); 
        Expr::EvalResult R;
        if (!E->isValueDependent() && V->isUsableInConstantExpressions(Ctx) && E->EvaluateAsInt(R, Ctx)) { kv(o, "cv"); llvm::SmallString<32> B; R.Val.getInt().toString(B, 10); o.raw(B); }
        o.raw("}"); return;
      }
      open(o, "mfn", E); if (auto *FD = dyn_cast<FunctionDecl>(VD)) fnref(o, FD); else { kv(o, "n"); o.str(VD->getNameAsString()); } kv(o, "b"); expr(o, M->getBase()); o.raw("}"); return;
    }
    if (auto *T = dyn_cast<CXXThisExpr>(E)) { open(o, "this", E); kv(o, "t"); o.num(typeIdx(T->getType())); o.raw("}"); return; }
    if (auto *C = dyn_cast<CXXOperatorCallExpr>(E)) {
      open(o, "call", E); 
      if (auto *FD = C->getDirectCallee()) {
        fnref(o, FD);
        kv(o, "op"); o.str(getOperatorSpelling(C->getOperator()));
        auto *MD = dyn_cast<CXXMethodDecl>(FD);
        if (MD && MD->isInstance()) {
          kv(o, "obj"); expr(o, C->getArg(0));
          kv(o, "a"); std::vector<const Expr*> v; for (unsigned i = 1; i < C->getNumArgs(); i++) v.push_back(C->getArg(i)); args(o, v);
          kv(o, "t"); o.num(typeIdx(E->getType())); o.raw("}"); return;
        }
      } else { kv(o, "n"); o.str(string("operator") + getOperatorSpelling(C->getOperator())); kv(o, "op"); o.str(getOperatorSpelling(C->getOperator())); o.raw(",\"dep\":1"); }
      kv(o, "a"); argsR(o, C->arguments()); kv(o, "t"); o.num(typeIdx(E->getType())); o.raw("}"); return;
    }
    if (auto *C = dyn_cast<CXXMemberCallExpr>(E)) {
      open(o, "call", E);
      const Expr *CE = C->getCallee()->IgnoreParenImpCasts();
      auto *ME = dyn_cast<MemberExpr>(CE);
      if (auto *FD = C->getMethodDecl()) {
        fnref(o, FD);
        if (ME && ME->hasQualifier()) o.raw(",\"nonvirt\":1");
      }
      kv(o, "obj"); if (ME) expr(o, ME->getBase()); else expr(o, C->getImplicitObjectArgument());
      kv(o, "a"); argsR(o, C->arguments()); kv(o, "t"); o.num(typeIdx(E->getType())); o.raw("}"); return;
    }
    if (auto *C = dyn_cast<CallExpr>(E)) {
      open(o, "call", E);
      if (auto *FD = C->getDirectCallee()) fnref(o, FD);
      else {
        const Expr *CE = C->getCallee()->IgnoreParenImpCasts();
        if (auto *ME = dyn_cast<MemberExpr>(CE); ME && isa<FieldDecl>(ME->getMemberDecl())) { kv(o, "callee"); expr(o, CE); }
        else if (auto *DM = dyn_cast<CXXDependentScopeMemberExpr>(CE)) {
          kv(o, "n"); o.str(DM->getMember().getAsString()); o.raw(",\"dep\":1"); 
          if (!DM->isImplicitAccess()) { kv(o, "obj"); expr(o, DM->getBase()); }
        } else if (auto *UM = dyn_cast<UnresolvedMemberExpr>(CE)) {
          kv(o, "n"); o.str(UM->getMemberName().getAsString()); o.raw(",\"dep\":1"); 
          if (!UM->isImplicitAccess()) { kv(o, "obj"); expr(o, UM->getBase()); }
        } else if (auto *UL = dyn_cast<UnresolvedLookupExpr>(CE)) { kv(o, "n"); o.str(UL->getName().getAsString()); o.raw(",\"dep\":1"); }
        else if (auto *DS = dyn_cast<DependentScopeDeclRefExpr>(CE)) { kv(o, "n"); o.str(DS->getDeclName().getAsString()); o.raw(",\"dep\":1"); }
        else { kv(o, "callee"); expr(o, CE); }
      }
      kv(o, "a"); argsR(o, C->arguments()); kv(o, "t"); o.num(typeIdx(E->getType())); o.raw("}"); return;
    }
    if (auto *C = dyn_cast<CXXConstructExpr>(E)) {
      // Elide copy/move of a temporary.
      auto *CD = C->getConstructor();
      open(o, "ctor", E); kv(o, "fn"); o.str(usr(CD)); kv(o, "n"); o.str(qname(CD->getParent())); kv(o, "t"); o.num(typeIdx(E->getType()));
      if (CD->isCopyConstructor()) o.raw(",\"copy\":1");
      if (CD->isMoveConstructor()) o.raw(",\"move\":1");
      { string mr; unsigned i = 0; for (auto *P : CD->parameters()) { QualType T = P->getType(); if (T->isLValueReferenceType() && !T.getNonReferenceType().isConstQualified()) { if (!mr.empty()) mr += ","; mr += std::to_string(i); } i++; }
        if (!mr.empty()) { o.raw(",\"mr\":["); o.raw(mr); o.raw("]"); } }
      if (isa<CXXTemporaryObjectExpr>(C)) o.raw(",\"tmp\":1");
      if (C->isListInitialization()) o.raw(",\"list\":1");
      kv(o, "a"); argsR(o, C->arguments()); o.raw("}"); return;
    }
    if (auto *C = dyn_cast<CXXInheritedCtorInitExpr>(E)) { open(o, "ctor", E); kv(o, "fn"); o.str(usr(C->getConstructor())); kv(o, "n"); o.str(qname(C->getConstructor()->getParent())); kv(o, "t"); o.num(typeIdx(E->getType())); o.raw(",\"inherited\":1,\"a\":[]}"); return; }
    if (auto *C = dyn_cast<CXXUnresolvedConstructExpr>(E)) {
      open(o, "ctor", E); kv(o, "n"); o.str(C->getTypeAsWritten().getAsString(PP)); kv(o, "t"); o.num(typeIdx(C->getTypeAsWritten())); o.raw(",\"dep\":1"); kv(o, "a"); argsR(o, C->arguments()); o.raw("}"); return;
    }
    if (auto *B = dyn_cast<BinaryOperator>(E)) {
      open(o, B->isAssignmentOp() ? "asg" : "bin", E); kv(o, "op"); o.str(B->getOpcodeStr()); kv(o, "a"); expr(o, B->getLHS()); kv(o, "b"); expr(o, B->getRHS()); kv(o, "t"); o.num(typeIdx(E->getType())); o.raw("}"); return;
    }
    if (auto *U = dyn_cast<UnaryOperator>(E)) {
      open(o, "un", E); kv(o, "op"); o.str(UnaryOperator::getOpcodeStr(U->getOpcode())); if (U->isPostfix()) o.raw(",\"post\":1"); kv(o, "e"); expr(o, U->getSubExpr()); kv(o, "t"); o.num(typeIdx(E->getType())); o.raw("}"); return;
    }
    if (auto *C = dyn_cast<AbstractConditionalOperator>(E)) {
      open(o, "cond", E); kv(o, "c"); expr(o, C->getCond()); kv(o, "a"); expr(o, C->getTrueExpr()); kv(o, "b"); expr(o, C->getFalseExpr()); o.raw("}"); return;
    }
    if (auto *A = dyn_cast<ArraySubscriptExpr>(E)) { open(o, "idx", E); kv(o, "b"); expr(o, A->getBase()); kv(o, "i"); expr(o, A->getIdx()); o.raw("}"); return; }
    if (auto *C = dyn_cast<CastExpr>(E)) {
      open(o, "cast", E); kv(o, "ck"); o.str(C->getCastKindName()); kv(o, "t"); o.num(typeIdx(E->getType())); 
      kv(o, "st"); o.num(typeIdx(C->getSubExpr()->getType()));
      if (isa<ImplicitCastExpr>(C)) o.raw(",\"imp\":1");
      kv(o, "e"); expr(o, C->getSubExpr()); o.raw("}"); return;
    }
    if (auto *L = dyn_cast<LambdaExpr>(E)) {
      open(o, "lambda", E); kv(o, "p"); params(o, L->getCallOperator());
      kv(o, "fn"); o.str(usr(L->getCallOperator()));
      kv(o, "caps"); o.raw("["); bool f = true;
      for (auto &c : L->captures()) {
        if (!f) o.raw(","); f = false;
        if (c.capturesThis()) o.raw("{\"this\":1}");
        else if (c.capturesVariable()) { o.raw("{\"d\":"); o.str(localId(c.getCapturedVar())); o.raw(",\"n\":"); o.str(c.getCapturedVar()->getNameAsString()); o.raw(c.getCaptureKind() == LCK_ByRef ? ",\"ref\":1}" : "}"); }
        else o.raw("{}");
      }
      o.raw("]"); 
      if (L->getCaptureDefault() == LCD_ByRef) o.raw(",\"defref\":1");
      kv(o, "b"); 
      if (L->isGenericLambda()) {
        // Use an instantiation if there is one.
        const Stmt *body = L->getBody();
        if (auto *FT = L->getCallOperator()->getDescribedFunctionTemplate())
          for (auto *S : FT->specializations()) if (S->getBody()) { body = S->getBody(); break; }
        stmt(o, body);
      } else stmt(o, L->getBody());
      o.raw("}"); return;
    }
    if (auto *I = dyn_cast<InitListExpr>(E)) { 
      open(o, "init", E); kv(o, "t"); o.num(typeIdx(E->getType())); kv(o, "a"); argsR(o, I->inits()); o.raw("}"); return; }
    if (auto *I = dyn_cast<CXXStdInitializerListExpr>(E)) { expr(o, I->getSubExpr()); return; }
    if (auto *I = dyn_cast<ParenListExpr>(E)) { open(o, "init", E); kv(o, "t"); o.num(typeIdx(QualType())); kv(o, "a"); std::vector<const Expr*> v; for (unsigned i = 0; i < I->getNumExprs(); i++) v.push_back(I->getExpr(i)); args(o, v); o.raw("}"); return; }
    if (auto *T = dyn_cast<CXXThrowExpr>(E)) { open(o, "throw", E); kv(o, "e"); expr(o, T->getSubExpr()); if (T->getSubExpr()) { kv(o, "t"); o.num(typeIdx(T->getSubExpr()->getType())); } o.raw("}"); return; }
    if (auto *N = dyn_cast<CXXNewExpr>(E)) {
      open(o, "new", E); kv(o, "t"); o.num(typeIdx(N->getAllocatedType())); 
      if (N->isArray()) { kv(o, "n"); if (N->getArraySize() && *N->getArraySize()) expr(o, *N->getArraySize()); else o.raw("null"); }
      kv(o, "a"); o.raw("["); for (unsigned i = 0; i < N->getNumPlacementArgs(); i++) { if (i) o.raw(","); expr(o, N->getPlacementArg(i)); } o.raw("]");
      kv(o, "init"); expr(o, N->getInitializer());
      o.raw("}"); return;
    }
    if (auto *D = dyn_cast<CXXDeleteExpr>(E)) { open(o, "delete", E); if (D->isArrayForm()) o.raw(",\"arr\":1"); kv(o, "e"); expr(o, D->getArgument()); o.raw("}"); return; }
    if (auto *S = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      open(o, "sizeof", E); kv(o, "tr"); o.str(S->getKind() == UETT_SizeOf ? "sizeof" : "alignof"); kv(o, "t"); o.num(typeIdx(S->getTypeOfArgument()));
      Expr::EvalResult R; if (!E->isValueDependent() && E->EvaluateAsInt(R, Ctx)) { kv(o, "cv"); llvm::SmallString<32> B; R.Val.getInt().toString(B, 10); o.raw(B); }
      o.raw("}"); return;
    }
    if (auto *D = dyn_cast<CXXDependentScopeMemberExpr>(E)) { open(o, "mem", E); kv(o, "f"); o.str("?::" + D->getMember().getAsString()); kv(o, "n"); o.str(D->getMember().getAsString()); kv(o, "t"); o.num(typeIdx(E->getType())); kv(o, "b"); if (D->isImplicitAccess()) o.raw("{\"k\":\"this\",\"l\":[-1,0],\"t\":0}"); else expr(o, D->getBase()); o.raw(",\"dep\":1}"); return; }
    if (auto *D = dyn_cast<UnresolvedLookupExpr>(E)) { open(o, "ref", E); kv(o, "d"); o.str(D->getName().getAsString()); kv(o, "n"); o.str(D->getName().getAsString()); kv(o, "dk"); o.str("unres"); kv(o, "t"); o.num(typeIdx(E->getType())); o.raw("}"); return; }
    if (auto *D = dyn_cast<DependentScopeDeclRefExpr>(E)) { open(o, "ref", E); kv(o, "d"); o.str(D->getDeclName().getAsString()); kv(o, "n"); o.str(D->getDeclName().getAsString()); kv(o, "dk"); o.str("unres"); kv(o, "t"); o.num(typeIdx(E->getType())); o.raw("}"); return; }
    if (auto *P = dyn_cast<PackExpansionExpr>(E)) { open(o, "pack", E); kv(o, "e"); expr(o, P->getPattern()); o.raw("}"); return; }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) { open(o, "zero", E); kv(o, "t"); o.num(typeIdx(E->getType())); o.raw("}"); return; }
    if (auto *T = dyn_cast<CXXTypeidExpr>(E)) { open(o, "typeid", E); kv(o, "a"); o.raw("["); if (!T->isTypeOperand()) expr(o, T->getExprOperand()); o.raw("]}"); return; }
    if (auto *SE = dyn_cast<StmtExpr>(E)) { open(o, "stmtexpr", E); kv(o, "s"); stmt(o, SE->getSubStmt()); o.raw("}"); return; }
    if (auto *TT = dyn_cast<TypeTraitExpr>(E)) { if (!E->isValueDependent()) { open(o, "lit", E); kv(o, "v"); o.raw(TT->getValue() ? "true" : "false"); o.raw("}"); return; } }
    if (auto *SP = dyn_cast<SizeOfPackExpr>(E)) { if (!E->isValueDependent()) { open(o, "lit", E); kv(o, "v"); o.num(SP->getPackLength()); o.raw("}"); return; } }
    // Unknown: dump children.
    open(o, "op", E); kv(o, "c"); o.str(E->getStmtClassName()); kv(o, "a"); o.raw("["); bool f = true;
    for (const Stmt *S : E->children()) if (auto *X = dyn_cast_or_null<Expr>(S)) { if (!f) o.raw(","); f = false; expr(o, X); }
    o.raw("]}");
  }

  // ---- statements.
  void vardecl(Out &o, const VarDecl *V) {
    o.raw("{\"d\":"); o.str(declId(V)); kv(o, "n"); o.str(V->getNameAsString()); kv(o, "t"); o.num(typeIdx(V->getType())); kv(o, "l"); loc(o, V->getLocation());
    if (V->isStaticLocal()) o.raw(",\"static\":1");
    if (V->getType()->isReferenceType()) o.raw(",\"ref\":1");
    if (V->getType().isConstQualified()) o.raw(",\"cst\":1");
    if (V->getType()->isReferenceType() && V->getType().getNonReferenceType().isConstQualified()) o.raw(",\"cref\":1");
    kv(o, "init"); expr(o, V->getInit());
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      kv(o, "binds"); o.raw("["); bool f = true;
      for (auto *B : DD->bindings()) { if (!f) o.raw(","); f = false; o.raw("{\"d\":"); o.str(localId(B)); kv(o, "n"); o.str(B->getNameAsString()); o.raw("}"); }
      o.raw("]");
    }
    o.raw("}");
  }
  void stmt(Out &o, const Stmt *S) {
    if (!S) { o.raw("null"); return; }
    if (auto *E = dyn_cast<Expr>(S)) { expr(o, E); return; }
    if (auto *C = dyn_cast<CompoundStmt>(S)) {
      open(o, "seq", S); kv(o, "s"); o.raw("["); bool f = true;
      for (auto *x : C->body()) { if (!f) o.raw(","); f = false; stmt(o, x); }
      o.raw("]"); kv(o, "el"); loc(o, C->getRBracLoc()); o.raw("}"); return;
    }
    if (auto *D = dyn_cast<DeclStmt>(S)) {
      open(o, "decl", S); kv(o, "v"); o.raw("["); bool f = true;
      for (auto *d : D->decls()) if (auto *V = dyn_cast<VarDecl>(d)) { if (!f) o.raw(","); f = false; vardecl(o, V); }
      o.raw("]}"); return;
    }
    if (auto *I = dyn_cast<IfStmt>(S)) {
      open(o, "if", S); if (I->isConstexpr()) o.raw(",\"cx\":1");
      if (I->getInit()) { kv(o, "init"); stmt(o, I->getInit()); }
      if (I->getConditionVariableDeclStmt()) { kv(o, "cvar"); stmt(o, I->getConditionVariableDeclStmt()); }
      kv(o, "c"); expr(o, I->getCond()); kv(o, "t"); stmt(o, I->getThen()); kv(o, "e"); stmt(o, I->getElse()); o.raw("}"); return;
    }
    if (auto *L = dyn_cast<ForStmt>(S)) {
      open(o, "for", S); kv(o, "init"); stmt(o, L->getInit()); kv(o, "c"); expr(o, L->getCond()); kv(o, "inc"); expr(o, L->getInc()); kv(o, "b"); stmt(o, L->getBody()); o.raw("}"); return;
    }
    if (auto *L = dyn_cast<WhileStmt>(S)) { open(o, "while", S); 
      if (L->getConditionVariableDeclStmt()) { kv(o, "cvar"); stmt(o, L->getConditionVariableDeclStmt()); }
      kv(o, "c"); expr(o, L->getCond()); kv(o, "b"); stmt(o, L->getBody()); o.raw("}"); return; }
    if (auto *L = dyn_cast<DoStmt>(S)) { open(o, "do", S); kv(o, "c"); expr(o, L->getCond()); kv(o, "b"); stmt(o, L->getBody()); o.raw("}"); return; }
    if (auto *L = dyn_cast<CXXForRangeStmt>(S)) { open(o, "rfor", S); kv(o, "v"); vardeclNoInit(o, L->getLoopVariable()); kv(o, "r"); expr(o, L->getRangeInit()); kv(o, "b"); stmt(o, L->getBody()); o.raw("}"); return; }
    if (auto *L = dyn_cast<SwitchStmt>(S)) { open(o, "switch", S); kv(o, "c"); expr(o, L->getCond()); kv(o, "b"); stmt(o, L->getBody()); o.raw("}"); return; }
    if (auto *L = dyn_cast<CaseStmt>(S)) { open(o, "case", S); kv(o, "v"); expr(o, L->getLHS()); kv(o, "s"); stmt(o, L->getSubStmt()); o.raw("}"); return; }
    if (auto *L = dyn_cast<DefaultStmt>(S)) { open(o, "default", S); kv(o, "s"); stmt(o, L->getSubStmt()); o.raw("}"); return; }
    if (isa<BreakStmt>(S)) { open(o, "break", S); o.raw("}"); return; }
    if (isa<ContinueStmt>(S)) { open(o, "continue", S); o.raw("}"); return; }
    if (auto *R = dyn_cast<ReturnStmt>(S)) { open(o, "ret", S); kv(o, "e"); expr(o, R->getRetValue()); o.raw("}"); return; }
    if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      open(o, "try", S); kv(o, "b"); stmt(o, T->getTryBlock()); kv(o, "h"); o.raw("[");
      for (unsigned i = 0; i < T->getNumHandlers(); i++) { if (i) o.raw(","); auto *H = T->getHandler(i); o.raw("{\"t\":"); o.num(H->getCaughtType().isNull() ? -1 : typeIdx(H->getCaughtType())); kv(o, "b"); stmt(o, H->getHandlerBlock()); o.raw("}"); }
      o.raw("]}"); return;
    }
    if (auto *A = dyn_cast<AttributedStmt>(S)) { stmt(o, A->getSubStmt()); return; }
    if (auto *L = dyn_cast<LabelStmt>(S)) { stmt(o, L->getSubStmt()); return; }
    if (auto *O = dyn_cast<OMPExecutableDirective>(S)) {
      open(o, "omp", S); kv(o, "dir"); o.str(llvm::omp::getOpenMPDirectiveName(O->getDirectiveKind()));
      kv(o, "cl"); o.raw("["); bool f = true;
      for (auto *c : O->clauses()) {
        if (!c || c->isImplicit()) continue;
        if (!f) o.raw(","); f = false;
        o.raw("{\"c\":"); o.str(llvm::omp::getOpenMPClauseName(c->getClauseKind()));
        if (auto *R = dyn_cast<OMPReductionClause>(c)) { kv(o, "op"); o.str(R->getNameInfo().getName().getAsString()); }
        kv(o, "a"); o.raw("["); bool g = true;
        for (const Stmt *ch : c->children()) if (auto *x = dyn_cast_or_null<Expr>(ch)) { if (!g) o.raw(","); g = false; expr(o, x); }
        o.raw("]}");
      }
      o.raw("]"); kv(o, "b");
      if (O->hasAssociatedStmt() && O->getAssociatedStmt()) {
        const Stmt *B = O->getAssociatedStmt();
        while (auto *CS = dyn_cast<CapturedStmt>(B)) B = CS->getCapturedStmt();
        stmt(o, B);
      } else o.raw("null");
      o.raw("}"); return;
    }
    if (auto *CS = dyn_cast<CapturedStmt>(S)) { stmt(o, CS->getCapturedStmt()); return; }
    if (auto *CL = dyn_cast<OMPCanonicalLoop>(S)) { stmt(o, CL->getLoopStmt()); return; }
    if (isa<NullStmt>(S)) { open(o, "nop", S); o.raw("}"); return; }
    open(o, "stmt?", S); kv(o, "c"); o.str(S->getStmtClassName()); o.raw("}");
  }
  void vardeclNoInit(Out &o, const VarDecl *V) {
    o.raw("{\"d\":"); o.str(declId(V)); kv(o, "n"); o.str(V->getNameAsString()); kv(o, "t"); o.num(typeIdx(V->getType()));
    if (V->getType()->isReferenceType()) o.raw(",\"ref\":1");
    if (V->getType()->isReferenceType() && V->getType().getNonReferenceType().isConstQualified()) o.raw(",\"cref\":1");
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      kv(o, "binds"); o.raw("["); bool f = true;
      for (auto *B : DD->bindings()) { if (!f) o.raw(","); f = false; o.raw("{\"d\":"); o.str(localId(B)); kv(o, "n"); o.str(B->getNameAsString()); o.raw("}"); }
      o.raw("]");
    }
    o.raw("}");
  }
  void params(Out &o, const FunctionDecl *FD) {
    o.raw("["); bool f = true;
    for (auto *P : FD->parameters()) { 
      if (!f) o.raw(","); f = false; o.raw("{\"d\":"); o.str(localId(P)); kv(o, "n"); o.str(P->getNameAsString()); kv(o, "t"); o.num(typeIdx(P->getType()));
      if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg()) { kv(o, "def"); expr(o, P->getDefaultArg()); }
      o.raw("}"); }
    o.raw("]");
  }

  // ---- declarations.
  void doFunction(const FunctionDecl *FD) {
    if (!FD->isThisDeclarationADefinition() || !FD->getBody()) {
      if (!(FD->isDefaulted() || FD->isDeleted())) return;
      return;
    }
    if (!inRoot(FD->getLocation())) return;
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) if (MD->getParent()->isLambda()) return; // dumped inline.
    if (FD->isDependentContext() && !dumpPatterns) return;
    string u = usr(FD);
    if (!seenFn.insert(u).second) return;
    if (!firstF) F.raw(",\n"); firstF = false;
    Out &o = F;
    o.raw("{\"u\":"); o.str(u); kv(o, "n"); o.str(qname(FD)); kv(o, "l"); loc(o, FD->getLocation());
    kv(o, "el"); loc(o, FD->getEndLoc());
    kv(o, "rt"); o.num(typeIdx(FD->getReturnType()));
    if (auto *PT = FD->getType()->getAs<FunctionProtoType>()) {
      auto es = PT->getExceptionSpecType();
      if (es == EST_BasicNoexcept || es == EST_NoexceptTrue || es == EST_DynamicNone || es == EST_NoThrow) { kv(o, "nx"); o.num(1); }
    }
    if (FD->isDependentContext()) o.raw(",\"dep\":1");
    if (auto *P = FD->getTemplateInstantiationPattern()) { kv(o, "pat"); o.str(usr(P)); }
    else if (auto *FT = FD->getDescribedFunctionTemplate()) { (void)FT; kv(o, "pat"); o.str(u); }
    if (auto *TA = FD->getTemplateSpecializationArgs()) {
      kv(o, "ta"); o.raw("["); bool f = true;
      for (auto &A : TA->asArray()) { if (!f) o.raw(","); f = false; string s; llvm::raw_string_ostream os(s); A.print(PP, os, true); o.str(os.str()); }
      o.raw("]");
    }
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
      kv(o, "cls"); o.str(qname(MD->getParent())); kv(o, "cu"); o.str(usr(MD->getParent()));
      if (MD->isVirtual()) o.raw(",\"virt\":1");
      if (MD->isStatic()) o.raw(",\"static\":1");
      if (MD->isConst()) o.raw(",\"cst\":1");
      if (MD->isImplicit()) o.raw(",\"implicit\":1");
      kv(o, "acc"); o.num(MD->getAccess());
      if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) {
        o.raw(",\"isctor\":1"); if (CD->isCopyConstructor()) o.raw(",\"copy\":1"); if (CD->isDefaultConstructor()) o.raw(",\"dflt\":1");
        if (CD->isMoveConstructor()) o.raw(",\"move\":1");
        kv(o, "ci"); o.raw("["); bool f = true;
        for (auto *I : CD->inits()) {
          if (!f) o.raw(","); f = false; o.raw("{");
          if (I->isAnyMemberInitializer()) { o.raw("\"f\":"); fieldId(o, I->getAnyMember()); }
          else if (I->isBaseInitializer()) { o.raw("\"base\":"); o.num(typeIdx(QualType(I->getBaseClass(), 0))); }
          else o.raw("\"deleg\":1");
          if (I->isWritten()) o.raw(",\"wr\":1");
          kv(o, "e"); expr(o, I->getInit()); o.raw("}");
        }
        o.raw("]");
      }
      if (isa<CXXDestructorDecl>(FD)) o.raw(",\"isdtor\":1");
      if (MD->size_overridden_methods()) {
        kv(o, "ov"); o.raw("["); bool f = true;
        for (auto *b : MD->overridden_methods()) { if (!f) o.raw(","); f = false; o.str(usr(b)); }
        o.raw("]");
      }
    }
    if (FD->isOverloadedOperator()) { kv(o, "op"); o.str(getOperatorSpelling(FD->getOverloadedOperator())); }
    kv(o, "p"); params(o, FD);
    kv(o, "b"); stmt(o, FD->getBody());
    o.raw("}");
  }
  bool VisitFunctionDecl(FunctionDecl *FD) { doFunction(FD); return true; }

  bool VisitCXXRecordDecl(CXXRecordDecl *RD) {
    if (!RD->isThisDeclarationADefinition() || RD->isLambda()) return true;
    if (!inRoot(RD->getLocation())) return true;
    if (RD->isDependentContext() && !dumpPatterns) return true;
    string u = usr(RD);
    if (!seenCls.insert(u).second) return true;
    if (!firstC) Cl.raw(",\n"); firstC = false;
    Out &o = Cl;
    o.raw("{\"u\":"); o.str(u); kv(o, "n"); o.str(qname(RD)); kv(o, "l"); loc(o, RD->getLocation());
    if (RD->isDependentContext()) o.raw(",\"dep\":1");
    kv(o, "ty"); o.num(typeIdx(Ctx.getTypeDeclType(RD)));
    kv(o, "bases"); o.raw("["); bool f = true;
    for (auto &b : RD->bases()) { 
      if (!f) o.raw(","); f = false; o.raw("{\"t\":"); o.num(typeIdx(b.getType())); 
      if (auto *BD = b.getType()->getAsCXXRecordDecl()) { kv(o, "u"); o.str(usr(BD)); kv(o, "n"); o.str(qname(BD)); }
      o.raw("}"); }
    o.raw("]"); kv(o, "fields"); o.raw("["); f = true;
    for (auto *fd : RD->fields()) { if (!f) o.raw(","); f = false; o.raw("{\"f\":"); fieldId(o, fd); kv(o, "n"); o.str(fd->getNameAsString()); kv(o, "t"); o.num(typeIdx(fd->getType())); kv(o, "l"); loc(o, fd->getLocation()); 
      if (fd->hasInClassInitializer() && fd->getInClassInitializer()) { kv(o, "init"); expr(o, fd->getInClassInitializer()); }
      if (fd->isMutable()) o.raw(",\"mut\":1");
      o.raw("}"); }
    o.raw("]"); kv(o, "methods"); o.raw("["); f = true;
    for (auto *m : RD->methods()) { 
      if (!f) o.raw(","); f = false; o.raw("{\"u\":"); o.str(usr(m)); kv(o, "n"); o.str(m->getNameAsString());
      if (m->isVirtual()) o.raw(",\"virt\":1"); if (m->isPureVirtual()) o.raw(",\"pure\":1"); if (m->isDeleted()) o.raw(",\"del\":1"); if (m->isDefaulted()) o.raw(",\"dflt\":1"); if (m->isImplicit()) o.raw(",\"implicit\":1");
      if (auto *CD = dyn_cast<CXXConstructorDecl>(m)) { o.raw(",\"isctor\":1"); if (CD->isCopyConstructor()) o.raw(",\"copy\":1"); }
      if (m->size_overridden_methods()) { kv(o, "ov"); o.raw("["); bool g = true; for (auto *b : m->overridden_methods()) { if (!g) o.raw(","); g = false; o.str(usr(b)); } o.raw("]"); }
      kv(o, "np"); o.num(m->getNumParams());
      kv(o, "rt"); o.num(typeIdx(m->getReturnType()));
      kv(o, "acc"); o.num(m->getAccess());
      o.raw("}"); }
    o.raw("]}");
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (isLocal(V) || isa<ParmVarDecl>(V) || !inRoot(V->getLocation())) return true;
    if (V->getDeclContext()->isDependentContext() || V->getType()->isDependentType()) return true;
    string u = usr(V);
    if (!V->hasInit() || !seenVar.insert(u).second) return true;
    if (!firstG) Gv.raw(",\n"); firstG = false;
    vardecl(Gv, V);
    return true;
  }
  bool dumpPatterns = true;
};

class Consumer : public ASTConsumer {
  CompilerInstance &CI;
public:
  Consumer(CompilerInstance &C) : CI(C) {}
  void HandleTranslationUnit(ASTContext &Ctx) override {
    if (CI.getDiagnostics().hasUncompilableErrorOccurred()) { hadError = true; return; }
    Dumper D(Ctx);
    D.TraverseDecl(Ctx.getTranslationUnitDecl());
    std::error_code EC; llvm::raw_fd_ostream os(outName, EC);
    if (EC) { hadError = true; return; }
    Out h; h.raw("{\"files\":["); bool f = true;
    for (auto &x : D.getFiles()) { if (!f) h.raw(","); f = false; h.str(x); }
    h.raw("],\"types\":["); f = true;
    for (auto &x : D.getTypes()) { if (!f) h.raw(","); f = false; h.str(x); }
    h.raw("],\"globals\":["); os << h.s << D.Gv.s << "],\n\"classes\":[" << D.Cl.s << "],\n\"funcs\":[" << D.F.s << "]}\n";
  }
};
class Action : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override { return std::make_unique<Consumer>(CI); }
};
} // namespace

int main(int argc, const char **argv) {
  std::vector<string> cmd; string src; int i = 1;
  for (; i < argc; i++) {
    string a = argv[i];
    if (a == "-o") outName = argv[++i];
    else if (a == "-root") roots.push_back(argv[++i]);
    else if (a == "--") { i++; break; }
    else src = a;
  }
  std::vector<string> flags;
  for (; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, {src});
  int rc = T.run(tooling::newFrontendActionFactory<Action>().get());
  return (rc || hadError) ? 2 : 0;
}
