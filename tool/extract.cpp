// bsa-extract: clang libTooling front end of the static analyses in /verif.
//
// Parses one translation unit of /repo with the build's own flags and writes the *resolved* program (functions with
// structured bodies, resolved callees, classes, enums, globals) as JSON. Nothing of the program is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
#include <map>
#include <string>

using namespace clang;
using namespace clang::tooling;
using llvm::json::OStream;
using std::string;

static string gRoot;   // with trailing slash
static string gOut;

static PrintingPolicy policy(ASTContext& C)
{
    PrintingPolicy P(C.getLangOpts());
    P.SuppressTagKeyword = true;
    P.Bool = true;
    P.SuppressUnwrittenScope = true;
    P.AnonymousTagLocations = false;
    P.FullyQualifiedName = true;
    P.PrintCanonicalTypes = true;
    return P;
}

class Extractor : public RecursiveASTVisitor<Extractor> {
public:
    ASTContext& C;
    SourceManager& SM;
    OStream& J;
    PrintingPolicy P;
    std::set<string> emitted;
    std::map<string, const FunctionDecl*> refs;
    std::set<const CXXRecordDecl*> records;
    std::vector<std::pair<string, const FunctionDecl*>> pending;
    std::map<const Decl*, string> lambdaNames;
    int section = 0;

    Extractor(ASTContext& C_, OStream& J_) : C(C_), SM(C_.getSourceManager()), J(J_), P(policy(C_)) {}

    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }

    // ---- locations -----------------------------------------------------------------------------------------------
    string fileOf(SourceLocation L)
    {
        L = SM.getExpansionLoc(L);
        PresumedLoc PL = SM.getPresumedLoc(L);
        if (PL.isInvalid()) return "";
        string f = PL.getFilename();
        // normalise "/repo/plugins/../BedrockPlugin.h"
        llvm::SmallString<256> s(f);
        if (!llvm::sys::path::is_absolute(s)) { llvm::SmallString<256> t(gRoot); llvm::sys::path::append(t, s); s = t; }
        llvm::sys::path::remove_dots(s, true);
        return string(s.str());
    }
    string rel(const string& f) { return f.rfind(gRoot, 0) == 0 ? f.substr(gRoot.size()) : f; }
    bool inRepoFile(const string& f)
    {
        if (f.rfind(gRoot, 0) != 0) return false;
        string r = f.substr(gRoot.size());
        if (r.rfind("test/", 0) == 0 || r.rfind("mbedtls/", 0) == 0 || r.rfind("benchmarks/", 0) == 0) return false;
        if (r.find("sqlite3") != string::npos || r.find("qrf.") != string::npos) return false;
        return true;
    }
    bool inRepo(SourceLocation L) { return L.isValid() && inRepoFile(fileOf(L)); }
    int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
    int col(SourceLocation L) { return SM.getExpansionColumnNumber(L); }

    string ty(QualType T) { return T.isNull() ? "" : T.getCanonicalType().getAsString(P); }

    // ---- names ---------------------------------------------------------------------------------------------------
    string lambdaId(const CXXRecordDecl* R)
    {
        return "lambda@" + rel(fileOf(R->getLocation())) + ":" + std::to_string(line(R->getLocation())) + ":" + std::to_string(col(R->getLocation()));
    }
    string ctxName(const DeclContext* D)
    {
        if (auto* R = dyn_cast<CXXRecordDecl>(D)) {
            if (R->isLambda()) return lambdaId(R);
        }
        if (auto* N = dyn_cast<NamedDecl>(D)) return N->getQualifiedNameAsString();
        return "";
    }
    string qn(const NamedDecl* D)
    {
        if (!D) return "";
        if (auto* M = dyn_cast<CXXMethodDecl>(D)) {
            if (M->getParent()->isLambda()) return lambdaId(M->getParent());
        }
        return D->getQualifiedNameAsString();
    }
    string fid(const FunctionDecl* F)
    {
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            if (M->getParent()->isLambda()) return lambdaId(M->getParent());
        }
        if (const FunctionDecl* D = F->getTemplateInstantiationPattern()) {
            (void) D;
        }
        string s = F->getQualifiedNameAsString() + "(";
        bool first = true;
        for (auto* p : F->parameters()) {
            if (!first) s += ",";
            first = false;
            s += ty(p->getType());
        }
        s += ")";
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) if (M->isConst()) s += "const";
        return s;
    }
    string varId(const ValueDecl* V)
    {
        if (auto* PD = dyn_cast<VarDecl>(V)) {
            V = PD->getCanonicalDecl();
        }
        return V->getNameAsString() + "@" + std::to_string(line(V->getLocation())) + ":" + std::to_string(col(V->getLocation()));
    }
    string clsOf(QualType T)
    {
        T = T.getCanonicalType();
        if (T->isReferenceType() || T->isPointerType()) T = T->getPointeeType();
        if (auto* R = T->getAsCXXRecordDecl()) return R->isLambda() ? lambdaId(R) : R->getQualifiedNameAsString();
        return "";
    }

    // ---- macros --------------------------------------------------------------------------------------------------
    string immediateMacro(SourceLocation L)
    {
        if (!L.isMacroID()) return "";
        if (SM.isMacroArgExpansion(L)) return "";
        return Lexer::getImmediateMacroName(L, SM, C.getLangOpts()).str();
    }
    // Name of the first macro, walking outwards from L, that is not `skip`.
    string callerMacro(SourceLocation L, const string& skip)
    {
        while (L.isMacroID()) {
            string n = Lexer::getImmediateMacroName(L, SM, C.getLangOpts()).str();
            if (n != skip) return n;
            L = SM.getImmediateMacroCallerLoc(L);
        }
        return "";
    }

    // ---- expressions ---------------------------------------------------------------------------------------------
    const Expr* strip(const Expr* E)
    {
        while (E) {
            const Expr* O = E;
            if (auto* X = dyn_cast<ImplicitCastExpr>(E)) E = X->getSubExpr();
            else if (auto* X = dyn_cast<ParenExpr>(E)) E = X->getSubExpr();
            else if (auto* X = dyn_cast<FullExpr>(E)) E = X->getSubExpr();
            else if (auto* X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
            else if (auto* X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
            else if (auto* X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
            else if (auto* X = dyn_cast<CXXDefaultInitExpr>(E)) E = X->getExpr();
            else if (auto* X = dyn_cast<CXXRewrittenBinaryOperator>(E)) E = X->getSemanticForm();
            else if (auto* X = dyn_cast<CXXStdInitializerListExpr>(E)) E = X->getSubExpr();
            else if (auto* X = dyn_cast<CXXConstructExpr>(E)) {
                // Elidable copies / moves, and implicit conversions of a temporary to itself.
                if (X->isElidable() && X->getNumArgs() >= 1) E = X->getArg(0);
            }
            if (E == O) break;
        }
        return E;
    }

    void loc(SourceLocation L) { J.attribute("l", line(L)); }

    void exprAttr(const char* name, const Expr* E)
    {
        J.attributeBegin(name);
        expr(E);
        J.attributeEnd();
    }
    template<class R> void exprList(const char* name, R range)
    {
        J.attributeArray(name, [&] { for (const Expr* A : range) expr(A); });
    }
    void ref(const FunctionDecl* F) { if (F) refs.emplace(fid(F), F); }
    void callee(const FunctionDecl* F)
    {
        ref(F);
        J.attribute("f", fid(F));
        J.attribute("q", qn(F));
    }

    void expr(const Expr* E0)
    {
        const Expr* E = strip(E0);
        if (!E) { J.value(nullptr); return; }
        J.objectBegin();
        exprBody(E);
        J.objectEnd();
    }

    void exprBody(const Expr* E)
    {
        if (auto* X = dyn_cast<CXXDefaultArgExpr>(E)) {
            J.attribute("k", "defarg");
            exprAttr("e", X->getExpr());
            return;
        }
        if (auto* X = dyn_cast<CXXOperatorCallExpr>(E)) {
            J.attribute("k", "call");
            loc(X->getExprLoc());
            if (auto* F = X->getDirectCallee()) {
                callee(F);
                if (isa<CXXMethodDecl>(F) && X->getNumArgs() >= 1) {
                    J.attribute("op", getOperatorSpelling(X->getOperator()));
                    exprAttr("obj", X->getArg(0));
                    J.attributeArray("a", [&] { for (unsigned i = 1; i < X->getNumArgs(); i++) expr(X->getArg(i)); });
                } else {
                    J.attribute("op", getOperatorSpelling(X->getOperator()));
                    exprList("a", X->arguments());
                }
            } else {
                exprList("a", X->arguments());
            }
            J.attribute("t", ty(X->getType()));
            return;
        }
        if (auto* X = dyn_cast<CXXMemberCallExpr>(E)) {
            J.attribute("k", "call");
            loc(X->getExprLoc());
            if (auto* F = X->getMethodDecl()) {
                callee(F);
                if (F->isVirtual()) {
                    bool qualified = false;
                    if (auto* ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParenImpCasts())) qualified = ME->hasQualifier();
                    if (!qualified) J.attribute("v", true);
                }
                exprAttr("obj", X->getImplicitObjectArgument());
                if (auto* ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParenImpCasts())) if (ME->isArrow()) J.attribute("ar", true);
            } else {
                exprAttr("fe", X->getCallee());
            }
            exprList("a", X->arguments());
            J.attribute("t", ty(X->getType()));
            return;
        }
        if (auto* X = dyn_cast<CallExpr>(E)) {
            J.attribute("k", "call");
            loc(X->getExprLoc());
            if (auto* F = X->getDirectCallee()) callee(F);
            else exprAttr("fe", X->getCallee());
            exprList("a", X->arguments());
            J.attribute("t", ty(X->getType()));
            return;
        }
        if (auto* X = dyn_cast<CXXConstructExpr>(E)) {
            J.attribute("k", "ctor");
            loc(X->getExprLoc());
            ref(X->getConstructor());
            J.attribute("f", fid(X->getConstructor()));
            J.attribute("q", qn(X->getConstructor()));
            J.attribute("c", clsOf(X->getType()));
            J.attribute("t", ty(X->getType()));
            if (isa<CXXTemporaryObjectExpr>(X)) J.attribute("tmp", true);
            if (X->getConstructor()->isCopyConstructor()) J.attribute("copy", true);
            if (X->getConstructor()->isMoveConstructor()) J.attribute("move", true);
            exprList("a", X->arguments());
            return;
        }
        if (auto* X = dyn_cast<MemberExpr>(E)) {
            if (auto* VD = dyn_cast<VarDecl>(X->getMemberDecl())) { // static member
                J.attribute("k", "var");
                J.attribute("n", VD->getNameAsString());
                J.attribute("vk", "global");
                J.attribute("q", VD->getQualifiedNameAsString());
                J.attribute("t", ty(VD->getType()));
                loc(X->getExprLoc());
                return;
            }
            J.attribute("k", "mem");
            loc(X->getExprLoc());
            J.attribute("n", X->getMemberDecl()->getNameAsString());
            J.attribute("q", qn(X->getMemberDecl()));
            J.attribute("t", ty(X->getMemberDecl()->getType()));
            if (X->isArrow()) J.attribute("ar", true);
            exprAttr("b", X->getBase());
            return;
        }
        if (auto* X = dyn_cast<DeclRefExpr>(E)) {
            const ValueDecl* D = X->getDecl();
            if (auto* EC = dyn_cast<EnumConstantDecl>(D)) {
                J.attribute("k", "enum");
                J.attribute("n", EC->getNameAsString());
                J.attribute("q", EC->getQualifiedNameAsString());
                J.attribute("v", EC->getInitVal().getExtValue());
                J.attribute("t", ty(X->getType()));
                return;
            }
            if (auto* F = dyn_cast<FunctionDecl>(D)) {
                J.attribute("k", "fref");
                callee(F);
                loc(X->getExprLoc());
                return;
            }
            J.attribute("k", "var");
            loc(X->getExprLoc());
            J.attribute("n", D->getNameAsString());
            J.attribute("t", ty(D->getType()));
            if (auto* B = dyn_cast<BindingDecl>(D)) {
                J.attribute("vk", "local");
                J.attribute("id", varId(B));
                return;
            }
            if (auto* V = dyn_cast<VarDecl>(D)) {
                if (V->isStaticLocal()) { J.attribute("vk", "slocal"); J.attribute("id", varId(V)); J.attribute("q", V->getQualifiedNameAsString()); }
                else if (V->hasGlobalStorage()) { J.attribute("vk", "global"); J.attribute("q", V->getQualifiedNameAsString()); }
                else if (isa<ParmVarDecl>(V)) { J.attribute("vk", "param"); J.attribute("id", varId(V)); }
                else { J.attribute("vk", "local"); J.attribute("id", varId(V)); }
            } else {
                J.attribute("vk", "other");
                J.attribute("q", D->getQualifiedNameAsString());
            }
            return;
        }
        if (isa<CXXThisExpr>(E)) { J.attribute("k", "this"); return; }
        if (auto* X = dyn_cast<BinaryOperator>(E)) {
            J.attribute("k", "bin");
            loc(X->getExprLoc());
            J.attribute("op", X->getOpcodeStr());
            exprAttr("x", X->getLHS());
            exprAttr("y", X->getRHS());
            J.attribute("t", ty(X->getType()));
            return;
        }
        if (auto* X = dyn_cast<UnaryOperator>(E)) {
            J.attribute("k", "un");
            loc(X->getExprLoc());
            J.attribute("op", UnaryOperator::getOpcodeStr(X->getOpcode()));
            if (X->isPostfix()) J.attribute("post", true);
            exprAttr("e", X->getSubExpr());
            return;
        }
        if (auto* X = dyn_cast<StringLiteral>(E)) {
            J.attribute("k", "str");
            J.attribute("v", llvm::json::fixUTF8(X->getCharByteWidth() == 1 ? X->getBytes() : ""));
            return;
        }
        if (auto* X = dyn_cast<UserDefinedLiteral>(E)) {
            // "..."s
            J.attribute("k", "str");
            string v;
            if (X->getNumArgs() >= 1) if (auto* S = dyn_cast<StringLiteral>(X->getArg(0)->IgnoreParenImpCasts())) v = S->getBytes().str();
            J.attribute("v", llvm::json::fixUTF8(v));
            return;
        }
        if (auto* X = dyn_cast<IntegerLiteral>(E)) {
            J.attribute("k", "int");
            llvm::APInt v = X->getValue();
            if (v.getActiveBits() <= 63) J.attribute("v", (int64_t) v.getZExtValue());
            else J.attribute("v", llvm::toString(v, 10, false));
            return;
        }
        if (auto* X = dyn_cast<CharacterLiteral>(E)) { J.attribute("k", "char"); J.attribute("v", (int64_t) X->getValue()); return; }
        if (auto* X = dyn_cast<CXXBoolLiteralExpr>(E)) { J.attribute("k", "bool"); J.attribute("v", X->getValue()); return; }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { J.attribute("k", "null"); return; }
        if (auto* X = dyn_cast<FloatingLiteral>(E)) { J.attribute("k", "float"); J.attribute("v", X->getValueAsApproximateDouble()); return; }
        if (auto* X = dyn_cast<AbstractConditionalOperator>(E)) {
            J.attribute("k", "cond");
            exprAttr("c", X->getCond());
            exprAttr("x", X->getTrueExpr());
            exprAttr("y", X->getFalseExpr());
            return;
        }
        if (auto* X = dyn_cast<ExplicitCastExpr>(E)) {
            J.attribute("k", "cast");
            J.attribute("t", ty(X->getTypeAsWritten()));
            J.attribute("ck", X->getStmtClassName());
            exprAttr("e", X->getSubExpr());
            return;
        }
        if (auto* X = dyn_cast<LambdaExpr>(E)) {
            J.attribute("k", "lambda");
            loc(X->getExprLoc());
            string id = lambdaId(X->getLambdaClass());
            J.attribute("f", id);
            J.attributeArray("cap", [&] {
                auto it = X->capture_init_begin();
                for (auto& c : X->captures()) {
                    J.object([&] {
                        if (c.capturesThis()) J.attribute("n", "this");
                        else if (c.capturesVariable()) { J.attribute("n", c.getCapturedVar()->getNameAsString()); J.attribute("id", varId(c.getCapturedVar())); J.attribute("t", ty(c.getCapturedVar()->getType())); }
                        J.attribute("ref", c.getCaptureKind() == LCK_ByRef);
                        if (it != X->capture_init_end() && *it && c.capturesVariable() && X->isInitCapture(&c)) exprAttr("init", *it);
                    });
                    ++it;
                }
            });
            if (auto* M = X->getCallOperator()) pending.emplace_back(id, M);
            return;
        }
        if (auto* X = dyn_cast<CXXThrowExpr>(E)) {
            J.attribute("k", "throw");
            loc(X->getExprLoc());
            if (X->getSubExpr()) { exprAttr("e", X->getSubExpr()); J.attribute("c", clsOf(X->getSubExpr()->getType())); J.attribute("t", ty(X->getSubExpr()->getType())); }
            return;
        }
        if (auto* X = dyn_cast<CXXNewExpr>(E)) {
            J.attribute("k", "new");
            loc(X->getExprLoc());
            J.attribute("t", ty(X->getAllocatedType()));
            J.attribute("c", clsOf(X->getAllocatedType()));
            if (X->getInitializer()) exprAttr("e", X->getInitializer());
            return;
        }
        if (auto* X = dyn_cast<CXXDeleteExpr>(E)) {
            J.attribute("k", "delete");
            loc(X->getExprLoc());
            exprAttr("e", X->getArgument());
            J.attribute("c", clsOf(X->getArgument()->getType()));
            return;
        }
        if (auto* X = dyn_cast<ArraySubscriptExpr>(E)) {
            J.attribute("k", "idx");
            loc(X->getExprLoc());
            exprAttr("b", X->getBase());
            exprAttr("i", X->getIdx());
            return;
        }
        if (auto* X = dyn_cast<InitListExpr>(E)) {
            J.attribute("k", "init");
            J.attribute("t", ty(X->getType()));
            if (X->isSemanticForm() || !X->getSemanticForm()) exprList("a", X->inits());
            else exprList("a", X->getSemanticForm()->inits());
            return;
        }
        if (auto* X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
            J.attribute("k", "sizeof");
            Expr::EvalResult R;
            if (!X->isValueDependent() && X->EvaluateAsInt(R, C)) J.attribute("v", R.Val.getInt().getExtValue());
            return;
        }
        if (auto* X = dyn_cast<OpaqueValueExpr>(E)) {
            if (X->getSourceExpr()) { J.attribute("k", "cast"); exprAttr("e", X->getSourceExpr()); return; }
        }
        if (auto* X = dyn_cast<CXXScalarValueInitExpr>(E)) { J.attribute("k", "int"); J.attribute("v", 0); (void) X; return; }
        if (isa<ImplicitValueInitExpr>(E)) { J.attribute("k", "int"); J.attribute("v", 0); return; }
        if (auto* X = dyn_cast<PredefinedExpr>(E)) { J.attribute("k", "str"); J.attribute("v", "__FUNCTION__"); (void) X; return; }
        if (auto* X = dyn_cast<StmtExpr>(E)) {
            J.attribute("k", "stmtexpr");
            J.attributeBegin("s"); stmt(X->getSubStmt()); J.attributeEnd();
            return;
        }
        J.attribute("k", "other");
        J.attribute("cls", E->getStmtClassName());
        J.attributeArray("a", [&] {
            for (const Stmt* S : E->children()) if (auto* CE = dyn_cast_or_null<Expr>(S)) expr(CE);
        });
    }

    // ---- statements ----------------------------------------------------------------------------------------------
    void stmtAttr(const char* name, const Stmt* S)
    {
        if (!S) return;
        J.attributeBegin(name);
        stmt(S);
        J.attributeEnd();
    }

    void var(const VarDecl* V)
    {
        J.attribute("n", V->getNameAsString());
        J.attribute("id", varId(V));
        J.attribute("t", ty(V->getType()));
        J.attribute("l", line(V->getLocation()));
        if (!V->getType()->isReferenceType() && !V->getType()->isPointerType()) {
            if (auto* R = V->getType()->getAsCXXRecordDecl()) {
                J.attribute("c", R->isLambda() ? lambdaId(R) : R->getQualifiedNameAsString());
                noteRecord(R);
                if (R->hasDefinition()) if (auto* D = R->getDestructor()) if (!D->isTrivial()) { J.attribute("d", fid(D)); ref(D); }
            }
        }
        if (V->isStaticLocal()) J.attribute("static", true);
        if (V->getInit()) exprAttr("init", V->getInit());
        if (auto* DD = dyn_cast<DecompositionDecl>(V)) {
            J.attributeArray("binds", [&] {
                for (auto* B : DD->bindings()) J.object([&] { J.attribute("n", B->getNameAsString()); J.attribute("id", varId(B)); J.attribute("t", ty(B->getType())); });
            });
        }
    }

    // Collect the message and parameter expressions of a logging macro's expansion.
    struct LogParts { const Expr* msg = nullptr; std::vector<const Expr*> params; };
    void findLog(const Stmt* S, LogParts& L)
    {
        if (!S) return;
        if (auto* X = dyn_cast<CXXOperatorCallExpr>(S)) {
            if (X->getOperator() == OO_LessLess && !L.msg) { L.msg = X; return; }
        }
        if (auto* X = dyn_cast<CallExpr>(S)) {
            if (auto* F = X->getDirectCallee()) {
                if (F->getNameAsString() == "addLogParams") {
                    for (unsigned i = 1; i < X->getNumArgs(); i++) if (!isa<CXXDefaultArgExpr>(X->getArg(i))) L.params.push_back(X->getArg(i));
                    return;
                }
            }
        }
        for (const Stmt* c : S->children()) findLog(c, L);
    }

    void stmt(const Stmt* S)
    {
        J.objectBegin();
        stmtBody(S);
        J.objectEnd();
    }

    void stmtBody(const Stmt* S)
    {
        if (!S) { J.attribute("k", "null"); return; }
        if (auto* X = dyn_cast<DoStmt>(S)) {
            string m = immediateMacro(X->getBeginLoc());
            if (m == "SSYSLOG") {
                J.attribute("k", "log");
                loc(X->getBeginLoc());
                J.attribute("macro", callerMacro(X->getBeginLoc(), "SSYSLOG"));
                LogParts L;
                findLog(X->getBody(), L);
                if (L.msg) exprAttr("msg", L.msg);
                exprList("params", L.params);
                return;
            }
            if (m == "SERROR") {
                J.attribute("k", "abort");
                loc(X->getBeginLoc());
                LogParts L;
                findLog(X->getBody(), L);
                if (L.msg) exprAttr("msg", L.msg);
                return;
            }
            J.attribute("k", "do");
            loc(X->getBeginLoc());
            exprAttr("c", X->getCond());
            stmtAttr("body", X->getBody());
            return;
        }
        if (auto* X = dyn_cast<CompoundStmt>(S)) {
            J.attribute("k", "block");
            J.attribute("e", line(X->getRBracLoc()));
            J.attributeArray("s", [&] { for (auto* c : X->body()) stmt(c); });
            return;
        }
        if (auto* X = dyn_cast<DeclStmt>(S)) {
            J.attribute("k", "decl");
            loc(X->getBeginLoc());
            J.attributeArray("v", [&] {
                for (auto* D : X->decls()) if (auto* V = dyn_cast<VarDecl>(D)) J.object([&] { var(V); });
            });
            return;
        }
        if (auto* X = dyn_cast<IfStmt>(S)) {
            J.attribute("k", "if");
            loc(X->getBeginLoc());
            if (X->isConstexpr()) J.attribute("cx", true);
            if (X->getInit()) stmtAttr("init", X->getInit());
            if (auto* V = X->getConditionVariable()) { J.attributeBegin("cv"); J.objectBegin(); var(V); J.objectEnd(); J.attributeEnd(); }
            exprAttr("c", X->getCond());
            stmtAttr("t", X->getThen());
            if (X->getElse()) stmtAttr("f", X->getElse());
            return;
        }
        if (auto* X = dyn_cast<WhileStmt>(S)) {
            J.attribute("k", "while");
            loc(X->getBeginLoc());
            if (auto* V = X->getConditionVariable()) { J.attributeBegin("cv"); J.objectBegin(); var(V); J.objectEnd(); J.attributeEnd(); }
            exprAttr("c", X->getCond());
            stmtAttr("body", X->getBody());
            return;
        }
        if (auto* X = dyn_cast<ForStmt>(S)) {
            J.attribute("k", "for");
            loc(X->getBeginLoc());
            stmtAttr("init", X->getInit());
            if (X->getCond()) exprAttr("c", X->getCond());
            if (X->getInc()) exprAttr("inc", X->getInc());
            stmtAttr("body", X->getBody());
            return;
        }
        if (auto* X = dyn_cast<CXXForRangeStmt>(S)) {
            J.attribute("k", "rangefor");
            loc(X->getBeginLoc());
            J.attributeBegin("var"); J.objectBegin(); 
            {
                const VarDecl* V = X->getLoopVariable();
                J.attribute("n", V->getNameAsString());
                J.attribute("id", varId(V));
                J.attribute("t", ty(V->getType()));
                if (auto* DD = dyn_cast<DecompositionDecl>(V)) {
                    J.attributeArray("binds", [&] {
                        for (auto* B : DD->bindings()) J.object([&] { J.attribute("n", B->getNameAsString()); J.attribute("id", varId(B)); J.attribute("t", ty(B->getType())); });
                    });
                }
            }
            J.objectEnd(); J.attributeEnd();
            exprAttr("range", X->getRangeInit());
            stmtAttr("body", X->getBody());
            return;
        }
        if (auto* X = dyn_cast<SwitchStmt>(S)) {
            J.attribute("k", "switch");
            loc(X->getBeginLoc());
            if (auto* V = X->getConditionVariable()) { J.attributeBegin("cv"); J.objectBegin(); var(V); J.objectEnd(); J.attributeEnd(); }
            exprAttr("c", X->getCond());
            stmtAttr("body", X->getBody());
            return;
        }
        if (auto* X = dyn_cast<CaseStmt>(S)) {
            J.attribute("k", "case");
            loc(X->getBeginLoc());
            exprAttr("v", X->getLHS());
            Expr::EvalResult R;
            if (!X->getLHS()->isValueDependent() && X->getLHS()->EvaluateAsInt(R, C)) J.attribute("iv", R.Val.getInt().getExtValue());
            stmtAttr("s", X->getSubStmt());
            return;
        }
        if (auto* X = dyn_cast<DefaultStmt>(S)) {
            J.attribute("k", "default");
            loc(X->getBeginLoc());
            stmtAttr("s", X->getSubStmt());
            return;
        }
        if (auto* X = dyn_cast<ReturnStmt>(S)) {
            J.attribute("k", "return");
            loc(X->getBeginLoc());
            if (X->getRetValue()) exprAttr("e", X->getRetValue());
            return;
        }
        if (isa<BreakStmt>(S)) { J.attribute("k", "break"); loc(S->getBeginLoc()); return; }
        if (isa<ContinueStmt>(S)) { J.attribute("k", "continue"); loc(S->getBeginLoc()); return; }
        if (isa<NullStmt>(S)) { J.attribute("k", "null"); return; }
        if (auto* X = dyn_cast<CXXTryStmt>(S)) {
            J.attribute("k", "try");
            loc(X->getBeginLoc());
            stmtAttr("body", X->getTryBlock());
            J.attributeArray("h", [&] {
                for (unsigned i = 0; i < X->getNumHandlers(); i++) {
                    const CXXCatchStmt* H = X->getHandler(i);
                    J.object([&] {
                        loc(H->getBeginLoc());
                        if (H->getExceptionDecl()) {
                            J.attribute("c", clsOf(H->getCaughtType()));
                            J.attribute("t", ty(H->getCaughtType()));
                            J.attribute("id", varId(H->getExceptionDecl()));
                            J.attribute("n", H->getExceptionDecl()->getNameAsString());
                        }
                        stmtAttr("body", H->getHandlerBlock());
                    });
                }
            });
            return;
        }
        if (auto* X = dyn_cast<LabelStmt>(S)) {
            J.attribute("k", "label");
            J.attribute("n", X->getDecl()->getNameAsString());
            stmtAttr("s", X->getSubStmt());
            return;
        }
        if (auto* X = dyn_cast<GotoStmt>(S)) { J.attribute("k", "goto"); J.attribute("n", X->getLabel()->getNameAsString()); return; }
        if (auto* X = dyn_cast<AttributedStmt>(S)) { stmtBody(X->getSubStmt()); return; }
        if (auto* X = dyn_cast<Expr>(S)) {
            J.attribute("k", "expr");
            loc(X->getExprLoc());
            exprAttr("e", X);
            return;
        }
        J.attribute("k", "otherstmt");
        J.attribute("cls", S->getStmtClassName());
    }

    // ---- declarations --------------------------------------------------------------------------------------------
    void noteRecord(const CXXRecordDecl* R)
    {
        if (!R || !R->hasDefinition()) return;
        R = R->getDefinition();
        if (!inRepo(R->getLocation())) return;
        records.insert(R);
    }

    void function(const FunctionDecl* F, const string& id)
    {
        if (!F->hasBody() || F->isDependentContext()) return;
        const FunctionDecl* D = nullptr;
        const Stmt* B = F->getBody(D);
        if (!B || !D) return;
        if (!inRepo(D->getLocation())) return;
        string key = id;
        if (!emitted.insert(key).second) return;
        J.object([&] {
            J.attribute("id", id);
            J.attribute("q", qn(D));
            J.attribute("n", D->getNameAsString());
            J.attribute("file", rel(fileOf(D->getLocation())));
            J.attribute("l", line(D->getLocation()));
            J.attribute("end", line(D->getBodyRBrace()));
            J.attribute("ret", ty(D->getReturnType()));
            if (auto* M = dyn_cast<CXXMethodDecl>(D)) {
                if (M->getParent()->isLambda()) J.attribute("lambda", true);
                else { J.attribute("c", M->getParent()->getQualifiedNameAsString()); noteRecord(M->getParent()); }
                J.attribute("acc", (int) M->getAccess());
                if (M->isConst()) J.attribute("const", true);
                if (M->isStatic()) J.attribute("static", true);
                if (M->isVirtual()) J.attribute("virtual", true);
                J.attributeArray("over", [&] { for (auto* o : M->overridden_methods()) J.value(fid(o)); });
            }
            if (auto* T = D->getType()->getAs<FunctionProtoType>()) if (T->isNothrow()) J.attribute("nx", true);
            J.attributeArray("p", [&] {
                for (auto* p : D->parameters()) J.object([&] {
                    J.attribute("n", p->getNameAsString());
                    J.attribute("id", varId(p));
                    J.attribute("t", ty(p->getType()));
                });
            });
            if (auto* K = dyn_cast<CXXConstructorDecl>(D)) {
                J.attribute("isctor", true);
                J.attributeArray("inits", [&] {
                    for (auto* I : K->inits()) J.object([&] {
                        if (I->isAnyMemberInitializer()) { J.attribute("m", I->getAnyMember()->getNameAsString()); J.attribute("q", qn(I->getAnyMember())); J.attribute("written", I->isWritten()); }
                        else if (I->isBaseInitializer()) J.attribute("base", clsOf(QualType(I->getBaseClass(), 0)));
                        else if (I->isDelegatingInitializer()) J.attribute("deleg", true);
                        if (I->getInit()) exprAttr("e", I->getInit());
                    });
                });
                if (K->isMoveConstructor()) J.attribute("movector", true);
                if (K->isCopyConstructor()) J.attribute("copyctor", true);
            }
            if (isa<CXXDestructorDecl>(D)) J.attribute("isdtor", true);
            stmtAttr("body", B);
        });
        while (!pending.empty()) {
            auto p = pending.back();
            pending.pop_back();
            function(p.second, p.first);
        }
    }

    bool VisitFunctionDecl(FunctionDecl* F)
    {
        if (section != 1) return true;
        if (!F->isThisDeclarationADefinition()) return true;
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
        if (F->isImplicit() || F->isDefaulted()) return true;
        if (!inRepo(F->getLocation())) return true;
        function(F, fid(F));
        return true;
    }

    bool VisitCXXRecordDecl(CXXRecordDecl* R)
    {
        if (section != 1) return true;
        if (!R->isThisDeclarationADefinition() || R->isLambda() || R->isDependentContext()) return true;
        noteRecord(R);
        return true;
    }

    bool VisitEnumDecl(EnumDecl* E)
    {
        if (section != 2) return true;
        if (!E->isThisDeclarationADefinition() || !inRepo(E->getLocation())) return true;
        if (E->isDependentContext()) return true;
        string q = E->getQualifiedNameAsString();
        if (!emitted.insert("enum " + q + std::to_string(line(E->getLocation()))).second) return true;
        J.object([&] {
            J.attribute("q", q);
            J.attribute("file", rel(fileOf(E->getLocation())));
            J.attribute("l", line(E->getLocation()));
            J.attributeArray("e", [&] { for (auto* c : E->enumerators()) J.object([&] { J.attribute("n", c->getNameAsString()); J.attribute("v", c->getInitVal().getExtValue()); }); });
        });
        return true;
    }

    bool VisitVarDecl(VarDecl* V)
    {
        if (section != 3) return true;
        if (!V->hasGlobalStorage() || V->isStaticLocal() || isa<ParmVarDecl>(V)) return true;
        if (!V->isThisDeclarationADefinition() || !inRepo(V->getLocation())) return true;
        if (V->getDeclContext()->isDependentContext()) return true;
        string q = V->getQualifiedNameAsString();
        if (!emitted.insert("var " + q + rel(fileOf(V->getLocation()))).second) return true;
        J.object([&] {
            J.attribute("q", q);
            J.attribute("file", rel(fileOf(V->getLocation())));
            J.attribute("l", line(V->getLocation()));
            J.attribute("t", ty(V->getType()));
            if (V->getTLSKind() != VarDecl::TLS_None) J.attribute("tls", true);
            if (V->getInit()) exprAttr("init", V->getInit());
        });
        return true;
    }

    void run()
    {
        J.object([&] {
            J.attributeArray("functions", [&] {
                section = 1;
                TraverseDecl(C.getTranslationUnitDecl());
            });
            J.attributeArray("enums", [&] { section = 2; TraverseDecl(C.getTranslationUnitDecl()); });
            J.attributeArray("globals", [&] { section = 3; TraverseDecl(C.getTranslationUnitDecl());
                while (!pending.empty()) pending.pop_back();
            });
            J.attributeArray("records", [&] {
                for (auto* R : records) {
                    string q = R->getQualifiedNameAsString();
                    J.object([&] {
                        J.attribute("q", q);
                        J.attribute("file", rel(fileOf(R->getLocation())));
                        J.attribute("l", line(R->getLocation()));
                        J.attributeArray("bases", [&] { for (auto& b : R->bases()) J.value(clsOf(b.getType())); });
                        J.attributeArray("fields", [&] {
                            for (auto* f : R->fields()) J.object([&] {
                                J.attribute("n", f->getNameAsString());
                                J.attribute("t", ty(f->getType()));
                                J.attribute("acc", (int) f->getAccess());
                                J.attribute("l", line(f->getLocation()));
                                if (f->isMutable()) J.attribute("mut", true);
                                if (f->getType().isConstQualified()) J.attribute("const", true);
                                if (f->hasInClassInitializer() && f->getInClassInitializer()) exprAttr("init", f->getInClassInitializer());
                            });
                        });
                        J.attributeArray("methods", [&] {
                            for (auto* m : R->methods()) if (!m->isImplicit()) J.object([&] {
                                ref(m);
                                J.attribute("f", fid(m));
                                J.attribute("n", m->getNameAsString());
                                J.attribute("acc", (int) m->getAccess());
                                if (m->isConst()) J.attribute("const", true);
                                if (m->isStatic()) J.attribute("static", true);
                                if (m->isVirtual()) J.attribute("virtual", true);
                                if (m->isDeleted()) J.attribute("deleted", true);
                                if (m->isDefaulted()) J.attribute("defaulted", true);
                                if (isa<CXXConstructorDecl>(m)) J.attribute("ctor", true);
                                if (isa<CXXDestructorDecl>(m)) J.attribute("dtor", true);
                            });
                        });
                    });
                }
            });
            J.attributeArray("decls", [&] {
                std::set<string> done;
                bool again = true;
                while (again) {
                    again = false;
                    auto copy = refs;
                    for (auto& r : copy) {
                        if (!done.insert(r.first).second) continue;
                        again = true;
                        const FunctionDecl* F = r.second;
                        J.object([&] {
                            J.attribute("f", r.first);
                            J.attribute("q", qn(F));
                            bool rep = inRepo(F->getLocation());
                            if (rep) J.attribute("repo", true);
                            if (auto* T = F->getType()->getAs<FunctionProtoType>()) if (!isUnresolvedExceptionSpec(T->getExceptionSpecType()) && T->isNothrow()) J.attribute("nx", true);
                            if (F->isNoReturn()) J.attribute("noret", true);
                            J.attribute("ret", ty(F->getReturnType()));
                            if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
                                J.attribute("acc", (int) M->getAccess());
                                if (M->isConst()) J.attribute("const", true);
                                if (M->isStatic()) J.attribute("static", true);
                                if (M->isVirtual()) {
                                    J.attribute("virtual", true);
                                    J.attributeArray("over", [&] { for (auto* o : M->overridden_methods()) { ref(o); J.value(fid(o)); } });
                                }
                                if (rep) J.attribute("c", ctxName(M->getParent()));
                            }
                            J.attributeArray("pt", [&] { for (auto* p : F->parameters()) J.value(ty(p->getType())); });
                        });
                    }
                }
            });
        });
    }
};

class Consumer : public ASTConsumer {
public:
    void HandleTranslationUnit(ASTContext& C) override
    {
        if (C.getDiagnostics().hasErrorOccurred()) return;
        std::error_code EC;
        llvm::raw_fd_ostream out(gOut, EC);
        if (EC) { llvm::errs() << "cannot write " << gOut << "\n"; return; }
        OStream J(out);
        Extractor X(C, J);
        X.run();
        J.flush();
    }
};

class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override
    {
        CI.getDiagnostics().setSuppressAllDiagnostics(false);
        return std::make_unique<Consumer>();
    }
};

int main(int argc, const char** argv)
{
    // usage: bsa-extract ROOT OUT FILE -- flags...
    if (argc < 5) { llvm::errs() << "usage: bsa-extract ROOT OUT FILE -- flags\n"; return 2; }
    gRoot = argv[1];
    if (gRoot.back() != '/') gRoot += '/';
    gOut = argv[2];
    string file = argv[3];
    std::vector<string> flags;
    for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
    FixedCompilationDatabase db(gRoot, flags);
    ClangTool tool(db, {file});
    return tool.run(newFrontendActionFactory<Action>().get());
}
