// refac: behaviour-preserving source rewrites, applied at every site of a file, to test that the checks stay quiet.
// Usage: refac MODE OUTDIR ROOT SEED KEEP FILE -- flags    (rewrites FILE and headers under ROOT; prints number of sites)
// KEEP: per mille of sites that are rewritten (1000 = all); SEED selects which.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Rewrite/Core/Rewriter.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
using namespace clang; using namespace clang::tooling; using std::string;
static string gMode, gOut, gRoot; static unsigned gSeed, gKeep; static int gN = 0;
struct V : RecursiveASTVisitor<V> {
    ASTContext& C; SourceManager& SM; Rewriter& R; LangOptions LO;
    std::vector<std::pair<unsigned, unsigned>> done;
    std::set<unsigned> seen;
    V(ASTContext& c, Rewriter& r) : C(c), SM(c.getSourceManager()), R(r), LO(c.getLangOpts()) {}
    bool shouldVisitTemplateInstantiations() const { return false; }
    bool ours(SourceLocation L) { if (L.isInvalid() || L.isMacroID()) return false; return SM.getFileID(L) == SM.getMainFileID(); }
    bool oursAny(SourceLocation L) { if (L.isInvalid() || L.isMacroID()) return false; return SM.getFilename(L).starts_with(gRoot); }
    string text(SourceRange r) { return Lexer::getSourceText(CharSourceRange::getTokenRange(r), SM, LO).str(); }
    bool clean(SourceRange r) { return ours(r.getBegin()) && ours(r.getEnd()) && !inMacro(r); }
    bool inMacro(SourceRange r) { return text(r).find("#if") != string::npos || text(r).find("#define") != string::npos; }
    SourceLocation after(SourceLocation e) { return Lexer::getLocForEndOfToken(e, 0, SM, LO); }
    bool pick(SourceLocation L) { unsigned o = SM.getFileOffset(L); if (!seen.insert(o).second) return false;
        unsigned h = (o * 2654435761u) ^ (gSeed * 40503u); h ^= h >> 13; h *= 0x5bd1e995; h ^= h >> 15; if (h % 1000 >= gKeep) return false; gN++; return true; }
    bool overlap(SourceRange r) { unsigned a = SM.getFileOffset(r.getBegin()), b = SM.getFileOffset(r.getEnd());
        for (auto& d : done) if (!(b < d.first || a > d.second)) return true; return false; }
    void mark(SourceRange r) { done.push_back({SM.getFileOffset(r.getBegin()), SM.getFileOffset(r.getEnd())}); }
    struct Has : RecursiveASTVisitor<Has> { bool jump = false, lam = false, iff = false, decl = false, ret=false, brk=false, cont=false; int loops = 0; bool lambdaInside = false; bool sb=false;
        bool VisitReturnStmt(ReturnStmt*) { jump = ret = true; return true; } bool VisitGotoStmt(GotoStmt*) { jump = true; return true; }
        bool VisitBreakStmt(BreakStmt*) { jump = brk = true; return true; } bool VisitContinueStmt(ContinueStmt*) { jump = cont = true; return true; }
        bool VisitIfStmt(IfStmt*) { iff = true; return true; } bool VisitLambdaExpr(LambdaExpr*) { lam = true; return true; }
        bool VisitBindingDecl(BindingDecl*) { sb = true; return true; }
        bool VisitLabelStmt(LabelStmt*) { jump = true; return true; } bool VisitDeclRefExpr(DeclRefExpr* e) { if (isa<BindingDecl>(e->getDecl())) sb = true; return true; } };
    Has has(Stmt* s) { Has h; if (s) h.TraverseStmt(s); return h; }
    string id() { return std::to_string(gN); }
    bool VisitIfStmt(IfStmt* s) {
        if (s->isConstexpr() || s->getInit() || s->getConditionVariable()) return true;
        if (!clean(s->getSourceRange()) || s->getIfLoc().isMacroID()) return true;
        Expr* c = s->getCond(); Stmt* t = s->getThen(); Stmt* e = s->getElse();
        if (!clean(c->getSourceRange()) || !isa<CompoundStmt>(t)) return true;
        SourceLocation end = after(e ? e->getEndLoc() : t->getEndLoc());
        Stmt* last = e; while (last && isa<IfStmt>(last)) { IfStmt* i = cast<IfStmt>(last); last = i->getElse() ? i->getElse() : i->getThen(); }
        if (e && !isa<CompoundStmt>(last)) return true;
        if (gMode == "cond") {
            if (has(c).lam || !pick(s->getIfLoc())) return true;
            string n = "condFlag" + id();
            R.InsertTextAfter(s->getIfLoc(), "{ const bool " + n + " = static_cast<bool>(" + text(c->getSourceRange()) + ");\n");
            R.ReplaceText(CharSourceRange::getTokenRange(c->getSourceRange()), n);
            R.InsertTextAfter(end, "}");
        } else if (gMode == "flip") {
            if (!e || !isa<CompoundStmt>(e) || overlap(s->getSourceRange()) || !pick(s->getIfLoc())) return true;
            mark(s->getSourceRange());
            R.ReplaceText(CharSourceRange::getTokenRange(s->getSourceRange()), "if (!(" + text(c->getSourceRange()) + ")) " + text(e->getSourceRange()) + " else " + text(t->getSourceRange()));
        } else if (gMode == "neg") {   // if (C) A  ->  if (!(C)) {} else A
            if (e || !pick(s->getIfLoc())) return true;
            R.InsertTextBefore(c->getBeginLoc(), "!("); R.InsertTextAfter(after(c->getEndLoc()), ")");
            R.InsertTextBefore(t->getBeginLoc(), "{ ; } else ");
        } else if (gMode == "and") {
            auto* b = dyn_cast<BinaryOperator>(c->IgnoreImpCasts());
            if (e || !b || b->getOpcode() != BO_LAnd || b->getOperatorLoc().isMacroID() || !pick(s->getIfLoc())) return true;
            R.ReplaceText(CharSourceRange::getTokenRange(SourceRange(b->getOperatorLoc())), ") { if (");
            R.InsertTextAfter(end, "}");
        } else if (gMode == "lam") {
            Has h = has(t); if (h.jump || !pick(s->getIfLoc())) return true;
            R.InsertTextBefore(t->getBeginLoc(), "{ [&]() "); R.InsertTextAfter(after(t->getEndLoc()), "(); }");
        } else if (gMode == "lamn") {
            Has h = has(t); if (h.jump || e || overlap(s->getSourceRange()) || !pick(s->getIfLoc())) return true;
            mark(s->getSourceRange());
            string n = "extracted" + id();
            R.ReplaceText(CharSourceRange::getTokenRange(s->getSourceRange()), "{ auto " + n + " = [&]() -> void " + text(t->getSourceRange()) + ";\nif (" + text(c->getSourceRange()) + ") { " + n + "(); } }");
        } else if (gMode == "pred") {   // condition into a named predicate
            if (has(c).lam || !pick(s->getIfLoc())) return true;
            string n = "predicate" + id();
            R.InsertTextAfter(s->getIfLoc(), "{ auto " + n + " = [&]() -> bool { return static_cast<bool>(" + text(c->getSourceRange()) + "); };\n");
            R.ReplaceText(CharSourceRange::getTokenRange(c->getSourceRange()), n + "()");
            R.InsertTextAfter(end, "}");
        }
        return true;
    }
    bool VisitWhileStmt(WhileStmt* s) {
        if (gMode != "loop" || s->getConditionVariable() || !clean(s->getSourceRange()) || !isa<CompoundStmt>(s->getBody()) || !clean(s->getCond()->getSourceRange())) return true;
        if (text(s->getCond()->getSourceRange()) == "true" || !pick(s->getBeginLoc())) return true;
        string c = text(s->getCond()->getSourceRange());
        R.ReplaceText(CharSourceRange::getTokenRange(s->getCond()->getSourceRange()), "true");
        R.InsertTextAfter(after(s->getBody()->getBeginLoc()), "\nif (!(" + c + ")) { break; }\n");
        return true;
    }
    bool VisitForStmt(ForStmt* s) {
        if (gMode != "loop" || s->getConditionVariable() || !clean(s->getSourceRange()) || !isa<CompoundStmt>(s->getBody()) || !s->getCond() || !s->getInit() || !s->getInc()) return true;
        struct CF : RecursiveASTVisitor<CF> { bool c = false; bool VisitContinueStmt(ContinueStmt*) { c = true; return true; } } f; f.TraverseStmt(s->getBody());
        if (f.c || overlap(s->getSourceRange()) || !pick(s->getBeginLoc())) return true;
        string b = text(s->getBody()->getSourceRange());
        string init = text(s->getInit()->getSourceRange()); if (init.empty() || init.back() != ';') init += ";";
        mark(s->getSourceRange());
        b = b.substr(0, b.size() - 1);
        R.ReplaceText(CharSourceRange::getTokenRange(s->getSourceRange()), "{ " + init + " while (" + text(s->getCond()->getSourceRange()) + ") " + b + "\n" + text(s->getInc()->getSourceRange()) + ";\n} }");
        return true;
    }
    bool VisitCXXForRangeStmt(CXXForRangeStmt* s) {
        if (gMode != "range" || !clean(s->getSourceRange()) || !isa<CompoundStmt>(s->getBody())) return true;
        Expr* r = s->getRangeInit(); if (!r || !clean(r->getSourceRange()) || r->getType()->isArrayType()) return true;
        VarDecl* v = s->getLoopVariable(); SourceRange vr = v->getSourceRange();
        string d = text(SourceRange(vr.getBegin(), vr.getEnd()));
        if (auto* dd = dyn_cast<DecompositionDecl>(v)) { d = text(SourceRange(vr.getBegin(), dd->getEndLoc())); }
        size_t co = d.find(" :"); if (co != string::npos) d = d.substr(0, co);
        if (d.empty() || has(s->getBody()).sb) return true;
        if (!pick(s->getBeginLoc())) return true;
        string n = id();
        R.ReplaceText(CharSourceRange::getCharRange(s->getBeginLoc(), s->getBody()->getBeginLoc()),
            "{ auto&& seq" + n + " = " + text(r->getSourceRange()) + "; for (auto cur" + n + " = seq" + n + ".begin(); cur" + n + " != seq" + n + ".end(); ++cur" + n + ") ");
        R.InsertTextAfter(after(s->getBody()->getBeginLoc()), " " + d + " = *cur" + n + ";\n");
        R.InsertTextAfter(after(s->getBody()->getEndLoc()), "}");
        return true;
    }
    bool VisitBinaryOperator(BinaryOperator* b) {
        if (gMode != "eq") return true;
        auto o = b->getOpcode(); const char* f = o == BO_EQ ? "==" : o == BO_NE ? "!=" : o == BO_LT ? ">" : o == BO_GT ? "<" : o == BO_LE ? ">=" : o == BO_GE ? "<=" : nullptr;
        if (!f || !clean(b->getSourceRange()) || b->getOperatorLoc().isMacroID() || overlap(b->getSourceRange()) || !pick(b->getOperatorLoc())) return true;
        mark(b->getSourceRange());
        R.ReplaceText(CharSourceRange::getTokenRange(b->getSourceRange()), "(" + text(b->getRHS()->getSourceRange()) + ") " + f + " (" + text(b->getLHS()->getSourceRange()) + ")");
        return true;
    }
    bool VisitUnaryOperator(UnaryOperator* u) {
        if (gMode != "inc" || !u->isIncrementDecrementOp() || !clean(u->getSourceRange())) return true;
        auto ps = C.getParents(*u); if (ps.size() != 1 || !ps[0].get<CompoundStmt>() || !pick(u->getOperatorLoc())) return true;
        R.ReplaceText(CharSourceRange::getTokenRange(u->getSourceRange()), text(u->getSubExpr()->getSourceRange()) + (u->isIncrementOp() ? " += 1" : " -= 1"));
        return true;
    }
    FunctionDecl* cur = nullptr; std::vector<const FunctionDecl*> st;
    bool TraverseLambdaExpr(LambdaExpr* l) { st.push_back(l->getCallOperator()); bool r = RecursiveASTVisitor::TraverseLambdaExpr(l); st.pop_back(); return r; }
    bool VisitReturnStmt(ReturnStmt* s) {
        if (gMode != "ret" || !s->getRetValue() || !clean(s->getSourceRange())) return true;
        QualType q = s->getRetValue()->getType(); Expr* e = s->getRetValue()->IgnoreParenImpCasts();
        if (!clean(e->getSourceRange()) || isa<CXXBoolLiteralExpr>(e) ) { if (!isa<CXXBoolLiteralExpr>(e) || !clean(e->getSourceRange())) return true; }
        string ty = q->isBooleanType() ? "bool" : q->isIntegerType() ? "auto" : "";
        if (ty.empty() || has(s->getRetValue()).lam || text(s->getRetValue()->getSourceRange()).empty() || !pick(s->getBeginLoc())) return true;
        string n = "outcome" + id();
        R.InsertTextBefore(s->getBeginLoc(), "{ ");
        R.InsertTextAfter(s->getBeginLoc(), "const " + ty + " " + n + " = " + text(s->getRetValue()->getSourceRange()) + "; ");
        R.ReplaceText(CharSourceRange::getTokenRange(s->getRetValue()->getSourceRange()), n);
        SourceLocation semi = Lexer::findLocationAfterToken(s->getEndLoc(), tok::semi, SM, LO, false);
        R.InsertTextAfter(semi, " }");
        return true;
    }
    bool VisitImplicitCastExpr(ImplicitCastExpr* c) {
        if (gMode != "nullp" || c->getCastKind() != CK_PointerToBoolean) return true;
        Expr* e = c->getSubExpr(); if (!clean(e->getSourceRange()) || overlap(e->getSourceRange()) || !pick(e->getBeginLoc())) return true; mark(e->getSourceRange());
        R.ReplaceText(CharSourceRange::getTokenRange(e->getSourceRange()), "(" + text(e->getSourceRange()) + " != nullptr)"); return true; }
    bool VisitCXXMemberCallExpr(CXXMemberCallExpr* e) {
        if (gMode == "empty") {
            auto* md = e->getMethodDecl(); if (!md || md->getNameAsString() != "empty") return true;
            auto* me = dyn_cast<MemberExpr>(e->getCallee()->IgnoreParens()); if (!me || me->isImplicitAccess() || !clean(e->getSourceRange())) return true;
            if (md->getParent()->getName().contains("list") && false) return true;
            if (overlap(e->getSourceRange()) || !pick(e->getExprLoc())) return true; mark(e->getSourceRange());
            string t = text(e->getSourceRange()); size_t p = t.rfind("empty"); if (p == string::npos) return true;
            R.ReplaceText(CharSourceRange::getTokenRange(e->getSourceRange()), "(" + t.substr(0, p) + "size() == 0)"); return true;
        }
        if (gMode == "count") {
            auto* md = e->getMethodDecl(); if (!md || md->getNameAsString() != "count" || e->getNumArgs() != 1) return true;
            auto* me = dyn_cast<MemberExpr>(e->getCallee()->IgnoreParens()); if (!me || me->isImplicitAccess() || !clean(e->getSourceRange())) return true;
            if (overlap(e->getSourceRange()) || !pick(e->getExprLoc())) return true; mark(e->getSourceRange());
            string o = text(me->getBase()->getSourceRange()), op = me->isArrow() ? "->" : ".";
            R.ReplaceText(CharSourceRange::getTokenRange(e->getSourceRange()), "(" + o + op + "find(" + text(e->getArg(0)->getSourceRange()) + ") != " + o + op + "end())"); return true;
        }   // alias of the object: obj.f(..) -> { auto& o = obj; o.f(..); }
        if (gMode != "alias" || !clean(e->getSourceRange())) return true;
        auto ps = C.getParents(*e); if (ps.size() == 1 && ps[0].get<ExprWithCleanups>()) ps = C.getParents(*ps[0].get<ExprWithCleanups>());
        if (ps.size() != 1 || !ps[0].get<CompoundStmt>()) return true;
        auto* me = dyn_cast<MemberExpr>(e->getCallee()->IgnoreParens()); if (!me || me->isImplicitAccess()) return true;
        Expr* o = me->getBase(); if (!o->isLValue() && !me->isArrow()) return true;
        if (!clean(o->getSourceRange())) return true;
        if (auto* oc = dyn_cast<CXXOperatorCallExpr>(o->IgnoreParenImpCasts())) if (me->isArrow() && oc->getOperator() == OO_Arrow) { o = oc->getArg(0); }
        if (overlap(e->getSourceRange()) || !pick(e->getBeginLoc())) return true; mark(e->getSourceRange());
        string n = "alias" + id(); string full = text(e->getSourceRange()), ob = text(o->getSourceRange());
        if (full.compare(0, ob.size(), ob)) return true;
        R.ReplaceText(CharSourceRange::getTokenRange(e->getSourceRange()), "{ auto&& " + n + " = " + ob + "; " + n + full.substr(ob.size()) + "; }");
        return true;
    }
    std::set<const ValueDecl*> noRename; std::map<const ValueDecl*, std::vector<SourceLocation>> uses;
    bool VisitDeclRefExpr(DeclRefExpr* e) { if (gMode != "rename") return true; auto* v = dyn_cast<VarDecl>(e->getDecl()); if (!v) return true;
        if (!ours(e->getLocation())) noRename.insert(v); else uses[v].push_back(e->getLocation()); return true; }
    bool VisitLambdaExpr(LambdaExpr* l) { if (gMode != "rename") return true; for (auto& c : l->captures()) if (c.isExplicit() && c.capturesVariable()) noRename.insert(c.getCapturedVar()); return true; }
    std::set<const VarDecl*> locals;
    bool VisitVarDecl(VarDecl* v) { if (gMode != "rename") return true; if (isa<DecompositionDecl>(v) || v->isImplicit() || v->getName().empty()) return true;
        if (!v->isLocalVarDecl() && !isa<ParmVarDecl>(v)) return true; if (v->isInitCapture()) return true;
        if (auto* p = dyn_cast<ParmVarDecl>(v)) { auto* f = dyn_cast<FunctionDecl>(p->getDeclContext()); if (!f || !f->doesThisDeclarationHaveABody()) return true; }
        if (ours(v->getLocation())) locals.insert(v); return true; }
    bool VisitFunctionDecl(FunctionDecl* f) {
        if (gMode == "body" || gMode == "impl") {
            if (!f->doesThisDeclarationHaveABody() || f->isDefaulted() || f->isConstexpr() || isa<CXXConstructorDecl>(f) || isa<CXXDestructorDecl>(f) || isa<CXXDeductionGuideDecl>(f)) return true;
            if (f->isDependentContext() || f->getDescribedFunctionTemplate() || f->isNoReturn()) return true;
            if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return true;
            if (!clean(f->getBody()->getSourceRange()) || !isa<CompoundStmt>(f->getBody()) || f->isMain()) return true;
            Stmt* b = f->getBody(); QualType q = f->getReturnType();
            if (gMode == "body") {
                if (!pick(b->getBeginLoc())) return true;
                PrintingPolicy P(LO); string rt = q.getAsString(P);
                if (rt.find("(") != string::npos || rt.find("lambda") != string::npos) return true;
                R.InsertTextBefore(b->getBeginLoc(), q->isVoidType() ? "{ [&]() -> void " : "{ return [&]() -> " + text(f->getReturnTypeSourceRange()) + " ");
                if (!q->isVoidType() && text(f->getReturnTypeSourceRange()).empty()) return true;
                if (!q->isVoidType()) { R.RemoveText(b->getBeginLoc(), 1); R.InsertTextAfter(b->getBeginLoc(), "{"); }
                R.InsertTextAfter(after(b->getEndLoc()), "(); }");
            } else {
                auto* m = dyn_cast<CXXMethodDecl>(f); if (!m || !m->isOutOfLine() || f->isOverloadedOperator() || f->isVariadic() || m->isVirtual() && false) return true;
                auto* d = m->getCanonicalDecl(); if (!oursAny(d->getLocation()) || d == m) return true;
                if (isa<CXXConversionDecl>(f)) return true;
                string dt = text(d->getSourceRange()); string nm = f->getNameAsString(); string args;
                for (auto* p : f->parameters()) { if (p->getName().empty()) return true; if (!args.empty()) args += ", ";
                    string a = p->getNameAsString(); QualType t = p->getType(); bool mv = t->isRValueReferenceType() || (!t->isReferenceType() && t->isRecordType()); args += mv ? "std::move(" + a + ")" : a; }
                if (!pick(b->getBeginLoc())) return true;
                string head = text(SourceRange(f->getOuterLocStart(), b->getBeginLoc())); head.pop_back();
                size_t x = head.find("::" + nm); if (x == string::npos) return true; string ih = head; ih.insert(x + 2 + nm.size(), "Step");
                // declaration
                string ds = dt; size_t y = ds.find(nm + "("); if (y == string::npos) return true; ds.insert(y + nm.size(), "Step");
                for (string k : {"virtual ", " override", " final"}) { size_t z; while ((z = ds.find(k)) != string::npos) ds.erase(z, k.size()); }
                R.InsertTextBefore(d->getOuterLocStart(), ds + ";\n    ");
                // header of the step first, the original name after the body
                SourceLocation o = f->getOuterLocStart();
                R.InsertTextAfter(after(b->getEndLoc()), "\n" + head + "{ " + (q->isVoidType() ? "" : "return ") + nm + "Step(" + args + "); }\n");
                R.InsertTextAfter(f->getNameInfo().getEndLoc().getLocWithOffset(nm.size()), "Step");
                (void) o; (void) ih;
            }
        }
        return true;
    }
    void finish() {
        if (gMode == "rename") for (auto* v : locals) { if (noRename.count(v)) continue; if (!pick(v->getLocation())) continue;
            string n = v->getNameAsString() + "Renamed";
            R.ReplaceText(v->getLocation(), v->getName().size(), n); for (auto u : uses[v]) if (text(SourceRange(u)) == v->getName()) R.ReplaceText(u, v->getName().size(), n); }
    }
};
struct Cons : ASTConsumer { Rewriter R; CompilerInstance& CI; Cons(CompilerInstance& c) : CI(c) {}
    void HandleTranslationUnit(ASTContext& C) override { R.setSourceMgr(C.getSourceManager(), C.getLangOpts()); V v(C, R); v.TraverseDecl(C.getTranslationUnitDecl()); v.finish();
        for (auto it = R.buffer_begin(); it != R.buffer_end(); ++it) { auto fe = C.getSourceManager().getFileEntryRefForID(it->first); if (!fe) continue; string p = fe->getName().str(); if (p.compare(0, gRoot.size(), gRoot)) continue;
            std::error_code ec; llvm::raw_fd_ostream o(p, ec); it->second.write(o); }
        llvm::outs() << gN << "\n"; } };
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override { return std::make_unique<Cons>(CI); } };
int main(int argc, const char** argv) { gMode = argv[1]; gRoot = argv[2]; gSeed = atoi(argv[3]); gKeep = atoi(argv[4]); string f = argv[5]; std::vector<string> fl; for (int i = 7; i < argc; i++) fl.push_back(argv[i]);
    FixedCompilationDatabase db(".", fl); ClangTool t(db, {f}); return t.run(newFrontendActionFactory<Act>().get()); }
