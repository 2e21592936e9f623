// Fact extractor: walks the type-checked AST of the given translation units and
// prints, one JSON object per line, every function body, record, enum and
// namespace-scope variable that is defined under the given root directory.
//
// usage: extract <root> <out-file> <list-file> -- <clang flags...>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

using namespace clang;

static std::string Root;
static llvm::raw_fd_ostream* Out = nullptr;
static std::set<std::string> Emitted; // across the TUs of this process

static void jstr(std::string& o, llvm::StringRef s) {
    o.push_back('"');
    for (unsigned char c : s) {
        switch (c) {
        case '"': o += "\\\""; break;
        case '\\': o += "\\\\"; break;
        case '\n': o += "\\n"; break;
        case '\t': o += "\\t"; break;
        case '\r': o += "\\r"; break;
        default:
            if ((c < 0x20) || (0x7e < c)) {
                char b[8];
                std::snprintf(b, sizeof(b), "\\u%04x", c);
                o += b;
            } else o.push_back(static_cast<char>(c));
        }
    }
    o.push_back('"');
}

class Emitter {
public:
    explicit Emitter(ASTContext& c) : Ctx(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
        PP.SuppressUnwrittenScope = false;
        PP.AnonymousTagLocations = true;
    }

    ASTContext& Ctx;
    SourceManager& SM;
    PrintingPolicy PP;
    std::unordered_map<const Decl*, std::string> UsrCache;
    std::unordered_map<const Decl*, unsigned> VarIds;
    std::unordered_map<const void*, unsigned> TypeIds;
    std::map<std::string, unsigned> TypeStrIds;
    std::vector<std::string> Types;
    std::map<std::string, std::string> Decls;
    std::string CurFn;
    std::vector<const CXXMethodDecl*> Lambdas;
    std::vector<std::pair<std::string, std::pair<const LambdaExpr*, const FunctionDecl*>>> PendingLambdas;
    unsigned NextVar = 1;

    std::string file(SourceLocation l) {
        l = SM.getExpansionLoc(l);
        auto f = SM.getFilename(l).str();
        llvm::SmallString<256> real;
        auto fe = SM.getFileEntryRefForID(SM.getFileID(l));
        if (fe) {
            auto r = fe->getFileEntry().tryGetRealPathName();
            if (!r.empty()) return r.str();
        }
        return f;
    }
    unsigned line(SourceLocation l) { return SM.getExpansionLineNumber(l); }
    bool inRoot(SourceLocation l) {
        if (l.isInvalid()) return false;
        if (SM.isInSystemHeader(l)) return false;
        auto f = file(l);
        return f.compare(0, Root.size(), Root) == 0;
    }
    std::string rel(SourceLocation l) {
        auto f = file(l);
        if (f.compare(0, Root.size(), Root) == 0) return f.substr(Root.size());
        return f;
    }

    std::string usr(const Decl* d) {
        d = d->getCanonicalDecl();
        auto it = UsrCache.find(d);
        if (it != UsrCache.end()) return it->second;
        llvm::SmallString<128> b;
        std::string r;
        if (index::generateUSRForDecl(d, b)) {
            r = "?" + std::to_string(reinterpret_cast<std::uintptr_t>(d));
        } else r = b.str().str();
        UsrCache[d] = r;
        return r;
    }

    unsigned type(QualType q) {
        if (q.isNull()) return typeStr("?");
        auto c = q.getCanonicalType();
        auto it = TypeIds.find(c.getAsOpaquePtr());
        if (it != TypeIds.end()) return it->second;
        auto r = typeStr(c.getAsString(PP));
        TypeIds[c.getAsOpaquePtr()] = r;
        return r;
    }
    unsigned typeStr(const std::string& s) {
        auto it = TypeStrIds.find(s);
        if (it != TypeStrIds.end()) return it->second;
        unsigned r = Types.size();
        Types.push_back(s);
        TypeStrIds[s] = r;
        return r;
    }

    std::string qname(const NamedDecl* d) {
        std::string s;
        llvm::raw_string_ostream os(s);
        d->printQualifiedName(os, PP);
        return os.str();
    }

    std::string declRef(const FunctionDecl* f) {
        auto u = usr(f);
        if (Decls.count(u)) return u;
        Decls[u] = "";
        std::string o = "{";
        o += "\"q\":"; jstr(o, qname(f));
        o += ",\"n\":"; jstr(o, f->getNameAsString());
        o += ",\"ret\":" + std::to_string(type(f->getReturnType()));
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            o += ",\"cls\":"; jstr(o, qname(m->getParent()));
            if (m->isVirtual()) o += ",\"virt\":1";
            if (m->isPureVirtual()) o += ",\"pure\":1";
            if (m->isStatic()) o += ",\"st\":1";
            if (m->isConst()) o += ",\"c\":1";
            if (isa<CXXConstructorDecl>(m)) o += ",\"ctor\":1";
            if (isa<CXXDestructorDecl>(m)) o += ",\"dtor\":1";
            if (isa<CXXConversionDecl>(m)) o += ",\"conv\":1";
            if (m->size_overridden_methods() != 0) {
                o += ",\"over\":[";
                bool first = true;
                for (auto* ov : m->overridden_methods()) {
                    if (!first) o += ",";
                    first = false;
                    jstr(o, usr(ov));
                }
                o += "]";
                for (auto* ov : m->overridden_methods()) declRef(ov);
            }
        }
        if (inRoot(f->getLocation())) { o += ",\"in\":1"; }
        o += ",\"f\":"; jstr(o, rel(f->getLocation()));
        o += ",\"l\":" + std::to_string(line(f->getLocation()));
        o += ",\"pt\":[";
        for (unsigned i = 0; i < f->getNumParams(); ++i) {
            if (i) o += ",";
            o += std::to_string(type(f->getParamDecl(i)->getType()));
        }
        o += "],\"pn\":[";
        for (unsigned i = 0; i < f->getNumParams(); ++i) {
            if (i) o += ",";
            jstr(o, f->getParamDecl(i)->getNameAsString());
        }
        o += "]";
        if (f->isNoReturn()) o += ",\"nr\":1";
        if (f->hasAttr<WarnUnusedResultAttr>()) o += ",\"nd\":1";
        if (f->isExternC()) o += ",\"xc\":1";
        if (auto* ta = f->getTemplateSpecializationArgs()) {
            o += ",\"targs\":[";
            bool first = true;
            for (auto& a : ta->asArray()) {
                if (a.getKind() != TemplateArgument::Type) continue;
                if (!first) o += ",";
                first = false;
                o += std::to_string(type(a.getAsType()));
            }
            o += "]";
        }
        o += "}";
        Decls[u] = o;
        return u;
    }

    unsigned var(const ValueDecl* v) {
        auto* d = v->getCanonicalDecl();
        auto it = VarIds.find(d);
        if (it != VarIds.end()) return it->second;
        unsigned r = NextVar++;
        VarIds[d] = r;
        return r;
    }

    std::string lambdaId(const LambdaExpr* l) {
        return CurFn + "#lam" + std::to_string(SM.getExpansionLineNumber(l->getBeginLoc())) + ":" +
               std::to_string(SM.getExpansionColumnNumber(l->getBeginLoc()));
    }

    void exprs(std::string& o, llvm::ArrayRef<const Expr*> es) {
        o += "[";
        bool first = true;
        for (auto* e : es) {
            if (!first) o += ",";
            first = false;
            expr(o, e);
        }
        o += "]";
    }
    template <typename R> void exprRange(std::string& o, R&& r) {
        o += "[";
        bool first = true;
        for (auto* e : r) {
            if (!first) o += ",";
            first = false;
            expr(o, e);
        }
        o += "]";
    }

    void head(std::string& o, const char* k, const Stmt* e) {
        o += "[\"";
        o += k;
        o += "\",";
        o += std::to_string(line(e->getBeginLoc()));
    }
    void headT(std::string& o, const char* k, const Expr* e) {
        head(o, k, e);
        o += ",";
        o += std::to_string(type(e->getType()));
    }

    void expr(std::string& o, const Expr* e) {
        if (!e) { o += "null"; return; }
        switch (e->getStmtClass()) {
        case Stmt::ParenExprClass: return expr(o, cast<ParenExpr>(e)->getSubExpr());
        case Stmt::ExprWithCleanupsClass: return expr(o, cast<ExprWithCleanups>(e)->getSubExpr());
        case Stmt::ConstantExprClass: return expr(o, cast<ConstantExpr>(e)->getSubExpr());
        case Stmt::MaterializeTemporaryExprClass: return expr(o, cast<MaterializeTemporaryExpr>(e)->getSubExpr());
        case Stmt::CXXBindTemporaryExprClass: return expr(o, cast<CXXBindTemporaryExpr>(e)->getSubExpr());
        case Stmt::SubstNonTypeTemplateParmExprClass: return expr(o, cast<SubstNonTypeTemplateParmExpr>(e)->getReplacement());
        case Stmt::CXXDefaultArgExprClass: {
            head(o, "dflt", e);
            o += ",";
            expr(o, cast<CXXDefaultArgExpr>(e)->getExpr());
            o += "]";
            return;
        }
        case Stmt::CXXDefaultInitExprClass: {
            head(o, "dflt", e);
            o += ",";
            expr(o, cast<CXXDefaultInitExpr>(e)->getExpr());
            o += "]";
            return;
        }
        case Stmt::ImplicitCastExprClass: {
            auto* c = cast<ImplicitCastExpr>(e);
            switch (c->getCastKind()) {
            case CK_IntegralCast:
            case CK_IntegralToFloating:
            case CK_FloatingToIntegral:
            case CK_FloatingCast:
            case CK_PointerToBoolean:
            case CK_IntegralToBoolean:
                head(o, "icast", e);
                o += "," + std::to_string(type(e->getType())) + ",\"";
                o += c->getCastKindName();
                o += "\",";
                expr(o, c->getSubExpr());
                o += "]";
                return;
            default: return expr(o, c->getSubExpr());
            }
        }
        default: break;
        }

        if (auto* c = dyn_cast<ExplicitCastExpr>(e)) {
            const char* k = "c";
            if (isa<CXXStaticCastExpr>(e)) k = "static";
            else if (isa<CXXReinterpretCastExpr>(e)) k = "reinterpret";
            else if (isa<CXXConstCastExpr>(e)) k = "const";
            else if (isa<CXXDynamicCastExpr>(e)) k = "dynamic";
            else if (isa<CXXFunctionalCastExpr>(e)) k = "func";
            headT(o, "cast", e);
            o += ",\"";
            o += k;
            o += "\",\"";
            o += c->getCastKindName();
            o += "\",";
            expr(o, c->getSubExpr());
            o += "]";
            return;
        }
        if (auto* oc = dyn_cast<CXXOperatorCallExpr>(e)) {
            headT(o, "op", e);
            o += ",\"";
            o += getOperatorSpelling(oc->getOperator());
            o += "\",";
            if (auto* fd = oc->getDirectCallee()) jstr(o, declRef(fd)); else o += "null";
            o += ",";
            exprRange(o, oc->arguments());
            o += "]";
            return;
        }
        if (auto* mc = dyn_cast<CXXMemberCallExpr>(e)) {
            headT(o, "call", e);
            o += ",";
            if (auto* md = mc->getMethodDecl()) jstr(o, declRef(md)); else o += "null";
            o += ",";
            exprRange(o, mc->arguments());
            o += ",";
            if (mc->getMethodDecl()) {
                expr(o, mc->getImplicitObjectArgument());
                auto* me = dyn_cast<MemberExpr>(mc->getCallee()->IgnoreParens());
                bool qual = me && me->hasQualifier();
                o += qual ? ",1" : ",0";
            } else {
                expr(o, mc->getCallee());
                o += ",2";
            }
            o += "]";
            return;
        }
        if (auto* ce = dyn_cast<CallExpr>(e)) {
            headT(o, "call", e);
            o += ",";
            if (auto* fd = ce->getDirectCallee()) {
                jstr(o, declRef(fd));
                o += ",";
                exprRange(o, ce->arguments());
                o += ",null,0]";
            } else {
                o += "null,";
                exprRange(o, ce->arguments());
                o += ",";
                expr(o, ce->getCallee());
                o += ",2]";
            }
            return;
        }
        if (auto* te = dyn_cast<CXXTemporaryObjectExpr>(e)) { (void)te; }
        if (auto* ct = dyn_cast<CXXConstructExpr>(e)) {
            if (ct->isElidable() && (ct->getNumArgs() >= 1)) return expr(o, ct->getArg(0));
            headT(o, "ctor", e);
            o += ",";
            jstr(o, declRef(ct->getConstructor()));
            o += ",";
            exprRange(o, ct->arguments());
            const char* k = "";
            if (ct->getConstructor()->isCopyConstructor()) k = "copy";
            else if (ct->getConstructor()->isMoveConstructor()) k = "move";
            else if (ct->getConstructor()->isDefaultConstructor()) k = "default";
            o += ",\"";
            o += k;
            o += "\"]";
            return;
        }
        if (auto* dr = dyn_cast<DeclRefExpr>(e)) {
            auto* d = dr->getDecl();
            if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
                headT(o, "enumr", e);
                o += ",";
                jstr(o, qname(ec));
                llvm::SmallString<32> s;
                ec->getInitVal().toString(s, 10);
                o += "," + s.str().str() + "]";
                return;
            }
            if (auto* fd = dyn_cast<FunctionDecl>(d)) {
                headT(o, "fref", e);
                o += ",";
                jstr(o, declRef(fd));
                o += "]";
                return;
            }
            if (auto* pd = dyn_cast<ParmVarDecl>(d)) {
                headT(o, "v", e);
                o += "," + std::to_string(var(pd)) + ",";
                jstr(o, pd->getNameAsString());
                o += "]";
                return;
            }
            if (auto* bd = dyn_cast<BindingDecl>(d)) {
                headT(o, "v", e);
                o += "," + std::to_string(var(bd)) + ",";
                jstr(o, bd->getNameAsString());
                o += "]";
                return;
            }
            if (auto* vd = dyn_cast<VarDecl>(d)) {
                if (vd->isLocalVarDecl() || vd->isInitCapture()) {
                    headT(o, "v", e);
                    o += "," + std::to_string(var(vd)) + ",";
                    jstr(o, vd->getNameAsString());
                    o += "]";
                } else {
                    headT(o, "gv", e);
                    o += ",";
                    jstr(o, usr(vd));
                    o += ",";
                    jstr(o, qname(vd));
                    o += "]";
                    if (!inRoot(vd->getLocation())) return;
                }
                return;
            }
            headT(o, "dref", e);
            o += ",";
            jstr(o, d->getNameAsString());
            o += "]";
            return;
        }
        if (auto* me = dyn_cast<MemberExpr>(e)) {
            auto* d = me->getMemberDecl();
            if (auto* fd = dyn_cast<FieldDecl>(d)) {
                headT(o, "mem", e);
                o += ",";
                jstr(o, qname(fd->getParent()) + "::" + fd->getNameAsString());
                o += ",";
                expr(o, me->getBase());
                o += me->isArrow() ? ",1]" : ",0]";
                return;
            }
            if (auto* vd = dyn_cast<VarDecl>(d)) {
                headT(o, "gv", e);
                o += ",";
                jstr(o, usr(vd));
                o += ",";
                jstr(o, qname(vd));
                o += "]";
                return;
            }
            if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
                headT(o, "enumr", e);
                o += ",";
                jstr(o, qname(ec));
                llvm::SmallString<32> s;
                ec->getInitVal().toString(s, 10);
                o += "," + s.str().str() + "]";
                return;
            }
            if (auto* fd = dyn_cast<FunctionDecl>(d)) {
                headT(o, "fref", e);
                o += ",";
                jstr(o, declRef(fd));
                o += "]";
                return;
            }
        }
        if (auto* sl = dyn_cast<StringLiteral>(e)) {
            head(o, "str", e);
            o += ",";
            if (sl->getCharByteWidth() == 1) jstr(o, sl->getString()); else o += "\"?\"";
            o += "]";
            return;
        }
        if (auto* il = dyn_cast<IntegerLiteral>(e)) {
            headT(o, "int", e);
            llvm::SmallString<32> s;
            il->getValue().toString(s, 10, false);
            o += "," + s.str().str() + "]";
            return;
        }
        if (auto* cl = dyn_cast<CharacterLiteral>(e)) {
            head(o, "chr", e);
            o += "," + std::to_string(cl->getValue()) + "]";
            return;
        }
        if (auto* bl = dyn_cast<CXXBoolLiteralExpr>(e)) {
            head(o, "bool", e);
            o += bl->getValue() ? ",1]" : ",0]";
            return;
        }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
            head(o, "null", e);
            o += "]";
            return;
        }
        if (isa<FloatingLiteral>(e)) {
            head(o, "flt", e);
            o += "," + std::to_string(cast<FloatingLiteral>(e)->getValueAsApproximateDouble()) + "]";
            return;
        }
        if (auto* b = dyn_cast<BinaryOperator>(e)) {
            headT(o, "bin", e);
            o += ",\"";
            o += b->getOpcodeStr().str();
            o += "\",";
            expr(o, b->getLHS());
            o += ",";
            expr(o, b->getRHS());
            o += "]";
            return;
        }
        if (auto* u = dyn_cast<UnaryOperator>(e)) {
            headT(o, "un", e);
            o += ",\"";
            if (u->isPostfix()) o += "post";
            o += UnaryOperator::getOpcodeStr(u->getOpcode()).str();
            o += "\",";
            expr(o, u->getSubExpr());
            o += "]";
            return;
        }
        if (auto* c = dyn_cast<ConditionalOperator>(e)) {
            headT(o, "cond", e);
            o += ",";
            expr(o, c->getCond());
            o += ",";
            expr(o, c->getTrueExpr());
            o += ",";
            expr(o, c->getFalseExpr());
            o += "]";
            return;
        }
        if (isa<CXXThisExpr>(e)) {
            headT(o, "this", e);
            o += "]";
            return;
        }
        if (auto* l = dyn_cast<LambdaExpr>(e)) {
            head(o, "lam", e);
            o += ",";
            auto id = lambdaId(l);
            jstr(o, id);
            o += ",[";
            bool first = true;
            auto ii = l->capture_init_begin();
            for (auto& c : l->captures()) {
                if (!first) o += ",";
                first = false;
                if (c.capturesVariable()) {
                    o += "[" + std::to_string(var(c.getCapturedVar())) + ",";
                    jstr(o, c.getCapturedVar()->getNameAsString());
                    o += c.getCaptureKind() == LCK_ByRef ? ",1," : ",0,";
                    if (l->isInitCapture(&c)) {
                        auto* vd = dyn_cast<VarDecl>(c.getCapturedVar());
                        expr(o, vd ? vd->getInit() : nullptr);
                    } else o += "null";
                    o += "]";
                } else if (c.capturesThis()) {
                    o += "[0,\"this\",1,null]";
                } else o += "[0,\"?\",0,null]";
                ++ii;
            }
            o += "]]";
            PendingLambdas.emplace_back(id, std::make_pair(l, nullptr));
            return;
        }
        if (auto* n = dyn_cast<CXXNewExpr>(e)) {
            headT(o, "new", e);
            o += ",";
            if (n->getConstructExpr()) expr(o, n->getConstructExpr());
            else expr(o, n->getInitializer());
            o += "]";
            return;
        }
        if (auto* n = dyn_cast<CXXDeleteExpr>(e)) {
            head(o, "del", e);
            o += ",";
            expr(o, n->getArgument());
            o += "]";
            return;
        }
        if (auto* il = dyn_cast<InitListExpr>(e)) {
            headT(o, "init", e);
            o += ",";
            exprRange(o, il->inits());
            o += "]";
            return;
        }
        if (auto* sl = dyn_cast<CXXStdInitializerListExpr>(e)) return expr(o, sl->getSubExpr());
        if (auto* as = dyn_cast<ArraySubscriptExpr>(e)) {
            headT(o, "idx", e);
            o += ",";
            expr(o, as->getBase());
            o += ",";
            expr(o, as->getIdx());
            o += "]";
            return;
        }
        if (auto* t = dyn_cast<CXXThrowExpr>(e)) {
            head(o, "throw", e);
            o += ",";
            expr(o, t->getSubExpr());
            o += "]";
            return;
        }
        // value computed at compile time (sizeof, traits, ...)
        if (!e->isValueDependent() && !e->isTypeDependent()) {
            Expr::EvalResult r;
            if ((isa<UnaryExprOrTypeTraitExpr>(e) || isa<TypeTraitExpr>(e)) && e->EvaluateAsInt(r, Ctx)) {
                headT(o, "int", e);
                llvm::SmallString<32> s;
                r.Val.getInt().toString(s, 10);
                o += "," + s.str().str() + "]";
                return;
            }
        }
        // dependent or rare expression: keep its children
        headT(o, "x", e);
        o += ",\"";
        o += e->getStmtClassName();
        o += "\",";
        std::string nm;
        if (auto* ds = dyn_cast<CXXDependentScopeMemberExpr>(e)) nm = ds->getMember().getAsString();
        else if (auto* um = dyn_cast<UnresolvedMemberExpr>(e)) nm = um->getMemberName().getAsString();
        else if (auto* ul = dyn_cast<UnresolvedLookupExpr>(e)) nm = ul->getName().getAsString();
        else if (auto* pe = dyn_cast<PredefinedExpr>(e)) { (void)pe; nm = "predef"; }
        jstr(o, nm);
        o += ",[";
        bool first = true;
        for (auto* c : e->children()) {
            auto* ce = dyn_cast_or_null<Expr>(c);
            if (!ce) continue;
            if (!first) o += ",";
            first = false;
            expr(o, ce);
        }
        o += "]]";
    }

    void varDecl(std::string& o, const VarDecl* v) {
        o += "[" + std::to_string(var(v)) + ",";
        jstr(o, v->getNameAsString());
        o += "," + std::to_string(type(v->getType())) + ",";
        if (v->hasInit()) expr(o, v->getInit()); else o += "null";
        o += v->isStaticLocal() ? ",1," : ",0,";
        o += std::to_string(line(v->getLocation()));
        o += v->isConstexpr() ? ",1]" : ",0]";
    }

    void stmt(std::string& o, const Stmt* s) {
        if (!s) { o += "null"; return; }
        if (auto* e = dyn_cast<Expr>(s)) {
            head(o, "expr", s);
            o += ",";
            expr(o, e);
            o += "]";
            return;
        }
        switch (s->getStmtClass()) {
        case Stmt::CompoundStmtClass: {
            head(o, "{}", s);
            o += ",[";
            bool first = true;
            for (auto* c : cast<CompoundStmt>(s)->body()) {
                if (!first) o += ",";
                first = false;
                stmt(o, c);
            }
            o += "]," + std::to_string(line(s->getEndLoc())) + "]";
            return;
        }
        case Stmt::DeclStmtClass: {
            head(o, "decl", s);
            o += ",[";
            bool first = true;
            for (auto* d : cast<DeclStmt>(s)->decls()) {
                auto* v = dyn_cast<VarDecl>(d);
                if (!v) continue;
                if (!first) o += ",";
                first = false;
                varDecl(o, v);
                if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
                    for (auto* b : dd->bindings()) {
                        o += ",[" + std::to_string(var(b)) + ",";
                        jstr(o, b->getNameAsString());
                        o += "," + std::to_string(type(b->getType())) + ",";
                        if (b->getBinding()) expr(o, b->getBinding()); else o += "null";
                        o += ",0,0,0]";
                    }
                }
            }
            o += "]]";
            return;
        }
        case Stmt::IfStmtClass: {
            auto* i = cast<IfStmt>(s);
            head(o, "if", s);
            o += ",";
            stmt(o, i->getInit());
            o += ",";
            if (auto* cv = i->getConditionVariable()) varDecl(o, cv); else o += "null";
            o += ",";
            expr(o, i->getCond());
            o += ",";
            stmt(o, i->getThen());
            o += ",";
            stmt(o, i->getElse());
            o += "]";
            return;
        }
        case Stmt::ForStmtClass: {
            auto* f = cast<ForStmt>(s);
            head(o, "for", s);
            o += ",";
            stmt(o, f->getInit());
            o += ",";
            expr(o, f->getCond());
            o += ",";
            expr(o, f->getInc());
            o += ",";
            stmt(o, f->getBody());
            o += "]";
            return;
        }
        case Stmt::CXXForRangeStmtClass: {
            auto* f = cast<CXXForRangeStmt>(s);
            head(o, "rfor", s);
            o += ",";
            auto* lv = f->getLoopVariable();
            o += "[" + std::to_string(var(lv)) + ",";
            jstr(o, lv->getNameAsString());
            o += "," + std::to_string(type(lv->getType())) + ",null,0," + std::to_string(line(lv->getLocation())) + ",0],";
            expr(o, f->getRangeInit());
            o += ",";
            stmt(o, f->getBody());
            o += ",[";
            if (auto* dd = dyn_cast<DecompositionDecl>(lv)) {
                bool first = true;
                for (auto* b : dd->bindings()) {
                    if (!first) o += ",";
                    first = false;
                    o += "[" + std::to_string(var(b)) + ",";
                    jstr(o, b->getNameAsString());
                    o += "," + std::to_string(type(b->getType())) + ",null,0,0,0]";
                }
            }
            o += "]]";
            return;
        }
        case Stmt::WhileStmtClass: {
            auto* w = cast<WhileStmt>(s);
            head(o, "while", s);
            o += ",";
            expr(o, w->getCond());
            o += ",";
            stmt(o, w->getBody());
            o += "]";
            return;
        }
        case Stmt::DoStmtClass: {
            auto* w = cast<DoStmt>(s);
            head(o, "do", s);
            o += ",";
            stmt(o, w->getBody());
            o += ",";
            expr(o, w->getCond());
            o += "]";
            return;
        }
        case Stmt::ReturnStmtClass:
            head(o, "ret", s);
            o += ",";
            expr(o, cast<ReturnStmt>(s)->getRetValue());
            o += "]";
            return;
        case Stmt::BreakStmtClass: head(o, "break", s); o += "]"; return;
        case Stmt::ContinueStmtClass: head(o, "cont", s); o += "]"; return;
        case Stmt::NullStmtClass: head(o, "nop", s); o += "]"; return;
        case Stmt::SwitchStmtClass: {
            auto* w = cast<SwitchStmt>(s);
            head(o, "switch", s);
            o += ",";
            expr(o, w->getCond());
            o += ",";
            stmt(o, w->getBody());
            o += "]";
            return;
        }
        case Stmt::CaseStmtClass:
            head(o, "case", s);
            o += ",";
            expr(o, cast<CaseStmt>(s)->getLHS());
            o += ",";
            stmt(o, cast<CaseStmt>(s)->getSubStmt());
            o += "]";
            return;
        case Stmt::DefaultStmtClass:
            head(o, "default", s);
            o += ",";
            stmt(o, cast<DefaultStmt>(s)->getSubStmt());
            o += "]";
            return;
        case Stmt::CXXTryStmtClass: {
            auto* t = cast<CXXTryStmt>(s);
            head(o, "try", s);
            o += ",";
            stmt(o, t->getTryBlock());
            o += ",[";
            for (unsigned i = 0; i < t->getNumHandlers(); ++i) {
                if (i) o += ",";
                auto* h = t->getHandler(i);
                o += "[";
                if (h->getExceptionDecl()) o += std::to_string(type(h->getCaughtType())); else o += "null";
                o += ",";
                stmt(o, h->getHandlerBlock());
                o += "]";
            }
            o += "]]";
            return;
        }
        case Stmt::AttributedStmtClass: return stmt(o, cast<AttributedStmt>(s)->getSubStmt());
        default:
            head(o, "xs", s);
            o += ",\"";
            o += s->getStmtClassName();
            o += "\"]";
        }
    }

    void params(std::string& o, const FunctionDecl* f) {
        o += "[";
        for (unsigned i = 0; i < f->getNumParams(); ++i) {
            if (i) o += ",";
            auto* p = f->getParamDecl(i);
            o += "[" + std::to_string(var(p)) + ",";
            jstr(o, p->getNameAsString());
            o += "," + std::to_string(type(p->getType())) + "]";
        }
        o += "]";
    }

    void emitBody(const std::string& id, const FunctionDecl* f, const std::string& parent, const LambdaExpr* lam) {
        std::string o = "{\"k\":\"fn\",\"id\":";
        jstr(o, id);
        o += ",\"q\":"; jstr(o, lam ? std::string("<lambda>") : qname(f));
        o += ",\"n\":"; jstr(o, lam ? std::string("<lambda>") : f->getNameAsString());
        o += ",\"f\":"; jstr(o, rel(f->getBody()->getBeginLoc()));
        o += ",\"l\":" + std::to_string(line(f->getBeginLoc()));
        o += ",\"el\":" + std::to_string(line(f->getEndLoc()));
        o += ",\"ret\":" + std::to_string(type(f->getReturnType()));
        o += ",\"p\":"; params(o, f);
        if (!parent.empty()) { o += ",\"parent\":"; jstr(o, parent); }
        if (!lam) {
            declRef(f);
            if (auto* m = dyn_cast<CXXMethodDecl>(f)) { o += ",\"cls\":"; jstr(o, qname(m->getParent())); }
            if (f->isTemplateInstantiation()) o += ",\"inst\":1";
            if (f->isDependentContext()) o += ",\"dep\":1";
        } else if (f->isDependentContext()) o += ",\"dep\":1";
        if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
            o += ",\"inits\":[";
            bool first = true;
            for (auto* i : c->inits()) {
                if (!first) o += ",";
                first = false;
                o += "[";
                if (i->isAnyMemberInitializer()) {
                    jstr(o, qname(i->getAnyMember()->getParent()) + "::" + i->getAnyMember()->getNameAsString());
                } else if (i->isBaseInitializer()) {
                    o += "\"base\"";
                } else o += "\"deleg\"";
                o += i->isWritten() ? ",1," : ",0,";
                expr(o, i->getInit());
                o += "]";
            }
            o += "]";
        }
        o += ",\"b\":";
        stmt(o, f->getBody());
        o += "}\n";
        (*Out) << o;
    }

    void emitFunction(const FunctionDecl* f) {
        auto id = usr(f);
        if (f->isMain()) id += "@" + rel(f->getLocation());
        if (!Emitted.insert(id).second) return;
        CurFn = id;
        PendingLambdas.clear();
        emitBody(id, f, "", nullptr);
        flushLambdas(id);
    }

    void flushLambdas(const std::string& parent) {
        std::set<std::string> done;
        while (!PendingLambdas.empty()) {
            auto p = PendingLambdas.back();
            PendingLambdas.pop_back();
            if (!done.insert(p.first).second) continue;
            auto* l = p.second.first;
            const FunctionDecl* body = l->getCallOperator();
            if (auto* ft = body->getDescribedFunctionTemplate()) {
                for (auto* sp : ft->specializations()) {
                    if (sp->hasBody()) { body = sp; break; }
                }
            }
            if (!body->hasBody()) continue;
            emitBody(p.first, body, parent, l);
        }
    }

    void emitGlobal(const VarDecl* v) {
        auto id = usr(v);
        if (!Emitted.insert("gv:" + id + rel(v->getLocation())).second) return;
        CurFn = id;
        PendingLambdas.clear();
        std::string o = "{\"k\":\"gv\",\"id\":";
        jstr(o, id);
        o += ",\"q\":"; jstr(o, qname(v));
        o += ",\"f\":"; jstr(o, rel(v->getLocation()));
        o += ",\"l\":" + std::to_string(line(v->getLocation()));
        o += ",\"ty\":" + std::to_string(type(v->getType()));
        if (v->getType().isConstQualified() || v->isConstexpr()) o += ",\"const\":1";
        o += ",\"init\":";
        if (v->hasInit()) expr(o, v->getInit()); else o += "null";
        o += "}\n";
        (*Out) << o;
        flushLambdas(id);
    }

    void emitRecord(const CXXRecordDecl* r) {
        std::string name = qname(r);
        if (!Emitted.insert("rec:" + name + rel(r->getLocation())).second) return;
        CurFn = "rec:" + name;
        PendingLambdas.clear();
        std::string o = "{\"k\":\"rec\",\"q\":";
        jstr(o, name);
        o += ",\"f\":"; jstr(o, rel(r->getLocation()));
        o += ",\"l\":" + std::to_string(line(r->getLocation()));
        o += ",\"bases\":[";
        bool first = true;
        for (auto& b : r->bases()) {
            if (!first) o += ",";
            first = false;
            auto* bd = b.getType()->getAsCXXRecordDecl();
            jstr(o, bd ? qname(bd) : b.getType().getAsString(PP));
        }
        o += "],\"fields\":[";
        first = true;
        for (auto* f : r->fields()) {
            if (!first) o += ",";
            first = false;
            o += "["; jstr(o, f->getNameAsString());
            o += "," + std::to_string(type(f->getType())) + "," + std::to_string(line(f->getLocation())) + ",";
            if (f->hasInClassInitializer() && f->getInClassInitializer()) expr(o, f->getInClassInitializer()); else o += "null";
            auto t = f->getType().getCanonicalType();
            const char* c = "class";
            if (t->isReferenceType()) c = "ref";
            else if (t->isPointerType()) c = "ptr";
            else if (t->isEnumeralType()) c = "enum";
            else if (t->isArithmeticType()) c = "arith";
            else if (t->isArrayType()) c = "array";
            o += ",\""; o += c; o += "\"]";
        }
        o += "],\"ctors\":[";
        first = true;
        for (auto* c : r->ctors()) {
            if (c->isImplicit() || c->isDeleted()) continue;
            if (!first) o += ",";
            first = false;
            o += "["; jstr(o, usr(c));
            o += c->isDefaulted() ? ",1," : ",0,";
            o += c->isCopyOrMoveConstructor() ? "1]" : "0]";
        }
        o += "],\"methods\":[";
        first = true;
        for (auto* m : r->methods()) {
            if (m->isImplicit() || m->isDeleted()) continue;
            if (!first) o += ",";
            first = false;
            jstr(o, declRef(m));
        }
        o += "]";
        if (r->isAggregate()) o += ",\"agg\":1";
        if (r->isDependentContext()) o += ",\"dep\":1";
        o += "}\n";
        (*Out) << o;
    }

    void emitEnum(const EnumDecl* e) {
        auto name = qname(e);
        if (!Emitted.insert("enum:" + name + rel(e->getLocation())).second) return;
        std::string o = "{\"k\":\"enum\",\"q\":";
        jstr(o, name);
        o += ",\"f\":"; jstr(o, rel(e->getLocation()));
        o += ",\"l\":" + std::to_string(line(e->getLocation()));
        o += ",\"vals\":[";
        bool first = true;
        for (auto* c : e->enumerators()) {
            if (!first) o += ",";
            first = false;
            o += "["; jstr(o, c->getNameAsString());
            llvm::SmallString<32> s;
            c->getInitVal().toString(s, 10);
            o += "," + s.str().str() + "]";
        }
        o += "]}\n";
        (*Out) << o;
    }

    void flushTables() {
        std::string o = "{\"k\":\"types\",\"t\":[";
        for (unsigned i = 0; i < Types.size(); ++i) {
            if (i) o += ",";
            jstr(o, Types[i]);
        }
        o += "]}\n";
        (*Out) << o;
        o = "{\"k\":\"decls\",\"d\":{";
        bool first = true;
        for (auto& d : Decls) {
            if (d.second.empty()) continue;
            if (!first) o += ",";
            first = false;
            jstr(o, d.first);
            o += ":" + d.second;
        }
        o += "}}\n";
        (*Out) << o;
    }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
    explicit Visitor(Emitter& e) : E(e) {}
    Emitter& E;
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }

    bool TraverseDecl(Decl* d) {
        // skip everything that does not come from the root directory
        if (d && !isa<TranslationUnitDecl>(d) && isa<NamespaceDecl>(d) == false) {
            auto l = d->getLocation();
            if (l.isValid() && d->getDeclContext()->isFileContext() && !E.inRoot(l)) return true;
        }
        return RecursiveASTVisitor<Visitor>::TraverseDecl(d);
    }

    bool VisitFunctionDecl(FunctionDecl* f) {
        if (!f->isThisDeclarationADefinition() || !f->hasBody()) return true;
        if (f->isDefaulted() || f->isDeleted()) return true;
        if (!E.inRoot(f->getLocation())) return true;
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            if (m->getParent()->isLambda()) return true;
        }
        if (f->getDescribedFunctionTemplate()) return true; // instantiations are emitted instead
        E.emitFunction(f);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r) {
        if (!r->isThisDeclarationADefinition() || r->isLambda()) return true;
        if (!E.inRoot(r->getLocation())) return true;
        E.emitRecord(r);
        return true;
    }
    bool VisitEnumDecl(EnumDecl* e) {
        if (!e->isThisDeclarationADefinition() || !E.inRoot(e->getLocation())) return true;
        E.emitEnum(e);
        return true;
    }
    bool VisitVarDecl(VarDecl* v) {
        if (v->isLocalVarDecl() || isa<ParmVarDecl>(v) || v->isInitCapture()) return true;
        if (!v->isFileVarDecl() && !v->isStaticDataMember()) return true;
        if (!v->isThisDeclarationADefinition()) return true;
        if (!E.inRoot(v->getLocation())) return true;
        E.emitGlobal(v);
        return true;
    }
};

// Warnings of the compiler's own flow analyses (only the groups enabled on the command line).
struct Diags : DiagnosticConsumer {
    struct D { std::string file; unsigned line; std::string opt, text; };
    std::vector<D> list;
    void HandleDiagnostic(DiagnosticsEngine::Level l, const Diagnostic& info) override {
        DiagnosticConsumer::HandleDiagnostic(l, info);
        llvm::SmallString<200> text;
        info.FormatDiagnostic(text);
        std::string file;
        unsigned line = 0;
        if (info.hasSourceManager() && info.getLocation().isValid()) {
            auto& sm = info.getSourceManager();
            auto loc = sm.getExpansionLoc(info.getLocation());
            file = sm.getFilename(loc).str();
            line = sm.getExpansionLineNumber(loc);
        }
        if (l >= DiagnosticsEngine::Error) {
            std::cerr << file << ":" << line << ": error: " << text.c_str() << "\n";
            return;
        }
        if (l != DiagnosticsEngine::Warning) return;
        list.push_back({file, line, info.getDiags()->getDiagnosticIDs()->getWarningOptionForDiag(info.getID()).str(), text.c_str()});
    }
};
static Diags TheDiags;

class Consumer : public ASTConsumer {
public:
    void HandleTranslationUnit(ASTContext& ctx) override {
        Emitter e(ctx);
        auto& sm = ctx.getSourceManager();
        std::string o = "{\"k\":\"tu\",\"f\":";
        jstr(o, e.rel(sm.getLocForStartOfFile(sm.getMainFileID())));
        o += ",\"err\":";
        o += ctx.getDiagnostics().hasErrorOccurred() ? "1" : "0";
        o += "}\n";
        (*Out) << o;
        for (auto& d : TheDiags.list) {
            if (d.file.compare(0, Root.size(), Root) != 0) continue;
            std::string x = "{\"k\":\"diag\",\"f\":";
            jstr(x, d.file.substr(Root.size()));
            x += ",\"l\":" + std::to_string(d.line) + ",\"o\":";
            jstr(x, d.opt);
            x += ",\"t\":";
            jstr(x, d.text);
            x += "}\n";
            (*Out) << x;
        }
        TheDiags.list.clear();
        Visitor v(e);
        v.TraverseDecl(ctx.getTranslationUnitDecl());
        e.flushTables();
    }
};

class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override {
        return std::make_unique<Consumer>();
    }
};

class Factory : public tooling::FrontendActionFactory {
public:
    std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};

int main(int argc, const char** argv) {
    if (argc < 5) {
        std::cerr << "usage: extract <root> <out> <list> -- flags\n";
        return 2;
    }
    Root = argv[1];
    if (Root.back() != '/') Root += '/';
    std::error_code ec;
    llvm::raw_fd_ostream out(argv[2], ec);
    if (ec) { std::cerr << ec.message() << "\n"; return 2; }
    Out = &out;
    std::vector<std::string> files;
    {
        std::ifstream in(argv[3]);
        std::string l;
        while (std::getline(in, l)) if (!l.empty()) files.push_back(l);
    }
    std::vector<std::string> flags;
    for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, files);
    Factory f;
    tool.setDiagnosticConsumer(&TheDiags);
    int rc = tool.run(&f);
    out.flush();
    if (out.has_error()) return 3;
    return rc;
}
