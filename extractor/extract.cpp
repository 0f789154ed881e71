// Dumps the resolved program (typed expression trees, control flow graphs, records, enumerations
// and constant tables) of every function defined under the given source roots as JSON. The rules
// in /verif/engine and /verif/rules work on this dump only; nothing here is specific to a rule.
//
// Usage: extract --root=/repo/fly --root=/verif/stubs -o out.json file.cpp -- <compiler flags>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> g_roots;
static std::string g_out;
static bool g_failed = false;

namespace {

class Dumper
{
public:
    explicit Dumper(ASTContext &ctx) : m_ctx(ctx), m_sm(ctx.getSourceManager()), m_policy(ctx.getLangOpts())
    {
        m_policy.SuppressTagKeyword = true;
        m_policy.FullyQualifiedName = true;
        m_policy.PrintCanonicalTypes = true;
        m_policy.TerseOutput = true;
        m_policy.SuppressInlineNamespace = true;
        m_policy.SuppressUnwrittenScope = false;
        m_policy.MSVCFormatting = false;
        m_policy.Bool = true;
    }

    std::string fileOf(SourceLocation loc)
    {
        if (loc.isInvalid())
            return "";
        loc = m_sm.getExpansionLoc(loc);
        auto f = m_sm.getFilename(loc);
        llvm::SmallString<256> p(f);
        return std::string(p.str());
    }

    bool inRoots(SourceLocation loc)
    {
        std::string f = fileOf(loc);
        for (auto const &r : g_roots)
            if (f.rfind(r, 0) == 0)
                return true;
        return false;
    }

    unsigned lineOf(SourceLocation loc)
    {
        return loc.isInvalid() ? 0 : m_sm.getExpansionLineNumber(loc);
    }

    std::string typeStr(QualType t)
    {
        if (t.isNull())
            return "";
        auto key = t.getAsOpaquePtr();
        auto it = m_types.find(key);
        if (it != m_types.end())
            return it->second;
        std::string s = t.getCanonicalType().getAsString(m_policy);
        m_types[key] = s;
        return s;
    }

    std::string lambdaName(CXXRecordDecl const *rd)
    {
        SourceLocation l = m_sm.getExpansionLoc(rd->getBeginLoc());
        // A lambda written in a macro argument shares its expansion location with others: the
        // lambda's spelling location keeps them apart.
        SourceLocation sp = m_sm.getSpellingLoc(rd->getBeginLoc());
        return "lambda@" + std::to_string(m_sm.getExpansionLineNumber(l)) + ":" +
            std::to_string(m_sm.getSpellingLineNumber(sp)) + ":" +
            std::to_string(m_sm.getSpellingColumnNumber(sp));
    }

    std::string declName(NamedDecl const *d)
    {
        if (auto *fd = dyn_cast<FunctionDecl>(d))
            return funcKey(fd);
        std::string s;
        llvm::raw_string_ostream os(s);
        d->printQualifiedName(os, m_policy);
        return os.str();
    }

    // The enclosing function of a lambda class, or null.
    FunctionDecl const *enclosingFunction(DeclContext const *dc)
    {
        while (dc && !dc->isTranslationUnit())
        {
            if (auto *fd = dyn_cast<FunctionDecl>(dc))
                return fd;
            dc = dc->getParent();
        }
        return nullptr;
    }

    std::string recordName(CXXRecordDecl const *rd)
    {
        if (rd->isLambda())
        {
            auto *parent = enclosingFunction(rd->getDeclContext());
            return (parent ? funcKey(parent) : std::string("<file>")) + "::" + lambdaName(rd);
        }
        return typeStr(m_ctx.getRecordType(rd));
    }

    std::string baseName(FunctionDecl const *fd)
    {
        if (isa<CXXConstructorDecl>(fd))
            return "<ctor>";
        if (isa<CXXDestructorDecl>(fd))
            return "<dtor>";
        if (isa<CXXConversionDecl>(fd))
            return "operator " + typeStr(cast<CXXConversionDecl>(fd)->getConversionType());
        return fd->getNameAsString();
    }

    std::string scopeOf(FunctionDecl const *fd)
    {
        if (auto *md = dyn_cast<CXXMethodDecl>(fd))
            return recordName(md->getParent());
        std::string scope;
        DeclContext const *dc = fd->getDeclContext();
        std::vector<std::string> parts;
        while (dc && !dc->isTranslationUnit())
        {
            if (auto *ns = dyn_cast<NamespaceDecl>(dc))
            {
                if (ns->isAnonymousNamespace())
                    parts.push_back("(anon)");
                else if (!ns->isInline())
                    parts.push_back(ns->getNameAsString());
            }
            else if (auto *f = dyn_cast<FunctionDecl>(dc))
            {
                parts.push_back(funcKey(f));
                break;
            }
            else if (auto *rd = dyn_cast<CXXRecordDecl>(dc))
            {
                parts.push_back(recordName(rd));
                break;
            }
            dc = dc->getParent();
        }
        for (auto it = parts.rbegin(); it != parts.rend(); ++it)
            scope += (scope.empty() ? "" : "::") + *it;
        return scope;
    }

    std::string templateArgs(FunctionDecl const *fd)
    {
        std::string s;
        if (auto *args = fd->getTemplateSpecializationArgs())
        {
            llvm::raw_string_ostream os(s);
            os << "<";
            bool first = true;
            for (auto const &a : args->asArray())
            {
                if (!first)
                    os << ", ";
                first = false;
                if (a.getKind() == TemplateArgument::Pack)
                {
                    bool f2 = true;
                    for (auto const &p : a.pack_elements())
                    {
                        if (!f2)
                            os << ", ";
                        f2 = false;
                        argStr(p, os);
                    }
                }
                else
                    argStr(a, os);
            }
            os << ">";
        }
        return s;
    }

    void argStr(TemplateArgument const &a, llvm::raw_ostream &os)
    {
        if (a.getKind() == TemplateArgument::Type)
        {
            QualType t = a.getAsType();
            if (auto *rd = t->getAsCXXRecordDecl(); rd && rd->isLambda())
                os << recordName(rd);
            else
                os << typeStr(t);
        }
        else
            a.print(m_policy, os, true);
    }

    std::string funcKey(FunctionDecl const *fd)
    {
        fd = fd->getCanonicalDecl();
        auto it = m_keys.find(fd);
        if (it != m_keys.end())
            return it->second;
        m_keys[fd] = "<recursive>";
        std::string scope = scopeOf(fd);
        std::string s = scope.empty() ? "" : scope + "::";
        s += baseName(fd) + templateArgs(fd) + "(";
        bool first = true;
        for (auto *p : fd->parameters())
        {
            if (!first)
                s += ", ";
            first = false;
            QualType t = p->getType().getNonReferenceType();
            if (auto *rd = t->getAsCXXRecordDecl(); rd && rd->isLambda())
                s += recordName(rd) + (p->getType()->isRValueReferenceType() ? " &&" :
                                       p->getType()->isReferenceType() ? " &" : "");
            else
                s += typeStr(p->getType());
        }
        if (fd->isVariadic())
            s += ", ...";
        s += ")";
        if (auto *md = dyn_cast<CXXMethodDecl>(fd))
        {
            if (md->isConst())
                s += " const";
            if (md->getRefQualifier() == RQ_RValue)
                s += " &&";
        }
        m_keys[fd] = s;
        return s;
    }

    // The readable name without template arguments of the function itself nor parameters.
    std::string funcQName(FunctionDecl const *fd)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        PrintingPolicy p(m_ctx.getLangOpts());
        p.SuppressInlineNamespace = true;
        p.SuppressTagKeyword = true;
        if (auto *md = dyn_cast<CXXMethodDecl>(fd))
        {
            auto *rd = md->getParent();
            if (rd->isLambda())
                return recordName(rd) + "::operator()";
            os << plainRecord(rd) << "::" << baseName(fd);
            return os.str();
        }
        fd->printQualifiedName(os, p);
        return os.str();
    }

    std::string plainRecord(CXXRecordDecl const *rd)
    {
        if (rd->isLambda())
            return recordName(rd);
        std::string s;
        llvm::raw_string_ostream os(s);
        PrintingPolicy p(m_ctx.getLangOpts());
        p.SuppressInlineNamespace = true;
        p.SuppressTagKeyword = true;
        std::vector<std::string> parts;
        DeclContext const *dc = rd;
        while (dc && !dc->isTranslationUnit())
        {
            if (auto *r = dyn_cast<CXXRecordDecl>(dc))
                parts.push_back(r->isLambda() ? lambdaName(r) : r->getNameAsString());
            else if (auto *ns = dyn_cast<NamespaceDecl>(dc))
            {
                if (ns->isAnonymousNamespace())
                    parts.push_back("(anon)");
                else if (!ns->isInline())
                    parts.push_back(ns->getNameAsString());
            }
            else if (auto *f = dyn_cast<FunctionDecl>(dc))
                parts.push_back(f->getNameAsString());
            dc = dc->getParent();
        }
        for (auto it = parts.rbegin(); it != parts.rend(); ++it)
            os << (it == parts.rbegin() ? "" : "::") << *it;
        return os.str();
    }

    static bool isNoexcept(FunctionDecl const *fd)
    {
        if (auto *fpt = fd->getType()->getAs<FunctionProtoType>())
        {
            auto est = fpt->getExceptionSpecType();
            if (est == EST_Unevaluated || est == EST_Uninstantiated)
                return isa<CXXDestructorDecl>(fd);
            return fpt->canThrow() == CT_Cannot;
        }
        return false;
    }

    Object calleeInfo(FunctionDecl const *fd)
    {
        Object o;
        std::string key = funcKey(fd);
        o["f"] = key;
        noteDecl(fd, key);
        return o;
    }

    void noteDecl(FunctionDecl const *fd, std::string const &key)
    {
        if (m_decls.count(key))
            return;
        m_decls.insert(key);
        Object o;
        o["q"] = funcQName(fd);
        o["noexcept"] = isNoexcept(fd);
        o["ret"] = typeStr(fd->getReturnType());
        o["file"] = fileOf(fd->getLocation());
        o["line"] = lineOf(fd->getLocation());
        Array ps;
        for (auto *p : fd->parameters())
            ps.push_back(typeStr(p->getType()));
        o["params"] = std::move(ps);
        if (fd->isNoReturn() || fd->hasAttr<NoReturnAttr>())
            o["noreturn"] = true;
        if (fd->isImplicit())
            o["implicit"] = true;
        if (fd->isDefaulted())
            o["defaulted"] = true;
        if (fd->isExternC())
            o["externC"] = true;
        if (auto *md = dyn_cast<CXXMethodDecl>(fd))
        {
            o["record"] = recordName(md->getParent());
            o["plain_record"] = plainRecord(md->getParent());
            if (md->isVirtual())
                o["virtual"] = true;
            if (md->isStatic())
                o["static"] = true;
            if (md->isConst())
                o["const"] = true;
            if (md->isPureVirtual())
                o["pure"] = true;
            Array ov;
            for (auto *m : md->overridden_methods())
            {
                std::string k = funcKey(m);
                ov.push_back(k);
                noteDecl(m, k);
            }
            if (!ov.empty())
                o["overrides"] = std::move(ov);
            if (auto *cd = dyn_cast<CXXConstructorDecl>(fd))
            {
                if (cd->isMoveConstructor())
                    o["movector"] = true;
                if (cd->isCopyConstructor())
                    o["copyctor"] = true;
            }
        }
        m_declOut[key] = Value(std::move(o));
    }

    // ---- per function ----
    struct FnCtx
    {
        Array nodes;
        std::map<Stmt const *, int> ids;
        std::map<ValueDecl const *, std::string> vars;
        std::map<std::string, int> counts;
        Object varInfo;
        FunctionDecl const *fd {nullptr};
        std::vector<int> tryStack;
        std::map<Stmt const *, int> tryOf;
        Array trys;
    };

    std::string varId(FnCtx &f, ValueDecl const *d)
    {
        d = cast<ValueDecl>(d->getCanonicalDecl());
        auto it = f.vars.find(d);
        if (it != f.vars.end())
            return it->second;
        std::string id;
        auto *vd = dyn_cast<VarDecl>(d);
        if (vd && (vd->hasGlobalStorage()))
        {
            std::string q;
            if (vd->isStaticLocal())
            {
                auto *ef = enclosingFunction(vd->getDeclContext());
                q = "static:" + (ef ? funcKey(ef) : std::string()) + "::" + vd->getNameAsString();
            }
            else if (auto *rd = dyn_cast<CXXRecordDecl>(vd->getDeclContext()))
                q = "g:" + recordName(rd) + "::" + vd->getNameAsString();
            else
            {
                llvm::raw_string_ostream os(q);
                os << "g:";
                PrintingPolicy p(m_ctx.getLangOpts());
                p.SuppressInlineNamespace = true;
                vd->printQualifiedName(os, p);
            }
            id = q;
            noteGlobal(vd, id);
        }
        else
        {
            std::string n = d->getNameAsString();
            if (n.empty())
                n = "_";
            int c = f.counts[n]++;
            id = n + "#" + std::to_string(c);
            // A variable of an enclosing function (seen through a lambda capture) keeps the name
            // of the function that owns it.
            auto *ef = enclosingFunction(d->getDeclContext());
            Object o;
            o["t"] = typeStr(d->getType());
            o["n"] = d->getNameAsString();
            o["l"] = lineOf(d->getLocation());
            if (isa<ParmVarDecl>(d))
                o["param"] = true;
            if (ef && f.fd && ef->getCanonicalDecl() != f.fd->getCanonicalDecl())
                o["outer"] = funcKey(ef);
            f.varInfo[id] = Value(std::move(o));
        }
        f.vars[d] = id;
        return id;
    }

    void noteGlobal(VarDecl const *vd, std::string const &id)
    {
        if (m_globals.count(id))
            return;
        m_globals.insert(id);
        Object o;
        o["t"] = typeStr(vd->getType());
        o["const"] = vd->getType().isConstQualified() || vd->isConstexpr();
        o["file"] = fileOf(vd->getLocation());
        o["line"] = lineOf(vd->getLocation());
        if (vd->isStaticLocal())
            o["static_local"] = true;
        if (vd->getTLSKind() != VarDecl::TLS_None)
            o["tls"] = true;
        VarDecl const *def = nullptr;
        Expr const *init = vd->getAnyInitializer(def);
        if (init && !init->isValueDependent() && !init->isTypeDependent() && def)
        {
            APValue const *v = def->evaluateValue();
            if (v)
                o["value"] = apValue(*v, 0);
        }
        m_globalOut[id] = Value(std::move(o));
    }

    Value apValue(APValue const &v, int depth)
    {
        if (depth > 6)
            return nullptr;
        switch (v.getKind())
        {
            case APValue::Int:
            {
                auto const &i = v.getInt();
                if (i.isSigned() ? i.isSignedIntN(64) : i.isIntN(63))
                    return i.getExtValue();
                llvm::SmallString<40> s;
                i.toString(s, 10);
                return std::string(s.str());
            }
            case APValue::Array:
            {
                Array a;
                unsigned n = v.getArrayInitializedElts();
                for (unsigned i = 0; i < v.getArraySize() && i < 4096; ++i)
                    a.push_back(apValue(i < n ? v.getArrayInitializedElt(i) : v.getArrayFiller(), depth + 1));
                return a;
            }
            case APValue::Struct:
            {
                Array a;
                for (unsigned i = 0; i < v.getStructNumBases(); ++i)
                    a.push_back(apValue(v.getStructBase(i), depth + 1));
                for (unsigned i = 0; i < v.getStructNumFields(); ++i)
                    a.push_back(apValue(v.getStructField(i), depth + 1));
                return a;
            }
            case APValue::LValue:
            {
                if (v.isNullPointer())
                    return "null";
                if (auto b = v.getLValueBase())
                    if (auto *e = b.dyn_cast<Expr const *>())
                        if (auto *sl = dyn_cast<StringLiteral>(e))
                        {
                            if (sl->getCharByteWidth() == 1)
                                return Object {{"str", safe(sl->getString().str())}};
                            return Object {{"str", "<wide>"}};
                        }
                return nullptr;
            }
            default:
                return nullptr;
        }
    }

    static std::string safe(std::string s)
    {
        if (!llvm::json::isUTF8(s))
            return llvm::json::fixUTF8(s);
        return s;
    }

    static Stmt const *strip(Stmt const *s)
    {
        while (s)
        {
            if (auto *p = dyn_cast<ParenExpr>(s))
                s = p->getSubExpr();
            else if (auto *e = dyn_cast<FullExpr>(s))
                s = e->getSubExpr();
            else if (auto *m = dyn_cast<MaterializeTemporaryExpr>(s))
                s = m->getSubExpr();
            else if (auto *b = dyn_cast<CXXBindTemporaryExpr>(s))
                s = b->getSubExpr();
            else if (auto *n = dyn_cast<SubstNonTypeTemplateParmExpr>(s))
                s = n->getReplacement();
            else if (auto *d = dyn_cast<CXXDefaultArgExpr>(s))
                s = d->getExpr();
            else if (auto *d = dyn_cast<CXXDefaultInitExpr>(s))
                s = d->getExpr();
            else if (auto *o = dyn_cast<OpaqueValueExpr>(s); o && o->getSourceExpr())
                s = o->getSourceExpr();
            else if (auto *u = dyn_cast<UnaryOperator>(s); u && (u->getOpcode() == UO_Extension))
                s = u->getSubExpr();
            else if (auto *c = dyn_cast<ChooseExpr>(s))
                s = c->getChosenSubExpr();
            else if (auto *g = dyn_cast<GenericSelectionExpr>(s); g && !g->isResultDependent())
                s = g->getResultExpr();
            else
                break;
        }
        return s;
    }

    int node(FnCtx &f, Stmt const *s0)
    {
        Stmt const *s = strip(s0);
        if (!s)
            return -1;
        auto it = f.ids.find(s);
        if (it != f.ids.end())
            return it->second;

        Object o;
        o["k"] = s->getStmtClassName();
        o["l"] = lineOf(s->getBeginLoc());
        Array kids;
        auto kid = [&](Stmt const *c) {
            kids.push_back(c ? node(f, c) : -1);
        };

        if (auto *e = dyn_cast<Expr>(s))
        {
            QualType t = e->getType();
            if (!t.isNull())
            {
                if (auto *rd = t.getNonReferenceType()->getAsCXXRecordDecl(); rd && rd->isLambda())
                    o["t"] = recordName(rd);
                else
                    o["t"] = typeStr(t);
                o["vc"] = e->isLValue() ? "l" : e->isXValue() ? "x" : "p";
                if (t->isIntegralOrEnumerationType() && !t->isDependentType() && !e->isValueDependent())
                {
                    Expr::EvalResult r;
                    if (e->isPRValue() && e->EvaluateAsInt(r, m_ctx, Expr::SE_NoSideEffects) && r.Val.isInt())
                        o["cv"] = apValue(r.Val, 0);
                }
            }
        }

        if (auto *e = dyn_cast<DeclRefExpr>(s))
        {
            if (auto *fd = dyn_cast<FunctionDecl>(e->getDecl()))
            {
                o["f"] = funcKey(fd);
                noteDecl(fd, funcKey(fd));
            }
            else if (auto *ec = dyn_cast<EnumConstantDecl>(e->getDecl()))
            {
                o["enum"] = ec->getNameAsString();
            }
            else if (auto *bd = dyn_cast<BindingDecl>(e->getDecl()))
            {
                o["v"] = varId(f, bd);
                o["binding"] = true;
            }
            else
            {
                o["v"] = varId(f, e->getDecl());
                if (e->refersToEnclosingVariableOrCapture())
                    o["cap"] = true;
            }
        }
        else if (auto *e = dyn_cast<MemberExpr>(s))
        {
            kid(e->getBase());
            if (auto *fld = dyn_cast<FieldDecl>(e->getMemberDecl()))
            {
                o["m"] = fld->getNameAsString();
                o["mr"] = recordName(cast<CXXRecordDecl>(fld->getParent()));
                o["mp"] = plainRecord(cast<CXXRecordDecl>(fld->getParent()));
                if (fld->isMutable())
                    o["mutable"] = true;
            }
            else if (auto *md = dyn_cast<FunctionDecl>(e->getMemberDecl()))
            {
                o["f"] = funcKey(md);
                noteDecl(md, funcKey(md));
            }
            else
            {
                o["v"] = varId(f, e->getMemberDecl());
            }
            if (e->isArrow())
                o["arrow"] = true;
        }
        else if (auto *e = dyn_cast<CallExpr>(s))
        {
            if (auto *fd = e->getDirectCallee())
            {
                o["f"] = funcKey(fd);
                noteDecl(fd, funcKey(fd));
            }
            if (auto *mc = dyn_cast<CXXMemberCallExpr>(e))
            {
                if (auto *obj = mc->getImplicitObjectArgument())
                {
                    o["obj"] = node(f, obj);
                    if (obj->getType()->isPointerType())
                        o["arrow"] = true;
                }
                if (auto *md = mc->getMethodDecl())
                {
                    auto *me = dyn_cast<MemberExpr>(strip(e->getCallee()));
                    if (md->isVirtual() && !(me && me->hasQualifier()))
                        o["virt"] = true;
                }
                else
                    kid(e->getCallee());
            }
            else if (auto *oc = dyn_cast<CXXOperatorCallExpr>(e))
            {
                o["op"] = getOperatorSpelling(oc->getOperator());
            }
            else if (!e->getDirectCallee())
            {
                o["calleeExpr"] = node(f, e->getCallee());
            }
            Array args;
            for (auto *a : e->arguments())
                args.push_back(node(f, a));
            o["args"] = std::move(args);
        }
        else if (auto *e = dyn_cast<CXXConstructExpr>(s))
        {
            o["f"] = funcKey(e->getConstructor());
            noteDecl(e->getConstructor(), funcKey(e->getConstructor()));
            if (e->isElidable())
                o["elidable"] = true;
            Array args;
            for (auto *a : e->arguments())
                args.push_back(node(f, a));
            o["args"] = std::move(args);
        }
        else if (auto *e = dyn_cast<CXXInheritedCtorInitExpr>(s))
        {
            o["f"] = funcKey(e->getConstructor());
            noteDecl(e->getConstructor(), funcKey(e->getConstructor()));
            o["args"] = Array {};
        }
        else if (auto *e = dyn_cast<CXXNewExpr>(s))
        {
            o["nt"] = typeStr(e->getAllocatedType());
            if (e->isArray())
            {
                o["array"] = true;
                if (auto sz = e->getArraySize())
                    o["size"] = node(f, *sz);
            }
            if (auto *init = e->getInitializer())
                kid(init);
            Array pl;
            for (unsigned i = 0; i < e->getNumPlacementArgs(); ++i)
                pl.push_back(node(f, e->getPlacementArg(i)));
            if (!pl.empty())
                o["placement"] = std::move(pl);
        }
        else if (auto *e = dyn_cast<CXXDeleteExpr>(s))
        {
            kid(e->getArgument());
        }
        else if (auto *e = dyn_cast<CastExpr>(s))
        {
            o["ck"] = e->getCastKindName();
            kid(e->getSubExpr());
            if (isa<ExplicitCastExpr>(e))
                o["explicit"] = true;
            if (auto *cf = e->getConversionFunction())
                if (auto *fd = dyn_cast<FunctionDecl>(cf))
                    o["conv"] = funcKey(fd);
        }
        else if (auto *e = dyn_cast<BinaryOperator>(s))
        {
            o["op"] = e->getOpcodeStr().str();
            if (e->isCompoundAssignmentOp())
                o["compound"] = true;
            kid(e->getLHS());
            kid(e->getRHS());
        }
        else if (auto *e = dyn_cast<UnaryOperator>(s))
        {
            o["op"] = UnaryOperator::getOpcodeStr(e->getOpcode()).str();
            if (e->isPostfix())
                o["post"] = true;
            kid(e->getSubExpr());
        }
        else if (auto *e = dyn_cast<IntegerLiteral>(s))
        {
            (void)e;
        }
        else if (auto *e = dyn_cast<StringLiteral>(s))
        {
            o["s"] = e->getCharByteWidth() == 1 ? safe(e->getString().str()) : std::string("<wide>");
            if (e->getCharByteWidth() != 1)
            {
                Array units;
                for (unsigned i = 0; i < e->getLength(); ++i)
                    units.push_back(static_cast<int64_t>(e->getCodeUnit(i)));
                o["ws"] = std::move(units);
            }
        }
        else if (auto *e = dyn_cast<LambdaExpr>(s))
        {
            auto *rd = e->getLambdaClass();
            o["lambda"] = recordName(rd);
            Array caps;
            auto initIt = e->capture_init_begin();
            for (auto const &c : e->captures())
            {
                Object co;
                if (c.capturesThis())
                {
                    co["this"] = true;
                    if (c.getCaptureKind() == LCK_StarThis)
                        co["copy"] = true;
                }
                else if (c.capturesVariable())
                {
                    co["v"] = varId(f, c.getCapturedVar());
                    co["n"] = c.getCapturedVar()->getNameAsString();
                    co["byref"] = c.getCaptureKind() == LCK_ByRef;
                    co["t"] = typeStr(c.getCapturedVar()->getType());
                    if (auto *vd = dyn_cast<VarDecl>(c.getCapturedVar()); vd && vd->isInitCapture())
                        co["init"] = true;
                }
                if (*initIt)
                    co["e"] = node(f, *initIt);
                ++initIt;
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
            visitLambda(e);
        }
        else if (auto *e = dyn_cast<CXXThisExpr>(s))
        {
            (void)e;
        }
        else if (auto *e = dyn_cast<CXXThrowExpr>(s))
        {
            if (e->getSubExpr())
            {
                kid(e->getSubExpr());
                o["tt"] = typeStr(e->getSubExpr()->getType());
            }
            else
                o["rethrow"] = true;
        }
        else if (auto *d = dyn_cast<DeclStmt>(s))
        {
            Array ds;
            for (auto *dd : d->decls())
            {
                if (auto *vd = dyn_cast<VarDecl>(dd))
                {
                    Object vo;
                    vo["v"] = varId(f, vd);
                    vo["t"] = typeStr(vd->getType());
                    if (vd->isStaticLocal())
                        vo["static"] = true;
                    if (vd->hasInit())
                        vo["init"] = node(f, vd->getInit());
                    if (vd->getType()->isReferenceType())
                        vo["ref"] = true;
                    if (auto *dec = dyn_cast<DecompositionDecl>(vd))
                    {
                        Array bs;
                        for (auto *b : dec->bindings())
                        {
                            Object bo;
                            bo["v"] = varId(f, b);
                            bo["t"] = typeStr(b->getType());
                            if (auto *hv = b->getHoldingVar())
                            {
                                bo["hold"] = varId(f, hv);
                                if (hv->hasInit())
                                    bo["holdinit"] = node(f, hv->getInit());
                            }
                            else if (b->getBinding())
                                bo["e"] = node(f, b->getBinding());
                            bs.push_back(std::move(bo));
                        }
                        vo["bindings"] = std::move(bs);
                    }
                    ds.push_back(std::move(vo));
                }
            }
            o["decls"] = std::move(ds);
        }
        else if (auto *r = dyn_cast<ReturnStmt>(s))
        {
            if (r->getRetValue())
                kid(r->getRetValue());
        }
        else if (auto *e = dyn_cast<InitListExpr>(s))
        {
            auto *sem = e->isSemanticForm() ? e : (e->getSemanticForm() ? e->getSemanticForm() : e);
            for (auto *c : sem->inits())
                kid(c);
            if (sem->hasArrayFiller())
                o["filler"] = node(f, sem->getArrayFiller());
        }
        else if (auto *e = dyn_cast<UnaryExprOrTypeTraitExpr>(s))
        {
            (void)e;  // cv holds the value.
        }
        else if (isa<CXXForRangeStmt>(s) || isa<ForStmt>(s) || isa<WhileStmt>(s) || isa<DoStmt>(s) ||
                 isa<IfStmt>(s) || isa<SwitchStmt>(s) || isa<CompoundStmt>(s) || isa<CXXTryStmt>(s))
        {
            // Structured statements are represented by the graph, not here.
        }
        else if (auto *e = dyn_cast<PredefinedExpr>(s))
        {
            (void)e;
        }
        else
        {
            for (auto *c : s->children())
                if (c)
                    kid(c);
        }

        auto tt = f.tryOf.find(s);
        if (tt != f.tryOf.end())
            o["try"] = tt->second;

        if (!kids.empty())
            o["c"] = std::move(kids);
        int id = static_cast<int>(f.nodes.size());
        // Children may have been added while building: the id is the position at insertion.
        f.nodes.push_back(Value(std::move(o)));
        f.ids[s] = id;
        return id;
    }

    // Records for each statement the innermost try whose body contains it.
    void markTry(FnCtx &f, Stmt const *s, int cur)
    {
        if (!s)
            return;
        if (auto *t = dyn_cast<CXXTryStmt>(s))
        {
            Object o;
            o["parent"] = cur;
            o["l"] = lineOf(t->getBeginLoc());
            Array hs;
            for (unsigned i = 0; i < t->getNumHandlers(); ++i)
            {
                auto *h = t->getHandler(i);
                Object ho;
                ho["t"] = h->getExceptionDecl() ? Value(typeStr(h->getCaughtType())) : Value(nullptr);
                if (h->getExceptionDecl())
                    ho["v"] = varId(f, h->getExceptionDecl());
                ho["l"] = lineOf(h->getBeginLoc());
                hs.push_back(std::move(ho));
            }
            o["handlers"] = std::move(hs);
            int id = static_cast<int>(f.trys.size());
            f.trys.push_back(Value(std::move(o)));
            m_tryIds[t] = id;
            markTry(f, t->getTryBlock(), id);
            for (unsigned i = 0; i < t->getNumHandlers(); ++i)
                markTry(f, t->getHandler(i)->getHandlerBlock(), cur);
            return;
        }
        if (cur >= 0)
        {
            f.tryOf[s] = cur;
            f.tryOf[strip(s)] = cur;
        }
        if (isa<LambdaExpr>(s))
        {
            for (auto *c : cast<LambdaExpr>(s)->capture_inits())
                markTry(f, c, cur);
            return;
        }
        for (auto *c : s->children())
            markTry(f, c, cur);
    }

    void visitLambda(LambdaExpr const *e)
    {
        auto *rd = e->getLambdaClass();
        if (e->getCallOperator())
        {
            if (auto *ft = e->getCallOperator()->getDescribedFunctionTemplate())
            {
                for (auto *spec : ft->specializations())
                    dumpFunction(spec);
            }
            else
                dumpFunction(e->getCallOperator());
        }
        dumpRecord(rd);
    }

    void dumpRecord(CXXRecordDecl const *rd)
    {
        if (!rd || !rd->hasDefinition())
            return;
        rd = rd->getDefinition();
        if (rd->isDependentType())
            return;
        std::string n = recordName(rd);
        if (m_records.count(n))
            return;
        m_records.insert(n);
        Object o;
        o["file"] = fileOf(rd->getLocation());
        o["line"] = lineOf(rd->getLocation());
        o["plain"] = plainRecord(rd);
        if (rd->isLambda())
            o["lambda"] = true;
        Array fs;
        for (auto *fl : rd->fields())
        {
            Object fo;
            fo["n"] = fl->getNameAsString();
            QualType t = fl->getType();
            fo["t"] = typeStr(t);
            fo["l"] = lineOf(fl->getLocation());
            fo["access"] = fl->getAccess() == AS_private ? "private" : fl->getAccess() == AS_protected ? "protected" : "public";
            if (fl->isMutable())
                fo["mutable"] = true;
            if (auto *at = m_ctx.getAsConstantArrayType(t))
                fo["size"] = static_cast<int64_t>(at->getSize().getZExtValue());
            if (fl->hasInClassInitializer())
            {
                fo["init"] = true;
                if (auto *ie = fl->getInClassInitializer(); ie && !ie->isValueDependent())
                {
                    Expr::EvalResult r;
                    Expr const *e2 = ie;
                    if (auto *il = dyn_cast<InitListExpr>(strip(e2)); il && il->getNumInits() == 1)
                        e2 = il->getInit(0);
                    if (e2->getType()->isIntegralOrEnumerationType() && e2->EvaluateAsInt(r, m_ctx) && r.Val.isInt())
                        fo["cv"] = apValue(r.Val, 0);
                }
            }
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        if (rd->isLambda())
        {
            Array caps;
            auto fit = rd->field_begin();
            for (auto const &c : rd->captures())
            {
                Object co;
                if (c.capturesThis())
                    co["this"] = true;
                else if (c.capturesVariable())
                {
                    co["n"] = c.getCapturedVar()->getNameAsString();
                    co["byref"] = c.getCaptureKind() == LCK_ByRef;
                }
                if (fit != rd->field_end())
                {
                    co["t"] = typeStr((*fit)->getType());
                    ++fit;
                }
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
        }
        Array bs;
        for (auto const &b : rd->bases())
            if (auto *brd = b.getType()->getAsCXXRecordDecl())
                bs.push_back(recordName(brd));
        o["bases"] = std::move(bs);
        Array ms;
        for (auto *m : rd->methods())
        {
            if (m->isDeleted())
                continue;
            Object mo;
            std::string k = funcKey(m);
            mo["f"] = k;
            mo["access"] = m->getAccess() == AS_private ? "private" : m->getAccess() == AS_protected ? "protected" : "public";
            ms.push_back(std::move(mo));
            noteDecl(m, k);
        }
        o["methods"] = std::move(ms);
        Array fr;
        for (auto *fd : rd->friends())
            if (auto *t = fd->getFriendType())
                fr.push_back(typeStr(t->getType()));
        if (!fr.empty())
            o["friends"] = std::move(fr);
        m_recordOut[n] = Value(std::move(o));
    }

    void dumpEnum(EnumDecl const *ed)
    {
        if (!ed->isCompleteDefinition() || ed->isDependentType())
            return;
        std::string n = typeStr(m_ctx.getEnumType(ed));
        Object o;
        o["file"] = fileOf(ed->getLocation());
        Array cs;
        for (auto *c : ed->enumerators())
            cs.push_back(Array {c->getNameAsString(), c->getInitVal().getExtValue()});
        o["c"] = std::move(cs);
        m_enumOut[n] = Value(std::move(o));
    }

    void dumpFunction(FunctionDecl const *fd0)
    {
        FunctionDecl const *fd = nullptr;
        if (!fd0->hasBody(fd))
            return;
        if (fd->isDependentContext() || fd->isTemplated())
            return;
        if (!inRoots(fd->getLocation()))
            return;
        std::string key = funcKey(fd);
        if (m_done.count(key))
            return;
        m_done.insert(key);

        FnCtx f;
        f.fd = fd;
        Object o;
        noteDecl(fd, key);
        o["q"] = funcQName(fd);
        o["name"] = baseName(fd);
        o["file"] = fileOf(fd->getLocation());
        o["line"] = lineOf(fd->getLocation());
        o["noexcept"] = isNoexcept(fd);
        o["ret"] = typeStr(fd->getReturnType());
        if (fd->isImplicit() || fd->isDefaulted())
            o["defaulted"] = true;
        if (fd->isConstexpr())
            o["constexpr"] = true;
        if (fd->isConsteval())
            o["consteval"] = true;
        if (auto *md = dyn_cast<CXXMethodDecl>(fd))
        {
            o["record"] = recordName(md->getParent());
            o["plain_record"] = plainRecord(md->getParent());
            if (md->isStatic())
                o["static"] = true;
            if (md->isVirtual())
                o["virtual"] = true;
            o["access"] = md->getAccess() == AS_private ? "private" : md->getAccess() == AS_protected ? "protected" : "public";
            if (md->getParent()->isLambda())
            {
                o["is_lambda"] = true;
                auto *ef = enclosingFunction(md->getParent()->getDeclContext());
                if (ef)
                    o["parent"] = funcKey(ef);
            }
            dumpRecord(md->getParent());
        }
        Array ps;
        for (auto *p : fd->parameters())
        {
            Object po;
            po["v"] = varId(f, p);
            QualType pt = p->getType();
            if (auto *prd = pt.getNonReferenceType()->getAsCXXRecordDecl(); prd && prd->isLambda())
                po["t"] = recordName(prd);
            else
                po["t"] = typeStr(pt);
            ps.push_back(std::move(po));
        }
        o["params"] = std::move(ps);

        Stmt *body = fd->getBody();
        markTry(f, body, -1);
        if (auto *cd = dyn_cast<CXXConstructorDecl>(fd))
            for (auto *init : cd->inits())
                if (init->getInit())
                    markTry(f, init->getInit(), -1);

        CFG::BuildOptions bo;
        bo.AddEHEdges = false;
        bo.AddInitializers = true;
        bo.AddImplicitDtors = true;
        bo.AddTemporaryDtors = true;
        bo.AddCXXDefaultInitExprInCtors = true;
        bo.AddCXXNewAllocator = false;
        bo.PruneTriviallyFalseEdges = true;
        bo.setAllAlwaysAdd();
        auto cfg = CFG::buildCFG(fd, body, &m_ctx, bo);
        if (!cfg)
        {
            // Retry without temporaries' destructors: they are the usual reason of a failure.
            bo.AddTemporaryDtors = false;
            cfg = CFG::buildCFG(fd, body, &m_ctx, bo);
            o["no_temp_dtors"] = true;
        }
        if (!cfg)
        {
            llvm::errs() << "extract: no CFG for " << key << "\n";
            g_failed = true;
            return;
        }
        Object co;
        co["entry"] = static_cast<int64_t>(cfg->getEntry().getBlockID());
        co["exit"] = static_cast<int64_t>(cfg->getExit().getBlockID());
        Array blocks;
        for (auto *b : *cfg)
        {
            Object bo2;
            bo2["id"] = static_cast<int64_t>(b->getBlockID());
            Array els;
            for (auto const &el : *b)
            {
                Object eo;
                switch (el.getKind())
                {
                    case CFGElement::Statement:
                    case CFGElement::Constructor:
                    case CFGElement::CXXRecordTypedCall:
                    {
                        auto cs = el.castAs<CFGStmt>();
                        Stmt const *st = cs.getStmt();
                        if (st != strip(st))
                        {
                            // Folded wrapper: make sure its operand is there, but emit nothing.
                            node(f, st);
                            continue;
                        }
                        els.push_back(node(f, st));
                        continue;
                    }
                    case CFGElement::Initializer:
                    {
                        auto *init = el.castAs<CFGInitializer>().getInitializer();
                        eo["k"] = "init";
                        if (init->isAnyMemberInitializer())
                        {
                            eo["m"] = init->getAnyMember()->getNameAsString();
                            eo["mr"] = recordName(cast<CXXRecordDecl>(init->getAnyMember()->getDeclContext()));
                        }
                        else if (init->isBaseInitializer())
                            eo["base"] = typeStr(QualType(init->getBaseClass(), 0));
                        else if (init->isDelegatingInitializer())
                            eo["delegating"] = true;
                        if (init->isWritten())
                            eo["written"] = true;
                        eo["e"] = node(f, init->getInit());
                        break;
                    }
                    case CFGElement::AutomaticObjectDtor:
                    {
                        auto d = el.castAs<CFGAutomaticObjDtor>();
                        eo["k"] = "autodtor";
                        eo["v"] = varId(f, d.getVarDecl());
                        eo["t"] = typeStr(d.getVarDecl()->getType());
                        if (auto *dd = d.getDestructorDecl(m_ctx))
                        {
                            eo["f"] = funcKey(dd);
                            noteDecl(dd, funcKey(dd));
                        }
                        eo["l"] = lineOf(d.getTriggerStmt() ? d.getTriggerStmt()->getEndLoc() : SourceLocation());
                        break;
                    }
                    case CFGElement::TemporaryDtor:
                    {
                        auto d = el.castAs<CFGTemporaryDtor>();
                        eo["k"] = "tempdtor";
                        eo["e"] = node(f, d.getBindTemporaryExpr());
                        if (auto *dd = d.getDestructorDecl(m_ctx))
                        {
                            eo["f"] = funcKey(dd);
                            noteDecl(dd, funcKey(dd));
                        }
                        break;
                    }
                    case CFGElement::MemberDtor:
                    {
                        auto d = el.castAs<CFGMemberDtor>();
                        eo["k"] = "memberdtor";
                        eo["m"] = d.getFieldDecl()->getNameAsString();
                        eo["t"] = typeStr(d.getFieldDecl()->getType());
                        if (auto *dd = d.getDestructorDecl(m_ctx))
                        {
                            eo["f"] = funcKey(dd);
                            noteDecl(dd, funcKey(dd));
                        }
                        break;
                    }
                    case CFGElement::BaseDtor:
                    {
                        auto d = el.castAs<CFGBaseDtor>();
                        eo["k"] = "basedtor";
                        eo["t"] = typeStr(d.getBaseSpecifier()->getType());
                        if (auto *dd = d.getDestructorDecl(m_ctx))
                        {
                            eo["f"] = funcKey(dd);
                            noteDecl(dd, funcKey(dd));
                        }
                        break;
                    }
                    case CFGElement::DeleteDtor:
                    {
                        auto d = el.castAs<CFGDeleteDtor>();
                        eo["k"] = "deletedtor";
                        if (auto *dd = d.getDestructorDecl(m_ctx))
                        {
                            eo["f"] = funcKey(dd);
                            noteDecl(dd, funcKey(dd));
                        }
                        break;
                    }
                    default:
                        continue;
                }
                els.push_back(std::move(eo));
            }
            bo2["e"] = std::move(els);
            if (auto *t = b->getTerminatorStmt())
            {
                Object to;
                to["k"] = t->getStmtClassName();
                to["l"] = lineOf(t->getBeginLoc());
                if (b->getTerminator().isTemporaryDtorsBranch())
                    to["tempdtor"] = true;
                else if (auto *c = b->getTerminatorCondition())
                    to["cond"] = node(f, c);
                if (auto *bin = dyn_cast<BinaryOperator>(t))
                    to["op"] = bin->getOpcodeStr().str();
                if (auto *tr = dyn_cast<CXXTryStmt>(t))
                {
                    auto it2 = m_tryIds.find(tr);
                    to["tryid"] = it2 == m_tryIds.end() ? -1 : it2->second;
                }
                bo2["t"] = std::move(to);
            }
            if (auto *l = b->getLabel())
            {
                Object lo;
                lo["k"] = l->getStmtClassName();
                if (auto *cs = dyn_cast<CaseStmt>(l))
                {
                    Expr::EvalResult r;
                    if (cs->getLHS()->EvaluateAsInt(r, m_ctx) && r.Val.isInt())
                        lo["v"] = apValue(r.Val, 0);
                    if (cs->getRHS() && cs->getRHS()->EvaluateAsInt(r, m_ctx) && r.Val.isInt())
                        lo["v2"] = apValue(r.Val, 0);
                }
                else if (auto *c = dyn_cast<CXXCatchStmt>(l))
                {
                    lo["t"] = c->getExceptionDecl() ? Value(typeStr(c->getCaughtType())) : Value(nullptr);
                    if (c->getExceptionDecl())
                        lo["v"] = varId(f, c->getExceptionDecl());
                    lo["l"] = lineOf(c->getBeginLoc());
                }
                bo2["label"] = std::move(lo);
            }
            Array succ;
            for (auto const &sc : b->succs())
            {
                if (auto *r = sc.getReachableBlock())
                    succ.push_back(static_cast<int64_t>(r->getBlockID()));
                else
                    succ.push_back(-1);
            }
            bo2["s"] = std::move(succ);
            if (b->hasNoReturnElement())
                bo2["noret"] = true;
            if (auto *lt = b->getLoopTarget())
                bo2["loopback"] = lineOf(lt->getBeginLoc());
            blocks.push_back(std::move(bo2));
        }
        co["blocks"] = std::move(blocks);
        // Lambdas not reached through the graph (unevaluated) are ignored.
        o["cfg"] = std::move(co);
        o["nodes"] = std::move(f.nodes);
        o["vars"] = std::move(f.varInfo);
        o["trys"] = std::move(f.trys);
        m_funcOut[key] = Value(std::move(o));
    }

    Object finish()
    {
        Object o;
        o["functions"] = std::move(m_funcOut);
        o["decls"] = std::move(m_declOut);
        o["records"] = std::move(m_recordOut);
        o["enums"] = std::move(m_enumOut);
        o["globals"] = std::move(m_globalOut);
        return o;
    }

    FnCtx m_scratch;
    void noteFileGlobal(VarDecl const *vd)
    {
        if (vd->getType()->isDependentType() || vd->isTemplated())
            return;
        varId(m_scratch, vd);
    }

private:
    ASTContext &m_ctx;
    SourceManager &m_sm;
    PrintingPolicy m_policy;
    std::map<void *, std::string> m_types;
    std::map<FunctionDecl const *, std::string> m_keys;
    std::set<std::string> m_decls, m_done, m_records, m_globals;
    std::map<CXXTryStmt const *, int> m_tryIds;
    Object m_funcOut, m_declOut, m_recordOut, m_enumOut, m_globalOut;
};

class Visitor : public RecursiveASTVisitor<Visitor>
{
public:
    Visitor(ASTContext &ctx, Dumper &d) : m_ctx(ctx), m_d(d)
    {
    }

    bool shouldVisitTemplateInstantiations() const
    {
        return true;
    }
    bool shouldVisitImplicitCode() const
    {
        return true;
    }

    bool TraverseDecl(Decl *d)
    {
        // Do not descend into system headers' top-level declarations.
        if (d && !isa<TranslationUnitDecl>(d) && !isa<NamespaceDecl>(d) && !isa<LinkageSpecDecl>(d) &&
            !m_d.inRoots(d->getLocation()))
            return true;
        return RecursiveASTVisitor<Visitor>::TraverseDecl(d);
    }

    bool VisitFunctionDecl(FunctionDecl *fd)
    {
        if (fd->doesThisDeclarationHaveABody())
            m_d.dumpFunction(fd);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *rd)
    {
        if (rd->isThisDeclarationADefinition() && !rd->isDependentType())
            m_d.dumpRecord(rd);
        return true;
    }
    bool VisitEnumDecl(EnumDecl *ed)
    {
        m_d.dumpEnum(ed);
        return true;
    }
    bool VisitVarDecl(VarDecl *vd)
    {
        if (vd->hasGlobalStorage() && !vd->isStaticLocal())
            m_d.noteFileGlobal(vd);
        return true;
    }

private:
    ASTContext &m_ctx;
    Dumper &m_d;
};

class Consumer : public ASTConsumer
{
public:
    explicit Consumer(CompilerInstance &ci) : m_ci(ci)
    {
    }
    void HandleTranslationUnit(ASTContext &ctx) override
    {
        if (m_ci.getDiagnostics().hasErrorOccurred())
        {
            g_failed = true;
            return;
        }
        Dumper d(ctx);
        Visitor v(ctx, d);
        v.TraverseDecl(ctx.getTranslationUnitDecl());
        Object o = d.finish();
        Array deps;
        auto &sm = ctx.getSourceManager();
        for (auto it = sm.fileinfo_begin(); it != sm.fileinfo_end(); ++it)
            deps.push_back(it->first.getName().str());
        o["files"] = std::move(deps);
        std::error_code ec;
        llvm::raw_fd_ostream os(g_out, ec);
        if (ec)
        {
            llvm::errs() << "extract: cannot write " << g_out << "\n";
            g_failed = true;
            return;
        }
        os << Value(std::move(o));
    }

private:
    CompilerInstance &m_ci;
};

class Action : public ASTFrontendAction
{
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &ci, StringRef) override
    {
        return std::make_unique<Consumer>(ci);
    }
};

}  // namespace

int main(int argc, char **argv)
{
    std::vector<std::string> flags;
    std::string file;
    int i = 1;
    for (; i < argc; ++i)
    {
        std::string a = argv[i];
        if (a == "--")
        {
            ++i;
            break;
        }
        if (a.rfind("--root=", 0) == 0)
            g_roots.push_back(a.substr(7));
        else if (a == "-o")
            g_out = argv[++i];
        else
            file = a;
    }
    for (; i < argc; ++i)
        flags.push_back(argv[i]);
    clang::tooling::FixedCompilationDatabase db(".", flags);
    clang::tooling::ClangTool tool(db, {file});
    int rc = tool.run(clang::tooling::newFrontendActionFactory<Action>().get());
    if (rc != 0 || g_failed)
    {
        llvm::errs() << "extract: failed on " << file << "\n";
        return 2;
    }
    return 0;
}
