// AST exporter: prints, for every function the repository defines, the clang AST that the compiler
// itself would generate code from (after overload resolution, implicit conversions, template
// instantiation and default arguments), as one JSON object per line.  It drops: parentheses,
// no-op and materialisation wrappers, attributes, comments and source formatting.
#include "llvm/Support/Path.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;
static std::string Prefix;
struct Exporter
{
    ASTContext &C;
    PrintingPolicy PP;
    std::map<const void *, int> varIds;
    std::set<std::string> doneRec;
    std::vector<const CXXRecordDecl *> recQueue;
    std::vector<std::string> lines;
    explicit Exporter(ASTContext &c) : C(c), PP(c.getPrintingPolicy())
    {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.SuppressScope = false;
        PP.Bool = true;
        PP.AnonymousTagLocations = false;
    }
    std::string qname(const NamedDecl *d)
    {
        std::string s;
        llvm::raw_string_ostream o(s);
        d->printQualifiedName(o, PP);
        o.flush();
        // drop inline namespaces of libstdc++
        for (const char *ns : {"__cxx11::", "_V2::"})
        {
            size_t p;
            while ((p = s.find(ns)) != std::string::npos)
                s.erase(p, strlen(ns));
        }
        return s;
    }
    int vid(const ValueDecl *d)
    {
        auto *k = d->getCanonicalDecl();
        auto it = varIds.find(k);
        if (it != varIds.end())
            return it->second;
        int n = (int)varIds.size() + 1;
        varIds[k] = n;
        return n;
    }
    std::string recKey(const RecordDecl *r) // unique printable name
    {
        std::string s = C.getTypeDeclType(r).getCanonicalType().getAsString(PP);
        size_t p;
        while ((p = s.find("__cxx11::")) != std::string::npos)
            s.erase(p, 9);
        if (!r->getIdentifier())
        {
            auto &sm = C.getSourceManager();
            auto l = sm.getExpansionLoc(r->getLocation());
            s += "@" + llvm::sys::path::filename(sm.getFilename(l)).str() + ":" + std::to_string(sm.getExpansionLineNumber(l)) + ":" +
                 std::to_string(sm.getExpansionColumnNumber(l));
        }
        return s;
    }
    Value type(QualType q)
    {
        q = q.getCanonicalType();
        const Type *t = q.getTypePtr();
        if (auto *r = dyn_cast<ReferenceType>(t))
            return Array{"ref", type(r->getPointeeType()), r->getPointeeType().isConstQualified()};
        if (auto *p = dyn_cast<PointerType>(t))
            return Array{"ptr", type(p->getPointeeType())};
        if (auto *b = dyn_cast<BuiltinType>(t))
        {
            if (b->isVoidType())
                return Array{"void"};
            if (b->getKind() == BuiltinType::Bool)
                return Array{"bool"};
            if (b->isInteger())
                return Array{"int", (int64_t)C.getTypeSize(q), b->isSignedInteger()};
            if (b->isFloatingPoint())
                return Array{"flt", (int64_t)C.getTypeSize(q)};
            if (b->isNullPtrType())
                return Array{"null"};
            return Array{"other", q.getAsString(PP)};
        }
        if (auto *e = dyn_cast<EnumType>(t))
        {
            auto it = e->getDecl()->getIntegerType();
            if (!it.isNull())
                return Array{"int", (int64_t)C.getTypeSize(it), it->isSignedIntegerType()};
            return Array{"int", 32, false};
        }
        if (auto *r = dyn_cast<RecordType>(t))
        {
            auto *d = r->getDecl();
            Array a{"rec", qname(d), recKey(d)};
            Array args;
            if (auto *s = dyn_cast<ClassTemplateSpecializationDecl>(d))
                for (auto &x : s->getTemplateArgs().asArray())
                {
                    if (x.getKind() == TemplateArgument::Type)
                        args.push_back(type(x.getAsType()));
                    else if (x.getKind() == TemplateArgument::Integral)
                        args.push_back(x.getAsIntegral().getExtValue());
                }
            a.push_back(std::move(args));
            if (auto *cx = dyn_cast<CXXRecordDecl>(d))
                need(cx);
            return a;
        }
        if (auto *a = dyn_cast<ConstantArrayType>(t))
            return Array{"arr", type(a->getElementType()), (int64_t)a->getSize().getZExtValue()};
        if (isa<FunctionProtoType>(t))
            return Array{"fn"};
        return Array{"other", q.getAsString(PP)};
    }
    bool inRepo(const Decl *d)
    {
        auto &sm = C.getSourceManager();
        auto l = sm.getExpansionLoc(d->getLocation());
        if (l.isInvalid())
            return false;
        auto f = sm.getFilename(l);
        return f.startswith(Prefix);
    }
    static bool isStd(const std::string &s) { return s.compare(0, 5, "std::") == 0 || s.compare(0, 11, "__gnu_cxx::") == 0; }
    void need(const CXXRecordDecl *d)
    {
        d = d->getDefinition();
        if (!d || isStd(qname(d)))
            return;
        auto k = recKey(d);
        if (!doneRec.insert(k).second)
            return;
        recQueue.push_back(d);
    }
    void flushRecs()
    {
        while (!recQueue.empty())
        {
            auto *d = recQueue.back();
            recQueue.pop_back();
            Object o{{"rec", recKey(d)}, {"q", qname(d)}, {"repo", inRepo(d)}};
            Array b, f, vm;
            for (auto &x : d->bases())
                b.push_back(type(x.getType()));
            for (auto *x : d->fields())
            {
                Object fo{{"n", x->getNameAsString()}, {"t", type(x->getType())}};
                if (x->hasInClassInitializer() && x->getInClassInitializer())
                    fo["init"] = expr(x->getInClassInitializer());
                f.push_back(std::move(fo));
            }
            for (auto *m : d->methods())
                if (m->isVirtual())
                {
                    Array ov;
                    for (auto *x : m->overridden_methods())
                        ov.push_back(fid(x));
                    vm.push_back(Object{{"f", fid(m)}, {"over", std::move(ov)}, {"pure", m->isPureVirtual()}});
                }
            o["bases"] = std::move(b);
            o["fields"] = std::move(f);
            o["virt"] = std::move(vm);
            o["lambda"] = d->isLambda();
            o["aggregate"] = d->isAggregate();
            auto *dd = d->getDestructor();
            o["userdtor"] = dd && dd->isUserProvided();
            if (!d->isDependentType() && !d->isInvalidDecl())
                o["size"] = (int64_t)C.getASTRecordLayout(d).getSize().getQuantity();
            emit(std::move(o));
        }
    }
    void emit(Object o)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        os << Value(std::move(o));
        os.flush();
        lines.push_back(s);
    }
    std::string fid(const FunctionDecl *f)
    {
        f = f->getCanonicalDecl();
        std::string s = qname(f) + "(";
        if (auto *m = dyn_cast<CXXMethodDecl>(f))
            if (m->getParent()->isLambda())
                s = "lambda@" + f->getLocation().printToString(C.getSourceManager()) + "(";
        if (auto *m = dyn_cast<CXXMethodDecl>(f))
            if (isa<ClassTemplateSpecializationDecl>(m->getParent()))
                s = recKey(m->getParent()) + "::" + f->getNameAsString() + "(";
        if (auto *ta = f->getTemplateSpecializationArgs())
        {
            s += "<";
            for (auto &x : ta->asArray())
            {
                std::string t;
                llvm::raw_string_ostream os(t);
                x.print(PP, os, true);
                os.flush();
                s += t + ",";
            }
            s += ">";
        }
        bool first = true;
        for (auto *p : f->parameters())
        {
            if (!first)
                s += ", ";
            first = false;
            std::string t = p->getType().getCanonicalType().getAsString(PP);
            size_t q;
            while ((q = t.find("__cxx11::")) != std::string::npos)
                t.erase(q, 9);
            s += t;
        }
        s += ")";
        if (auto *m = dyn_cast<CXXMethodDecl>(f))
            if (m->isConst())
                s += " const";
        return s;
    }
    Value var(const VarDecl *v)
    {
        Object o{{"id", vid(v)}, {"n", v->getNameAsString()}, {"t", type(v->getType())}};
        if (v->isStaticLocal())
            o["static"] = true;
        if (v->getInit())
            o["init"] = expr(v->getInit());
        if (auto *d = dyn_cast<DecompositionDecl>(v))
        {
            Array b;
            for (auto *x : d->bindings())
                b.push_back(Object{{"id", vid(x)}, {"n", x->getNameAsString()}, {"e", x->getBinding() ? expr(x->getBinding()) : Value(nullptr)}});
            o["bindings"] = std::move(b);
        }
        return o;
    }
    Value unsup(const char *k, const Stmt *s)
    {
        return Object{{"k", "unsupported"}, {"what", std::string(k) + ":" + s->getStmtClassName()}};
    }
    Array args(CallExpr::const_arg_range r)
    {
        Array a;
        for (auto *e : r)
            a.push_back(expr(e));
        return a;
    }
    Object callee(const FunctionDecl *f)
    {
        Object o{{"f", fid(f)}, {"q", qname(f)}, {"ret", type(f->getReturnType())}};
        if (f->isNoReturn())
            o["noreturn"] = true;
        if (auto *m = dyn_cast<CXXMethodDecl>(f))
        {
            o["cls"] = type(C.getTypeDeclType(m->getParent()));
            o["virtual"] = m->isVirtual();
            o["static"] = m->isStatic();
            o["const"] = m->isConst();
            if (m->isDefaulted())
                o["defaulted"] = true;
            if (auto *c = dyn_cast<CXXConstructorDecl>(m))
            {
                if (c->isCopyConstructor())
                    o["copy"] = true;
                if (c->isMoveConstructor())
                    o["move"] = true;
                if (c->isImplicit() || c->isDefaulted())
                    o["implicit"] = true;
            }
            if (m->isCopyAssignmentOperator())
                o["copyassign"] = true;
            if (m->isMoveAssignmentOperator())
                o["moveassign"] = true;
            if (m->isImplicit())
                o["implicit"] = true;
        }
        Array pt;
        for (auto *p : f->parameters())
            pt.push_back(type(p->getType()));
        o["pt"] = std::move(pt);
        if (auto *ta = f->getTemplateSpecializationArgs())
        {
            Array a;
            for (auto &x : ta->asArray())
                if (x.getKind() == TemplateArgument::Type)
                    a.push_back(type(x.getAsType()));
            o["targs"] = std::move(a);
        }
        return o;
    }
    Value expr(const Expr *e)
    {
        Value v = expr0(e);
        if (auto *o = v.getAsObject())
        {
            if (!o->get("t"))
                (*o)["t"] = type(e->getType());
            if (e->isLValue())
                (*o)["lv"] = true;
            else if (e->isXValue())
                (*o)["xv"] = true;
        }
        return v;
    }
    Value expr0(const Expr *e)
    {
        e = e->IgnoreParens();
        // constants
        if (!e->isValueDependent() && !e->isTypeDependent() && !e->isGLValue() && e->getType()->isIntegralOrEnumerationType() && !isa<IntegerLiteral>(e) && !isa<CXXBoolLiteralExpr>(e) && !isa<CharacterLiteral>(e))
        {
            Expr::EvalResult r;
            if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects))
                return Object{{"k", "int"}, {"v", llvm::toString(r.Val.getInt(), 10)}};
        }
        if (!e->isValueDependent() && !e->isTypeDependent() && !e->isGLValue() && e->getType()->isRealFloatingType())
        {
            Expr::EvalResult r;
            if (e->EvaluateAsRValue(r, C) && !r.HasSideEffects && r.Val.isFloat())
            {
                bool lossy;
                llvm::APFloat f = r.Val.getFloat();
                f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &lossy);
                return Object{{"k", "dbl"}, {"v", llvm::toString(f.bitcastToAPInt(), 10, false)}};
            }
        }
        switch (e->getStmtClass())
        {
        case Stmt::IntegerLiteralClass:
            return Object{{"k", "int"}, {"v", llvm::toString(cast<IntegerLiteral>(e)->getValue(), 10, e->getType()->isSignedIntegerType())}};
        case Stmt::CharacterLiteralClass:
            return Object{{"k", "int"}, {"v", std::to_string(cast<CharacterLiteral>(e)->getValue())}};
        case Stmt::CXXBoolLiteralExprClass:
            return Object{{"k", "int"}, {"v", cast<CXXBoolLiteralExpr>(e)->getValue() ? "1" : "0"}};
        case Stmt::StringLiteralClass: {
            std::string hex;
            for (unsigned char c : cast<StringLiteral>(e)->getBytes())
            {
                char b[3];
                snprintf(b, 3, "%02x", c);
                hex += b;
            }
            return Object{{"k", "str"}, {"hex", hex}};
        }
        case Stmt::PredefinedExprClass:
            return Object{{"k", "str"}, {"hex", ""}};
        case Stmt::CXXNullPtrLiteralExprClass:
        case Stmt::GNUNullExprClass:
            return Object{{"k", "null"}};
        case Stmt::CXXThisExprClass:
            return Object{{"k", "this"}};
        case Stmt::DeclRefExprClass: {
            auto *d = cast<DeclRefExpr>(e)->getDecl();
            if (auto *f = dyn_cast<FunctionDecl>(d))
            {
                Object o = callee(f);
                o["k"] = "fnref";
                return o;
            }
            if (auto *v = dyn_cast<VarDecl>(d))
            {
                Object o{{"k", "var"}, {"id", vid(v)}, {"n", v->getNameAsString()}};
                if (v->hasGlobalStorage() && !v->isStaticLocal())
                {
                    o["global"] = qname(v);
                    if (auto *def = v->getAnyInitializer())
                        if (inRepo(v) && !isStd(qname(v)))
                            needGlobal(v);
                }
                return o;
            }
            if (isa<BindingDecl>(d))
                return Object{{"k", "var"}, {"id", vid(cast<BindingDecl>(d))}, {"n", d->getNameAsString()}, {"binding", true}};
            return unsup("declref", e);
        }
        case Stmt::MemberExprClass: {
            auto *m = cast<MemberExpr>(e);
            auto *d = m->getMemberDecl();
            if (auto *v = dyn_cast<VarDecl>(d))
            {
                needGlobal(v);
                return Object{{"k", "var"}, {"id", vid(v)}, {"n", v->getNameAsString()}, {"global", qname(v)}};
            }
            auto *f = dyn_cast<FieldDecl>(d);
            if (!f)
                return unsup("member", e);
            return Object{{"k", "member"}, {"n", f->getNameAsString()}, {"arrow", m->isArrow()}, {"e", expr(m->getBase())}, {"in", recKey(f->getParent())}};
        }
        case Stmt::ArraySubscriptExprClass: {
            auto *a = cast<ArraySubscriptExpr>(e);
            return Object{{"k", "index"}, {"e", expr(a->getBase())}, {"i", expr(a->getIdx())}};
        }
        case Stmt::UnaryOperatorClass: {
            auto *u = cast<UnaryOperator>(e);
            return Object{{"k", "un"}, {"op", UnaryOperator::getOpcodeStr(u->getOpcode()).str() + (u->isPostfix() ? "post" : "")}, {"e", expr(u->getSubExpr())}};
        }
        case Stmt::BinaryOperatorClass: {
            auto *b = cast<BinaryOperator>(e);
            return Object{{"k", "bin"}, {"op", b->getOpcodeStr().str()}, {"a", expr(b->getLHS())}, {"b", expr(b->getRHS())}};
        }
        case Stmt::CompoundAssignOperatorClass: {
            auto *b = cast<CompoundAssignOperator>(e);
            return Object{{"k", "assignop"}, {"op", BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(b->getOpcode())).str()}, {"a", expr(b->getLHS())}, {"b", expr(b->getRHS())}, {"ct", type(b->getComputationResultType())}, {"clt", type(b->getComputationLHSType())}};
        }
        case Stmt::ConditionalOperatorClass: {
            auto *c = cast<ConditionalOperator>(e);
            return Object{{"k", "cond"}, {"c", expr(c->getCond())}, {"a", expr(c->getTrueExpr())}, {"b", expr(c->getFalseExpr())}};
        }
        case Stmt::ImplicitCastExprClass:
        case Stmt::CStyleCastExprClass:
        case Stmt::CXXStaticCastExprClass:
        case Stmt::CXXFunctionalCastExprClass:
        case Stmt::CXXConstCastExprClass:
        case Stmt::CXXReinterpretCastExprClass:
        case Stmt::CXXDynamicCastExprClass: {
            auto *c = cast<CastExpr>(e);
            switch (c->getCastKind())
            {
            case CK_NoOp:
            case CK_ConstructorConversion:
            case CK_UserDefinedConversion:
            case CK_FunctionToPointerDecay:
            case CK_BuiltinFnToFnPtr:
                if (c->getCastKind() == CK_NoOp)
                {
                    Value v = expr(c->getSubExpr());
                    return v;
                }
                return expr(c->getSubExpr());
            default:
                return Object{{"k", "cast"}, {"ck", c->getCastKindName()}, {"e", expr(c->getSubExpr())}, {"t", type(c->getType())}};
            }
        }
        case Stmt::MaterializeTemporaryExprClass:
            return Object{{"k", "temp"}, {"e", expr(cast<MaterializeTemporaryExpr>(e)->getSubExpr())}};
        case Stmt::ExprWithCleanupsClass:
            return expr(cast<ExprWithCleanups>(e)->getSubExpr());
        case Stmt::CXXBindTemporaryExprClass:
            return expr(cast<CXXBindTemporaryExpr>(e)->getSubExpr());
        case Stmt::ConstantExprClass:
            return expr(cast<ConstantExpr>(e)->getSubExpr());
        case Stmt::SubstNonTypeTemplateParmExprClass:
            return expr(cast<SubstNonTypeTemplateParmExpr>(e)->getReplacement());
        case Stmt::CXXDefaultArgExprClass:
            return expr(cast<CXXDefaultArgExpr>(e)->getExpr());
        case Stmt::CXXDefaultInitExprClass:
            return Object{{"k", "definit"}, {"e", expr(cast<CXXDefaultInitExpr>(e)->getExpr())}};
        case Stmt::CXXScalarValueInitExprClass:
        case Stmt::ImplicitValueInitExprClass:
            return Object{{"k", "zero"}};
        case Stmt::InitListExprClass: {
            auto *l = cast<InitListExpr>(e);
            Array a;
            for (auto *x : l->inits())
                a.push_back(expr(x));
            Object o{{"k", "initlist"}, {"a", std::move(a)}};
            if (l->hasArrayFiller())
                o["fill"] = expr(l->getArrayFiller());
            return o;
        }
        case Stmt::CXXStdInitializerListExprClass: {
            auto *s = cast<CXXStdInitializerListExpr>(e)->getSubExpr()->IgnoreImplicit();
            return Object{{"k", "stdinit"}, {"e", expr(s)}};
        }
        case Stmt::CXXConstructExprClass:
        case Stmt::CXXTemporaryObjectExprClass: {
            auto *c = cast<CXXConstructExpr>(e);
            Object o = callee(c->getConstructor());
            o["k"] = "ctor";
            Array a;
            for (auto *x : c->arguments())
                a.push_back(expr(x));
            o["args"] = std::move(a);
            o["zeroinit"] = c->requiresZeroInitialization();
            o["stdinit"] = c->isStdInitListInitialization();
            return o;
        }
        case Stmt::CXXInheritedCtorInitExprClass:
            return unsup("expr", e);
        case Stmt::CXXNewExprClass: {
            auto *n = cast<CXXNewExpr>(e);
            Object o{{"k", "new"}, {"at", type(n->getAllocatedType())}, {"array", n->isArray()}};
            if (n->getInitializer())
                o["init"] = expr(n->getInitializer());
            return o;
        }
        case Stmt::CXXDeleteExprClass:
            return Object{{"k", "delete"}, {"e", expr(cast<CXXDeleteExpr>(e)->getArgument())}};
        case Stmt::CXXThrowExprClass: {
            auto *t = cast<CXXThrowExpr>(e);
            Object o{{"k", "throw"}};
            if (t->getSubExpr())
                o["e"] = expr(t->getSubExpr());
            return o;
        }
        case Stmt::CXXMemberCallExprClass: {
            auto *c = cast<CXXMemberCallExpr>(e);
            auto *m = c->getMethodDecl();
            if (!m)
                return unsup("memcall", e);
            Object o = callee(m);
            o["k"] = "call";
            auto *me = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens());
            o["obj"] = expr(c->getImplicitObjectArgument());
            o["arrow"] = me && me->isArrow();
            o["qualified"] = me && me->hasQualifier();
            o["args"] = args(c->arguments());
            return o;
        }
        case Stmt::CXXOperatorCallExprClass:
        case Stmt::CallExprClass:
        case Stmt::UserDefinedLiteralClass: {
            auto *c = cast<CallExpr>(e);
            auto *f = c->getDirectCallee();
            if (!f)
                return Object{{"k", "icall"}, {"fn", expr(c->getCallee())}, {"args", args(c->arguments())}};
            Object o = callee(f);
            o["k"] = "call";
            Array a;
            auto *m = dyn_cast<CXXMethodDecl>(f);
            bool memop = m && !m->isStatic() && c->getNumArgs() && isa<CXXOperatorCallExpr>(c);
            if (memop)
            {
                o["obj"] = expr(c->getArg(0));
                o["arrow"] = false;
            }
            for (unsigned i = memop ? 1 : 0; i < c->getNumArgs(); i++)
                a.push_back(expr(c->getArg(i)));
            o["args"] = std::move(a);
            return o;
        }
        case Stmt::LambdaExprClass: {
            auto *l = cast<LambdaExpr>(e);
            Array caps;
            auto ci = l->capture_init_begin();
            for (auto &c : l->captures())
            {
                Object o;
                if (c.capturesThis())
                    o["this"] = true;
                else if (c.capturesVariable())
                {
                    o["id"] = vid(cast<ValueDecl>(c.getCapturedVar()));
                    o["byref"] = c.getCaptureKind() == LCK_ByRef;
                    if (*ci)
                        o["init"] = expr(*ci);
                }
                caps.push_back(std::move(o));
                ++ci;
            }
            auto *op = l->getCallOperator();
            Array ps;
            for (auto *p : op->parameters())
                ps.push_back(var(p));
            Object o{{"k", "lambda"}, {"caps", std::move(caps)}, {"f", fid(op)}, {"params", std::move(ps)}, {"ret", type(op->getReturnType())}};
            if (op->isDependentContext() || l->isGenericLambda())
                o["generic"] = true;
            else
                o["body"] = stmt(l->getBody());
            return o;
        }
        case Stmt::UnaryExprOrTypeTraitExprClass:
            return unsup("sizeof", e);
        case Stmt::CXXRewrittenBinaryOperatorClass:
            return expr(cast<CXXRewrittenBinaryOperator>(e)->getSemanticForm());
        case Stmt::ArrayInitLoopExprClass:
            return Object{{"k", "arrcopy"}, {"e", expr(cast<ArrayInitLoopExpr>(e)->getCommonExpr()->getSourceExpr())}};
        case Stmt::OpaqueValueExprClass:
            if (auto *s = cast<OpaqueValueExpr>(e)->getSourceExpr())
                return expr(s);
            return unsup("opaque", e);
        default:
            return unsup("expr", e);
        }
    }
    std::set<std::string> doneGlob;
    void needGlobal(const VarDecl *v)
    {
        auto q = qname(v);
        if (!doneGlob.insert(q).second)
            return;
        const VarDecl *def = nullptr;
        if (auto *i = v->getAnyInitializer(def))
        {
            Object o{{"glob", q}, {"t", type(v->getType())}, {"init", expr(i)}, {"constv", v->getType().isConstQualified()}};
            emit(std::move(o));
        }
    }
    Value stmt(const Stmt *s)
    {
        if (!s)
            return nullptr;
        if (auto *e = dyn_cast<Expr>(s))
            return Object{{"k", "expr"}, {"e", expr(e)}};
        auto line = [&](Object o) -> Value {
            o["l"] = (int64_t)C.getSourceManager().getExpansionLineNumber(s->getBeginLoc());
            return o;
        };
        switch (s->getStmtClass())
        {
        case Stmt::CompoundStmtClass: {
            Array a;
            for (auto *x : cast<CompoundStmt>(s)->body())
                a.push_back(stmt(x));
            return Object{{"k", "block"}, {"s", std::move(a)}};
        }
        case Stmt::DeclStmtClass: {
            Array a;
            for (auto *d : cast<DeclStmt>(s)->decls())
                if (auto *v = dyn_cast<VarDecl>(d))
                    a.push_back(var(v));
            return line(Object{{"k", "decl"}, {"v", std::move(a)}});
        }
        case Stmt::NullStmtClass:
            return Object{{"k", "block"}, {"s", Array{}}};
        case Stmt::IfStmtClass: {
            auto *i = cast<IfStmt>(s);
            Object o{{"k", "if"}};
            if (i->getInit())
                o["init"] = stmt(i->getInit());
            if (i->getConditionVariable())
                o["cv"] = var(i->getConditionVariable());
            o["c"] = expr(i->getCond());
            o["a"] = stmt(i->getThen());
            if (i->getElse())
                o["b"] = stmt(i->getElse());
            return line(std::move(o));
        }
        case Stmt::ForStmtClass: {
            auto *f = cast<ForStmt>(s);
            Object o{{"k", "for"}};
            if (f->getInit())
                o["init"] = stmt(f->getInit());
            if (f->getCond())
                o["c"] = expr(f->getCond());
            if (f->getInc())
                o["inc"] = expr(f->getInc());
            o["body"] = stmt(f->getBody());
            return line(std::move(o));
        }
        case Stmt::WhileStmtClass: {
            auto *w = cast<WhileStmt>(s);
            Object o{{"k", "while"}, {"c", expr(w->getCond())}, {"body", stmt(w->getBody())}};
            if (w->getConditionVariable())
                o["cv"] = var(w->getConditionVariable());
            return line(std::move(o));
        }
        case Stmt::DoStmtClass: {
            auto *w = cast<DoStmt>(s);
            return line(Object{{"k", "do"}, {"c", expr(w->getCond())}, {"body", stmt(w->getBody())}});
        }
        case Stmt::CXXForRangeStmtClass: {
            auto *f = cast<CXXForRangeStmt>(s);
            Object o{{"k", "forrange"}, {"v", var(f->getLoopVariable())}, {"range", expr(f->getRangeInit())}, {"body", stmt(f->getBody())}};
            if (f->getInit())
                o["init"] = stmt(f->getInit());
            return line(std::move(o));
        }
        case Stmt::ReturnStmtClass: {
            Object o{{"k", "return"}};
            if (auto *v = cast<ReturnStmt>(s)->getRetValue())
                o["e"] = expr(v);
            return line(std::move(o));
        }
        case Stmt::BreakStmtClass:
            return Object{{"k", "break"}};
        case Stmt::ContinueStmtClass:
            return Object{{"k", "continue"}};
        case Stmt::SwitchStmtClass: {
            auto *w = cast<SwitchStmt>(s);
            Object o{{"k", "switch"}, {"c", expr(w->getCond())}, {"body", stmt(w->getBody())}};
            return line(std::move(o));
        }
        case Stmt::CaseStmtClass: {
            auto *c = cast<CaseStmt>(s);
            return Object{{"k", "case"}, {"v", expr(c->getLHS())}, {"s", stmt(c->getSubStmt())}};
        }
        case Stmt::DefaultStmtClass:
            return Object{{"k", "default"}, {"s", stmt(cast<DefaultStmt>(s)->getSubStmt())}};
        case Stmt::CXXTryStmtClass: {
            auto *t = cast<CXXTryStmt>(s);
            Array h;
            for (unsigned i = 0; i < t->getNumHandlers(); i++)
            {
                auto *c = t->getHandler(i);
                Object o{{"body", stmt(c->getHandlerBlock())}};
                if (c->getExceptionDecl())
                    o["v"] = var(c->getExceptionDecl());
                h.push_back(std::move(o));
            }
            return line(Object{{"k", "try"}, {"body", stmt(t->getTryBlock())}, {"h", std::move(h)}});
        }
        case Stmt::AttributedStmtClass:
            return stmt(cast<AttributedStmt>(s)->getSubStmt());
        default:
            return unsup("stmt", s);
        }
    }
    void function(const FunctionDecl *f)
    {
        if (f->isDependentContext() || !f->doesThisDeclarationHaveABody() || f->isInvalidDecl())
            return;
        if (auto *m = dyn_cast<CXXMethodDecl>(f))
            if (m->getParent()->isLambda())
                return;
        auto &sm = C.getSourceManager();
        Object o = callee(f);
        o["fun"] = o["f"];
        auto l = sm.getExpansionLoc(f->getLocation());
        o["file"] = sm.getFilename(l).str();
        o["line"] = (int64_t)sm.getExpansionLineNumber(l);
        o["access"] = (int64_t)f->getAccess();
        Array ps;
        for (auto *p : f->parameters())
        {
            Object po{{"id", vid(p)}, {"n", p->getNameAsString()}, {"t", type(p->getType())}};
            auto *q = const_cast<ParmVarDecl *>(p);
            if (q->hasDefaultArg() && !q->hasUnparsedDefaultArg() && !q->hasUninstantiatedDefaultArg())
                po["def"] = expr(q->getDefaultArg());
            ps.push_back(std::move(po));
        }
        o["params"] = std::move(ps);
        if (auto *c = dyn_cast<CXXConstructorDecl>(f))
        {
            Array is;
            for (auto *i : c->inits())
            {
                Object io;
                if (i->isBaseInitializer())
                    io["base"] = type(QualType(i->getBaseClass(), 0));
                else if (i->isDelegatingInitializer())
                    io["deleg"] = true;
                else if (i->isMemberInitializer())
                    io["field"] = i->getMember()->getNameAsString();
                io["written"] = i->isWritten();
                io["e"] = expr(i->getInit());
                is.push_back(std::move(io));
            }
            o["inits"] = std::move(is);
            o["ctorfn"] = true;
        }
        if (isa<CXXDestructorDecl>(f))
            o["dtorfn"] = true;
        o["body"] = stmt(f->getBody());
        emit(std::move(o));
    }
};
class V : public RecursiveASTVisitor<V>
{
  public:
    Exporter &E;
    explicit V(Exporter &e) : E(e) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl *f)
    {
        if (E.inRepo(f))
            E.function(f);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *r)
    {
        if (r->isThisDeclarationADefinition() && !r->isDependentType() && E.inRepo(r) && !r->isLambda())
            E.need(r);
        return true;
    }
};
class Consumer : public ASTConsumer
{
    void HandleTranslationUnit(ASTContext &c) override
    {
        if (c.getDiagnostics().hasErrorOccurred())
            return;
        Exporter e(c);
        V(e).TraverseDecl(c.getTranslationUnitDecl());
        e.flushRecs();
        for (auto &l : e.lines)
            llvm::outs() << l << "\n";
    }
};
class Action : public ASTFrontendAction
{
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};
int main(int argc, char **argv)
{
    // exporter PREFIX SOURCE ARGS...
    if (argc < 3)
        return 2;
    Prefix = argv[1];
    std::string src = argv[2];
    std::vector<std::string> a(argv + 3, argv + argc);
    tooling::FixedCompilationDatabase db(".", a);
    tooling::ClangTool t(db, {src});
    return t.run(tooling::newFrontendActionFactory<Action>().get());
}
