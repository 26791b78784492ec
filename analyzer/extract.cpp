// dots-extract: parses translation units with clang and writes the resolved program
// (every function with a body that is defined under one of the given roots) as JSON.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> g_roots;
static std::string g_out;

namespace {

struct Extractor : RecursiveASTVisitor<Extractor>
{
    ASTContext& ctx;
    SourceManager& sm;
    PrintingPolicy pp;
    json::OStream& J;
    std::map<const Decl*, int> declIds;
    std::map<std::string, int> typeIds;
    std::vector<std::string> types;
    std::set<const FunctionDecl*> done;
    std::set<const CXXRecordDecl*> records;
    std::set<const EnumDecl*> enums;
    int ntype = 0;

    Extractor(ASTContext& c, json::OStream& j) : ctx(c), sm(c.getSourceManager()), pp(c.getLangOpts()), J(j)
    {
        pp.SuppressTagKeyword = true;
        pp.Bool = true;
        pp.TerseOutput = true;
        pp.SuppressUnwrittenScope = true;
        pp.SuppressInlineNamespace = true;
        pp.FullyQualifiedName = true;
    }

    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }

    int id(const Decl* d)
    {
        d = d->getCanonicalDecl();
        auto it = declIds.emplace(d, (int)declIds.size() + 1);
        return it.first->second;
    }

    int type(QualType t)
    {
        std::string s = t.isNull() ? std::string("?") : t.getAsString(pp);
        auto [it, ins] = typeIds.emplace(s, (int)types.size());
        if (ins) types.push_back(s);
        return it->second;
    }
    int ctype(QualType t)
    {
        if (t.isNull()) return type(t);
        return type(t.getCanonicalType());
    }

    std::string file(SourceLocation l)
    {
        l = sm.getExpansionLoc(l);
        StringRef f = sm.getFilename(l);
        return f.str();
    }
    unsigned line(SourceLocation l) { return sm.getExpansionLineNumber(l); }

    bool inRoots(SourceLocation l)
    {
        if (l.isInvalid()) return false;
        std::string f = file(l);
        for (auto& r : g_roots) if (f.compare(0, r.size(), r) == 0) return true;
        return false;
    }

    std::string qname(const NamedDecl* d)
    {
        // qualified name without template arguments; lambdas, anonymous namespaces as "<...>"
        std::string r;
        if (auto* m = dyn_cast<CXXMethodDecl>(d))
        {
            if (m->getParent()->isLambda()) return "<lambda>::" + m->getNameAsString();
        }
        const DeclContext* dc = d->getDeclContext();
        std::vector<std::string> parts;
        if (isa<CXXConstructorDecl>(d)) parts.push_back("<ctor>");
        else if (isa<CXXDestructorDecl>(d)) parts.push_back("<dtor>");
        else if (auto* cv = dyn_cast<CXXConversionDecl>(d)) parts.push_back("operator()cv");
        else parts.push_back(d->getNameAsString());
        while (dc && !dc->isTranslationUnit())
        {
            if (auto* ns = dyn_cast<NamespaceDecl>(dc))
            {
                if (ns->isAnonymousNamespace()) { }
                else if (!ns->isInline()) parts.push_back(ns->getNameAsString());
            }
            else if (auto* r = dyn_cast<CXXRecordDecl>(dc))
            {
                parts.push_back(r->isLambda() ? "<lambda>" : r->getNameAsString());
            }
            else if (auto* f = dyn_cast<FunctionDecl>(dc))
            {
                parts.push_back(f->getNameAsString());
            }
            else if (auto* e = dyn_cast<EnumDecl>(dc))
            {
                parts.push_back(e->getNameAsString());
            }
            dc = dc->getParent();
        }
        for (size_t i = parts.size(); i-- > 0;) { r += parts[i]; if (i) r += "::"; }
        return r;
    }

    // ------------------------------------------------------------ expressions
    static const Expr* strip(const Expr* e)
    {
        while (e)
        {
            if (auto* p = dyn_cast<ParenExpr>(e)) e = p->getSubExpr();
            else if (auto* p = dyn_cast<ExprWithCleanups>(e)) e = p->getSubExpr();
            else if (auto* p = dyn_cast<MaterializeTemporaryExpr>(e)) e = p->getSubExpr();
            else if (auto* p = dyn_cast<CXXBindTemporaryExpr>(e)) e = p->getSubExpr();
            else if (auto* p = dyn_cast<ConstantExpr>(e)) e = p->getSubExpr();
            else if (auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = p->getReplacement();
            else if (auto* p = dyn_cast<CXXDefaultArgExpr>(e)) e = p->getExpr();
            else if (auto* p = dyn_cast<CXXDefaultInitExpr>(e)) e = p->getExpr();
            else if (auto* p = dyn_cast<CXXRewrittenBinaryOperator>(e)) e = p->getSemanticForm();
            else if (auto* p = dyn_cast<CXXStdInitializerListExpr>(e)) e = p->getSubExpr();
            else if (auto* p = dyn_cast<OpaqueValueExpr>(e)) { if (!p->getSourceExpr()) return e; e = p->getSourceExpr(); }
            else if (auto* c = dyn_cast<ImplicitCastExpr>(e))
            {
                switch (c->getCastKind())
                {
                    case CK_IntegralCast:
                    case CK_FloatingToIntegral:
                    case CK_IntegralToFloating:
                    case CK_FloatingCast:
                        if (e->getType().getCanonicalType() == c->getSubExpr()->getType().getCanonicalType()) { e = c->getSubExpr(); break; }
                        return e;
                    default: e = c->getSubExpr();
                }
            }
            else return e;
        }
        return e;
    }

    void kv(const char* k, StringRef v) { J.attribute(k, json::Value(json::fixUTF8(v))); }

    void exprs(const char* key, ArrayRef<const Expr*> es)
    {
        J.attributeArray(key, [&] { for (auto* e : es) expr(e); });
    }
    template <typename R> void exprRange(const char* key, R&& es)
    {
        J.attributeArray(key, [&] { for (const Expr* e : es) expr(e); });
    }
    void attrExpr(const char* key, const Expr* e)
    {
        J.attributeBegin(key); expr(e); J.attributeEnd();
    }
    void attrStmt(const char* key, const Stmt* s)
    {
        J.attributeBegin(key); stmt(s); J.attributeEnd();
    }

    void fnAttrs(const FunctionDecl* f)
    {
        kv("q", qname(f));
        J.attribute("f", id(f->getDefinition() ? f->getDefinition() : f));
        note(f);
        if (auto* m = dyn_cast<CXXMethodDecl>(f))
        {
            if (m->isStatic()) J.attribute("st", 1);
            else if (m->isConst()) J.attribute("cm", 1);
            if (m->isVirtual()) J.attribute("virt", 1);
        }
        if (auto* fpt = f->getType()->getAs<FunctionProtoType>())
            if (fpt->isNothrow()) J.attribute("ne", 1);
        if (f->isNoReturn()) J.attribute("nr", 1);
        if (auto* cm = dyn_cast<CXXMethodDecl>(f); cm != nullptr && cm->isConst())
            for (auto* p : f->parameters())
                if (auto* r = p->getType()->getAs<LValueReferenceType>(); r != nullptr && !r->getPointeeType().isConstQualified()) { J.attribute("mr", 1); break; }
        if (auto* ta = f->getTemplateSpecializationArgs())
            J.attributeArray("ta", [&] {
                for (auto& a : ta->asArray())
                {
                    if (a.getKind() == TemplateArgument::Pack) { for (auto& b : a.pack_elements()) targ(b); }
                    else targ(a);
                }
            });
        if (auto* m = dyn_cast<CXXMethodDecl>(f))
            if (isa<ClassTemplateSpecializationDecl>(m->getParent())) J.attribute("ct", ctype(ctx.getRecordType(m->getParent())));
    }
    void targ(const TemplateArgument& a)
    {
        if (a.getKind() == TemplateArgument::Type) { J.value(json::fixUTF8(a.getAsType().getCanonicalType().getAsString(pp))); return; }
        std::string s; llvm::raw_string_ostream os(s); a.print(pp, os, true); J.value(json::fixUTF8(os.str()));
    }

    std::map<int, std::string> usrs;
    void note(const FunctionDecl* f)
    {
        const FunctionDecl* d = f->getDefinition() ? f->getDefinition() : f;
        int i = id(d);
        if (usrs.count(i)) return;
        usrs[i] = usr(d);
    }
    std::string usr(const Decl* d)
    {
        SmallString<128> buf;
        if (index::generateUSRForDecl(d, buf)) return "";
        return buf.str().str();
    }

    void expr(const Expr* e0)
    {
        const Expr* e = strip(e0);
        if (!e) { J.value(nullptr); return; }
        J.object([&] { exprBody(e); });
    }

    void pos(SourceLocation l) { J.attribute("l", (int64_t)line(l)); }

    void exprBody(const Expr* e)
    {
        if (auto* x = dyn_cast<IntegerLiteral>(e)) { kv("k", "int"); llvm::SmallString<32> s; x->getValue().toStringUnsigned(s); kv("v", s); return; }
        if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) { kv("k", "bool"); J.attribute("v", x->getValue()); return; }
        if (auto* x = dyn_cast<CharacterLiteral>(e)) { kv("k", "chr"); J.attribute("v", (int64_t)x->getValue()); return; }
        if (auto* x = dyn_cast<FloatingLiteral>(e)) { kv("k", "flt"); SmallString<32> s; x->getValue().toString(s); kv("v", s); return; }
        if (auto* x = dyn_cast<StringLiteral>(e)) { kv("k", "str"); kv("v", x->isOrdinary() || x->isUTF8() ? x->getString() : StringRef("?")); return; }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { kv("k", "null"); return; }
        if (isa<CXXThisExpr>(e)) { kv("k", "this"); J.attribute("t", ctype(e->getType())); return; }
        if (auto* x = dyn_cast<DeclRefExpr>(e)) { declRef(x->getDecl(), x); return; }
        if (auto* x = dyn_cast<MemberExpr>(e))
        {
            if (auto* fd = dyn_cast<FieldDecl>(x->getMemberDecl()))
            {
                kv("k", "mem"); kv("n", fd->getNameAsString()); kv("q", qname(fd)); J.attribute("t", ctype(x->getType()));
                if (x->isArrow()) J.attribute("ar", 1);
                pos(x->getMemberLoc());
                attrExpr("b", x->getBase());
                return;
            }
            if (auto* vd = dyn_cast<VarDecl>(x->getMemberDecl())) { declRef(vd, x); return; }
            if (auto* md = dyn_cast<CXXMethodDecl>(x->getMemberDecl()))
            {
                kv("k", "bound"); fnAttrs(md); attrExpr("b", x->getBase()); return;
            }
            if (auto* ed = dyn_cast<EnumConstantDecl>(x->getMemberDecl())) { declRef(ed, x); return; }
        }
        if (auto* x = dyn_cast<CallExpr>(e)) { call(x); return; }
        if (auto* x = dyn_cast<CXXConstructExpr>(e))
        {
            kv("k", "ctor");
            auto* c = x->getConstructor();
            kv("q", qname(c->getParent()));
            J.attribute("f", id(c->getDefinition() ? c->getDefinition() : c)); note(c);
            J.attribute("t", ctype(x->getType()));
            if (c->isCopyConstructor()) kv("cp", "copy");
            else if (c->isMoveConstructor()) kv("cp", "move");
            if (c->isDefaultConstructor()) J.attribute("dflt", 1);
            if (x->isListInitialization()) J.attribute("list", 1);
            if (auto* fpt = c->getType()->getAs<FunctionProtoType>())
                if (fpt->getExceptionSpecType() != EST_Unevaluated && fpt->getExceptionSpecType() != EST_Uninstantiated && fpt->isNothrow()) J.attribute("ne", 1);
            pos(x->getBeginLoc());
            exprs("a", ArrayRef<const Expr*>(x->getArgs(), x->getNumArgs()));
            return;
        }
        if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) { kv("k", "ctor"); kv("q", qname(x->getConstructor()->getParent())); J.attribute("f", id(x->getConstructor())); J.attribute("t", ctype(x->getType())); J.attributeArray("a", []{}); pos(x->getBeginLoc()); return; }
        if (auto* x = dyn_cast<BinaryOperator>(e))
        {
            if (x->isAssignmentOp())
            {
                kv("k", "asg"); kv("op", BinaryOperator::getOpcodeStr(x->getOpcode())); J.attribute("t", ctype(x->getType()));
            }
            else { kv("k", "bin"); kv("op", BinaryOperator::getOpcodeStr(x->getOpcode())); J.attribute("t", ctype(x->getType())); }
            pos(x->getOperatorLoc());
            attrExpr("l1", x->getLHS()); attrExpr("r", x->getRHS());
            return;
        }
        if (auto* x = dyn_cast<UnaryOperator>(e))
        {
            kv("k", "un");
            std::string op = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            if (x->isPostfix()) op = "p" + op;
            kv("op", op); J.attribute("t", ctype(x->getType())); pos(x->getOperatorLoc());
            attrExpr("e", x->getSubExpr());
            return;
        }
        if (auto* x = dyn_cast<ConditionalOperator>(e)) { kv("k", "cond"); attrExpr("c", x->getCond()); attrExpr("a1", x->getTrueExpr()); attrExpr("a2", x->getFalseExpr()); return; }
        if (auto* x = dyn_cast<ImplicitCastExpr>(e)) { kv("k", "icast"); kv("ck", x->getCastKindName()); J.attribute("from", ctype(x->getSubExpr()->getType())); J.attribute("t", ctype(x->getType())); pos(x->getBeginLoc()); attrExpr("e", x->getSubExpr()); return; }
        if (auto* x = dyn_cast<ExplicitCastExpr>(e))
        {
            kv("k", "cast");
            const char* w = isa<CXXStaticCastExpr>(x) ? "static" : isa<CXXDynamicCastExpr>(x) ? "dynamic" : isa<CXXReinterpretCastExpr>(x) ? "reinterpret" : isa<CXXConstCastExpr>(x) ? "const" : isa<CXXFunctionalCastExpr>(x) ? "functional" : "c";
            kv("w", w); kv("ck", x->getCastKindName()); J.attribute("from", ctype(strip(x->getSubExpr()) ? strip(x->getSubExpr())->getType() : x->getSubExpr()->getType())); J.attribute("t", ctype(x->getType())); pos(x->getBeginLoc());
            attrExpr("e", x->getSubExpr());
            return;
        }
        if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) { kv("k", "idx"); J.attribute("t", ctype(x->getType())); pos(x->getExprLoc()); attrExpr("b", x->getBase()); attrExpr("i", x->getIdx()); return; }
        if (auto* x = dyn_cast<LambdaExpr>(e)) { lambda(x); return; }
        if (auto* x = dyn_cast<InitListExpr>(e))
        {
            if (x->isSemanticForm() == false && x->getSemanticForm()) x = x->getSemanticForm();
            kv("k", "init"); J.attribute("t", ctype(x->getType())); pos(x->getBeginLoc());
            if (auto* rd = x->getType()->getAsCXXRecordDecl())
                J.attributeArray("fn", [&] {
                    for (auto& b : rd->bases()) { (void)b; J.value("<base>"); }
                    for (auto* f : rd->fields()) J.value(f->getNameAsString());
                });
            exprRange("a", x->inits()); return;
        }
        if (auto* x = dyn_cast<CXXParenListInitExpr>(e)) { kv("k", "init"); J.attribute("t", ctype(x->getType())); pos(x->getBeginLoc()); exprRange("a", x->getInitExprs()); return; }
        if (auto* x = dyn_cast<CXXNewExpr>(e))
        {
            kv("k", "new"); J.attribute("t", ctype(x->getAllocatedType())); pos(x->getBeginLoc());
            J.attributeArray("pl", [&] { for (unsigned i = 0; i < x->getNumPlacementArgs(); ++i) expr(x->getPlacementArg(i)); });
            if (x->getInitializer()) attrExpr("init", x->getInitializer());
            if (x->isArray() && x->getArraySize()) attrExpr("n", *x->getArraySize());
            return;
        }
        if (auto* x = dyn_cast<CXXDeleteExpr>(e)) { kv("k", "delete"); pos(x->getBeginLoc()); attrExpr("e", x->getArgument()); return; }
        if (auto* x = dyn_cast<CXXThrowExpr>(e)) { kv("k", "throw"); pos(x->getThrowLoc()); if (x->getSubExpr()) { J.attribute("t", ctype(x->getSubExpr()->getType())); attrExpr("e", x->getSubExpr()); } return; }
        if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e))
        {
            Expr::EvalResult r;
            if (!x->isValueDependent() && x->EvaluateAsInt(r, ctx)) { kv("k", "int"); SmallString<32> s; r.Val.getInt().toStringUnsigned(s); kv("v", s); kv("sz", x->isArgumentType() ? x->getArgumentType().getCanonicalType().getAsString(pp) : std::string("expr")); }
            else kv("k", "sizeof");
            return;
        }
        if (auto* x = dyn_cast<CXXTypeidExpr>(e)) { kv("k", "typeid"); if (x->isTypeOperand()) J.attribute("t", ctype(x->getTypeOperand(ctx))); else attrExpr("e", x->getExprOperand()); return; }
        if (auto* x = dyn_cast<CXXScalarValueInitExpr>(e)) { kv("k", "zero"); J.attribute("t", ctype(x->getType())); return; }
        if (auto* x = dyn_cast<ImplicitValueInitExpr>(e)) { kv("k", "zero"); J.attribute("t", ctype(x->getType())); return; }
        if (auto* x = dyn_cast<CXXFoldExpr>(e)) { kv("k", "unk"); kv("c", "fold"); return; }
        // generic constant
        Expr::EvalResult r;
        if (!e->isValueDependent() && !e->isTypeDependent() && e->getType()->isIntegralOrEnumerationType() && e->isPRValue() && e->EvaluateAsInt(r, ctx))
        {
            SmallString<32> s; r.Val.getInt().toString(s); kv("k", "int"); kv("v", s); return;
        }
        kv("k", "unk"); kv("c", e->getStmtClassName()); pos(e->getBeginLoc());
        J.attributeArray("ch", [&] { for (auto* c : e->children()) if (auto* ce = dyn_cast_or_null<Expr>(c)) expr(ce); });
    }

    void declRef(const ValueDecl* d, const Expr* x)
    {
        if (auto* ec = dyn_cast<EnumConstantDecl>(d))
        {
            kv("k", "enum"); kv("q", qname(ec)); SmallString<32> s; ec->getInitVal().toString(s); kv("v", s);
            if (auto* ed = dyn_cast<EnumDecl>(ec->getDeclContext())) enums.insert(ed->getCanonicalDecl());
            return;
        }
        if (auto* f = dyn_cast<FunctionDecl>(d)) { kv("k", "fn"); fnAttrs(f); return; }
        if (auto* b = dyn_cast<BindingDecl>(d))
        {
            kv("k", "ref"); kv("dk", "bind"); kv("n", b->getNameAsString()); J.attribute("d", id(b)); J.attribute("t", ctype(x->getType())); return;
        }
        if (auto* fd = dyn_cast<FieldDecl>(d)) { kv("k", "fieldref"); kv("q", qname(fd)); kv("n", fd->getNameAsString()); return; }
        kv("k", "ref"); kv("n", d->getNameAsString()); J.attribute("d", id(d)); J.attribute("t", ctype(x->getType()));
        pos(x->getBeginLoc());
        if (isa<ParmVarDecl>(d)) kv("dk", "parm");
        else if (auto* v = dyn_cast<VarDecl>(d))
        {
            if (v->isLocalVarDecl()) { kv("dk", "var"); if (v->isStaticLocal()) J.attribute("stl", 1); }
            else if (v->isInitCapture()) kv("dk", "var");
            else
            {
                kv("dk", "glob"); kv("q", qname(v));
                // constexpr integral constants fold
                if (v->isConstexpr() || (v->getType().isConstQualified() && v->getType()->isIntegralOrEnumerationType()))
                {
                    Expr::EvalResult r;
                    if (!x->isValueDependent() && x->getType()->isIntegralOrEnumerationType() && x->EvaluateAsInt(r, ctx)) { SmallString<32> s; r.Val.getInt().toString(s); kv("cv", s); }
                    else { constText(v); constRows(v); }
                }
            }
        }
        else { kv("dk", "other"); }
    }

    // the text of a constant string_view that is initialized by one literal
    void constText(const VarDecl* v)
    {
        const VarDecl* def = nullptr;
        const Expr* i = v->getAnyInitializer(def);
        if (!i || v->getType()->isDependentType() || v->getType().getAsString().find("string_view") == std::string::npos && v->getType().getCanonicalType().getAsString().find("string_view") == std::string::npos) return;
        if (v->isConstexpr() && !i->isValueDependent())
        {
            // characters and length as the compiler evaluates them
            if (const APValue* val = v->evaluateValue(); val && val->isStruct())
            {
                const StringLiteral* l = nullptr; int64_t len = -1, off = 0;
                for (unsigned k = 0; k < val->getStructNumFields(); ++k)
                {
                    const APValue& x = val->getStructField(k);
                    if (x.isInt()) len = x.getInt().getExtValue();
                    else if (x.isLValue() && x.getLValueBase() && x.getLValueBase().is<const Expr*>())
                    {
                        l = dyn_cast_or_null<StringLiteral>(x.getLValueBase().dyn_cast<const Expr*>());
                        off = x.getLValueOffset().getQuantity();
                    }
                }
                if (l && l->isOrdinary() && len >= 0 && off >= 0 && off + len <= (int64_t)l->getLength()) { kv("str", l->getString().substr(off, len)); return; }
            }
        }
        std::vector<const Stmt*> todo{i};
        const StringLiteral* lit = nullptr;
        while (!todo.empty())
        {
            const Stmt* s = todo.back(); todo.pop_back();
            if (!s) continue;
            if (auto* l = dyn_cast<StringLiteral>(s)) { if (lit) return; lit = l; continue; }
            if (isa<CallExpr>(s) || isa<DeclRefExpr>(s)) return;
            if (isa<IntegerLiteral>(s)) return;
            for (const Stmt* c : s->children()) todo.push_back(c);
        }
        if (lit && lit->isOrdinary()) kv("str", lit->getString());
    }

    // the elements of a constant table, if they are records whose fields are initialized by one literal each
    void constRows(const VarDecl* v)
    {
        const VarDecl* def = nullptr;
        const Expr* i = v->getAnyInitializer(def);
        if (!i || v->getType()->isDependentType() || !v->getType()->isRecordType() && !v->getType()->isArrayType()) return;
        std::vector<const Stmt*> todo{i};
        std::vector<std::vector<std::pair<std::string, std::string>>> rows;
        while (!todo.empty())
        {
            const Stmt* s = todo.back(); todo.pop_back();
            if (!s) continue;
            if (auto* l = dyn_cast<InitListExpr>(s))
            {
                if (auto* sem = l->getSemanticForm()) l = sem;
                const RecordDecl* r = l->getType()->getAsRecordDecl();
                if (r)
                {
                    std::vector<std::pair<std::string, std::string>> row; bool ok = true; unsigned k = 0;
                    for (const FieldDecl* f : r->fields())
                    {
                        if (k >= l->getNumInits()) { ok = false; break; }
                        const StringLiteral* lit = nullptr; std::vector<const Stmt*> sub{l->getInit(k++)};
                        while (!sub.empty())
                        {
                            const Stmt* c = sub.back(); sub.pop_back();
                            if (!c) continue;
                            if (auto* x = dyn_cast<StringLiteral>(c)) { if (lit) { ok = false; break; } lit = x; continue; }
                            if (isa<InitListExpr>(c) || isa<CallExpr>(c) || isa<DeclRefExpr>(c) || isa<IntegerLiteral>(c)) { ok = false; break; }
                            for (const Stmt* y : c->children()) sub.push_back(y);
                        }
                        if (!ok || !lit || !lit->isOrdinary()) { ok = false; break; }
                        row.push_back({f->getNameAsString(), lit->getString().str()});
                    }
                    if (ok && !row.empty()) { rows.push_back(row); continue; }
                }
                for (unsigned k = l->getNumInits(); k-- > 0;) todo.push_back(l->getInit(k));
                continue;
            }
            if (isa<CallExpr>(s) || isa<DeclRefExpr>(s)) return;
            std::vector<const Stmt*> ch(s->children().begin(), s->children().end());
            for (auto it = ch.rbegin(); it != ch.rend(); ++it) todo.push_back(*it);
        }
        if (rows.empty() || rows.size() > 64) return;
        J.attributeArray("rows", [&] { for (auto& r : rows) J.object([&] { for (auto& [n, t] : r) kv(n.c_str(), t); }); });
    }

    void call(const CallExpr* x)
    {
        pos(x->getExprLoc());
        J.attribute("t", ctype(x->getType()));
        const FunctionDecl* f = x->getDirectCallee();
        if (auto* o = dyn_cast<CXXOperatorCallExpr>(x))
        {
            kv("k", "call");
            kv("op", getOperatorSpelling(o->getOperator()));
            if (f)
            {
                fnAttrs(f);
                bool mem = isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic();
                if (mem)
                {
                    attrExpr("o", o->getArg(0));
                    J.attributeArray("a", [&] { for (unsigned i = 1; i < o->getNumArgs(); ++i) expr(o->getArg(i)); });
                    return;
                }
            }
            J.attributeArray("a", [&] { for (unsigned i = 0; i < o->getNumArgs(); ++i) expr(o->getArg(i)); });
            return;
        }
        if (auto* m = dyn_cast<CXXMemberCallExpr>(x))
        {
            if (f)
            {
                kv("k", "call"); fnAttrs(f);
                auto* me = dyn_cast<MemberExpr>(m->getCallee()->IgnoreParenImpCasts());
                if (me && me->hasQualifier()) J.attribute("qual", 1);
                if (me && me->isArrow()) J.attribute("ar", 1);
                attrExpr("o", m->getImplicitObjectArgument());
            }
            else { kv("k", "icall"); attrExpr("c", x->getCallee()); }
            exprs("a", ArrayRef<const Expr*>(x->getArgs(), x->getNumArgs()));
            return;
        }
        if (f) { kv("k", "call"); fnAttrs(f); }
        else { kv("k", "icall"); attrExpr("c", x->getCallee()); }
        exprs("a", ArrayRef<const Expr*>(x->getArgs(), x->getNumArgs()));
    }

    void params(const FunctionDecl* f)
    {
        J.attributeArray("ps", [&] {
            for (auto* p : f->parameters())
                J.object([&] { kv("n", p->getNameAsString()); J.attribute("d", id(p)); J.attribute("t", ctype(p->getType())); });
        });
    }

    void lambda(const LambdaExpr* x)
    {
        kv("k", "lambda"); pos(x->getBeginLoc());
        auto* op = x->getCallOperator();
        J.attribute("f", id(op));
        J.attribute("caps_default", (int)x->getCaptureDefault());
        J.attributeArray("caps", [&] {
            auto ii = x->capture_init_begin();
            for (auto& c : x->captures())
            {
                J.object([&] {
                    if (c.capturesThis()) { kv("n", c.getCaptureKind() == LCK_StarThis ? "*this" : "this"); }
                    else if (c.capturesVariable())
                    {
                        auto* v = c.getCapturedVar();
                        kv("n", v->getNameAsString()); J.attribute("d", id(v)); J.attribute("ref", c.getCaptureKind() == LCK_ByRef ? 1 : 0);
                        J.attribute("t", ctype(v->getType()));
                        if (auto* vd = dyn_cast<VarDecl>(v)) if (vd->isInitCapture()) { J.attribute("ic", 1); if (vd->getInit()) attrExpr("init", vd->getInit()); }
                        if (isa<BindingDecl>(v)) J.attribute("bind", 1);
                    }
                    if (c.isImplicit()) J.attribute("impl", 1);
                });
                ++ii;
            }
        });
        if (auto* ft = op->getDescribedFunctionTemplate())
        {
            J.attributeArray("specs", [&] {
                for (auto* s : ft->specializations())
                {
                    if (!s->getBody()) continue;
                    done.insert(s);
                    J.object([&] { J.attribute("f", id(s)); params(s); attrStmt("b", s->getBody()); });
                }
            });
            return;
        }
        done.insert(op);
        if (op->isDependentContext()) return;
        params(op);
        J.attribute("mut", op->isConst() ? 0 : 1);
        attrStmt("b", x->getBody());
    }

    // ------------------------------------------------------------ statements
    void varDecl(const VarDecl* v)
    {
        J.object([&] {
            kv("n", v->getNameAsString()); J.attribute("d", id(v)); J.attribute("t", ctype(v->getType())); pos(v->getLocation());
            if (v->getType()->isReferenceType()) J.attribute("ref", 1);
            if (v->isStaticLocal()) J.attribute("st", 1);
            if (v->getInit()) attrExpr("init", v->getInit());
            if (auto* dd = dyn_cast<DecompositionDecl>(v))
                J.attributeArray("binds", [&] {
                    for (auto* b : dd->bindings())
                        J.object([&] {
                            kv("n", b->getNameAsString()); J.attribute("d", id(b)); J.attribute("t", ctype(b->getType()));
                            if (auto* hv = b->getHoldingVar()) { if (hv->getInit()) attrExpr("init", hv->getInit()); }
                            else if (b->getBinding()) attrExpr("init", b->getBinding());
                        });
                });
        });
    }

    void stmt(const Stmt* s)
    {
        if (!s) { J.value(nullptr); return; }
        if (auto* e = dyn_cast<Expr>(s)) { expr(e); return; }
        J.object([&] { stmtBody(s); });
    }

    void flattenCase(const Stmt* s, std::vector<std::pair<std::vector<const SwitchCase*>, std::vector<const Stmt*>>>& out)
    {
        std::vector<const SwitchCase*> labels;
        const Stmt* cur = s;
        while (auto* sc = dyn_cast<SwitchCase>(cur)) { labels.push_back(sc); cur = sc->getSubStmt(); if (!cur) break; }
        out.push_back({labels, {}});
        if (cur) out.back().second.push_back(cur);
    }

    void stmtBody(const Stmt* s)
    {
        if (auto* x = dyn_cast<CompoundStmt>(s)) { kv("k", "blk"); J.attributeArray("s", [&] { for (auto* c : x->body()) stmt(c); }); J.attribute("el", (int64_t)line(x->getRBracLoc())); return; }
        pos(s->getBeginLoc());
        if (auto* x = dyn_cast<DeclStmt>(s))
        {
            kv("k", "decl");
            J.attributeArray("v", [&] { for (auto* d : x->decls()) if (auto* v = dyn_cast<VarDecl>(d)) varDecl(v); });
            return;
        }
        if (auto* x = dyn_cast<IfStmt>(s))
        {
            kv("k", "if");
            if (x->isConstexpr())
            {
                J.attribute("cx", 1);
                Expr::EvalResult r;
                const Expr* c = x->getCond();
                if (!c->isValueDependent() && c->EvaluateAsInt(r, ctx))
                {
                    bool v = r.Val.getInt().getBoolValue();
                    J.attribute("cv", v ? 1 : 0);
                }
            }
            if (x->getInit()) attrStmt("init", x->getInit());
            if (auto* v = x->getConditionVariable()) { J.attributeBegin("var"); varDecl(v); J.attributeEnd(); }
            attrExpr("c", x->getCond());
            attrStmt("th", x->getThen());
            if (x->getElse()) attrStmt("el", x->getElse());
            return;
        }
        if (auto* x = dyn_cast<WhileStmt>(s))
        {
            kv("k", "while");
            if (auto* v = x->getConditionVariable()) { J.attributeBegin("var"); varDecl(v); J.attributeEnd(); }
            attrExpr("c", x->getCond()); attrStmt("b", x->getBody()); return;
        }
        if (auto* x = dyn_cast<DoStmt>(s)) { kv("k", "do"); attrExpr("c", x->getCond()); attrStmt("b", x->getBody()); return; }
        if (auto* x = dyn_cast<ForStmt>(s))
        {
            kv("k", "for");
            if (x->getInit()) attrStmt("init", x->getInit());
            if (x->getCond()) attrExpr("c", x->getCond());
            if (x->getInc()) attrExpr("inc", x->getInc());
            attrStmt("b", x->getBody()); return;
        }
        if (auto* x = dyn_cast<CXXForRangeStmt>(s))
        {
            kv("k", "rfor");
            if (x->getInit()) attrStmt("init", x->getInit());
            attrExpr("r", x->getRangeInit());
            J.attributeBegin("v"); varDecl(x->getLoopVariable()); J.attributeEnd();
            attrStmt("b", x->getBody()); return;
        }
        if (auto* x = dyn_cast<SwitchStmt>(s))
        {
            kv("k", "switch");
            if (x->getInit()) attrStmt("init", x->getInit());
            if (auto* v = x->getConditionVariable()) { J.attributeBegin("var"); varDecl(v); J.attributeEnd(); }
            attrExpr("c", x->getCond());
            std::vector<std::pair<std::vector<const SwitchCase*>, std::vector<const Stmt*>>> cases;
            if (auto* b = dyn_cast_or_null<CompoundStmt>(x->getBody()))
                for (auto* c : b->body())
                {
                    if (isa<SwitchCase>(c)) flattenCase(c, cases);
                    else if (!cases.empty()) cases.back().second.push_back(c);
                }
            else if (x->getBody() && isa<SwitchCase>(x->getBody())) flattenCase(x->getBody(), cases);
            J.attributeArray("cs", [&] {
                for (auto& [labels, body] : cases)
                    J.object([&, &labels = labels, &body = body] {
                        J.attributeArray("lb", [&] { for (auto* l : labels) { if (auto* cs = dyn_cast<CaseStmt>(l)) expr(cs->getLHS()); else { J.object([&] { kv("k", "default"); }); } } });
                        J.attributeArray("s", [&] { for (auto* b : body) stmt(b); });
                    });
            });
            return;
        }
        if (auto* x = dyn_cast<ReturnStmt>(s)) { kv("k", "ret"); if (x->getRetValue()) attrExpr("e", x->getRetValue()); return; }
        if (isa<BreakStmt>(s)) { kv("k", "brk"); return; }
        if (isa<ContinueStmt>(s)) { kv("k", "cont"); return; }
        if (isa<NullStmt>(s)) { kv("k", "nop"); return; }
        if (auto* x = dyn_cast<CXXTryStmt>(s))
        {
            kv("k", "try"); attrStmt("b", x->getTryBlock());
            J.attributeArray("h", [&] {
                for (unsigned i = 0; i < x->getNumHandlers(); ++i)
                {
                    auto* h = x->getHandler(i);
                    J.object([&] {
                        pos(h->getBeginLoc());
                        if (h->getExceptionDecl()) { J.attribute("t", ctype(h->getCaughtType())); J.attributeBegin("v"); varDecl(h->getExceptionDecl()); J.attributeEnd(); }
                        attrStmt("b", h->getHandlerBlock());
                    });
                }
            });
            return;
        }
        if (auto* x = dyn_cast<LabelStmt>(s)) { kv("k", "blk"); J.attributeArray("s", [&] { stmt(x->getSubStmt()); }); return; }
        if (auto* x = dyn_cast<AttributedStmt>(s)) { kv("k", "blk"); J.attributeArray("s", [&] { stmt(x->getSubStmt()); }); return; }
        kv("k", "unkstmt"); kv("c", s->getStmtClassName());
    }

    // ------------------------------------------------------------ functions
    bool VisitFunctionDecl(FunctionDecl* f)
    {
        if (!f->isThisDeclarationADefinition() || !f->getBody()) return true;
        if (f->isDependentContext()) return true;
        if (!inRoots(f->getLocation())) return true;
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return true;
        if (!done.insert(f).second) return true;
        fns.push_back(f);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r)
    {
        if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda()) return true;
        if (!inRoots(r->getLocation())) return true;
        recs.push_back(r);
        return true;
    }
    bool VisitEnumDecl(EnumDecl* e)
    {
        if (!e->isThisDeclarationADefinition() || e->isDependentContext()) return true;
        if (inRoots(e->getLocation())) ens.push_back(e);
        return true;
    }
    std::vector<FunctionDecl*> fns;
    std::vector<CXXRecordDecl*> recs;
    std::vector<EnumDecl*> ens;

    void writeFn(const FunctionDecl* f)
    {
        J.object([&] {
            kv("q", qname(f)); J.attribute("f", id(f)); note(f);
            kv("file", file(f->getLocation())); pos(f->getLocation());
            J.attribute("endl", (int64_t)line(f->getEndLoc()));
            J.attribute("rt", ctype(f->getReturnType()));
            params(f);
            if (f->isImplicit()) J.attribute("imp", 1);
            if (f->isDefaulted()) J.attribute("def", 1);
            if (auto* fpt = f->getType()->getAs<FunctionProtoType>())
                if (fpt->getExceptionSpecType() != EST_Unevaluated && fpt->getExceptionSpecType() != EST_Uninstantiated && fpt->isNothrow()) J.attribute("ne", 1);
            if (f->getTemplateSpecializationArgs())
            {
                std::string s; llvm::raw_string_ostream os(s);
                for (auto& a : f->getTemplateSpecializationArgs()->asArray()) { a.print(pp, os, true); os << ","; }
                kv("ta", os.str());
            }
            if (auto* m = dyn_cast<CXXMethodDecl>(f))
            {
                J.attribute("cls", ctype(ctx.getRecordType(m->getParent())));
                kv("clsq", qname(m->getParent()));
                if (m->isStatic()) J.attribute("st", 1);
                if (m->isConst()) J.attribute("cm", 1);
                if (m->isVirtual()) J.attribute("virt", 1);
                J.attribute("acc", (int)m->getAccess());
                J.attributeArray("ov", [&] { for (auto* o : m->overridden_methods()) { const FunctionDecl* d = o->getDefinition() ? o->getDefinition() : o; note(d); J.value(id(d)); } });
                if (auto* c = dyn_cast<CXXConstructorDecl>(m))
                {
                    kv("kind", "ctor");
                    J.attributeArray("inits", [&] {
                        for (auto* i : c->inits())
                            J.object([&] {
                                if (i->isAnyMemberInitializer()) { kv("n", i->getAnyMember()->getNameAsString()); kv("q", qname(i->getAnyMember())); }
                                else if (i->isBaseInitializer()) { J.attribute("base", ctype(QualType(i->getBaseClass(), 0))); }
                                else kv("n", "<delegating>");
                                if (i->isWritten()) J.attribute("w", 1);
                                attrExpr("e", i->getInit());
                            });
                    });
                }
                else if (isa<CXXDestructorDecl>(m)) kv("kind", "dtor");
                else kv("kind", "method");
            }
            else kv("kind", "fn");
            attrStmt("b", f->getBody());
        });
    }

    void finish()
    {
        J.object([&] {
            J.attributeArray("fns", [&] { for (size_t i = 0; i < fns.size(); ++i) writeFn(fns[i]); });
            J.attributeArray("recs", [&] {
                for (auto* r : recs)
                    J.object([&] {
                        kv("q", qname(r)); J.attribute("t", ctype(ctx.getRecordType(r))); kv("file", file(r->getLocation())); pos(r->getLocation());
                        J.attributeArray("bases", [&] { for (auto& b : r->bases()) J.value(ctype(b.getType())); });
                        J.attributeArray("basesq", [&] { for (auto& b : r->bases()) if (auto* br = b.getType()->getAsCXXRecordDecl()) J.value(qname(br)); });
                        J.attributeArray("fields", [&] { for (auto* f : r->fields()) J.object([&] { kv("n", f->getNameAsString()); J.attribute("t", ctype(f->getType())); if (f->hasInClassInitializer()) { J.attribute("ini", 1); } }); });
                        J.attributeArray("methods", [&] { for (auto* m : r->methods()) { J.object([&] { kv("n", m->getNameAsString()); J.attribute("f", id(m->getDefinition() ? m->getDefinition() : m)); note(m); if (m->isDefaulted()) J.attribute("def", 1); if (m->isDeleted()) J.attribute("del", 1); if (m->isVirtual()) J.attribute("virt", 1); J.attribute("acc", (int)m->getAccess()); }); } });
                    });
            });
            J.attributeArray("enums", [&] {
                for (auto* e : ens)
                    J.object([&] { kv("q", qname(e)); J.attributeArray("vals", [&] { for (auto* c : e->enumerators()) J.object([&] { kv("n", c->getNameAsString()); SmallString<32> s; c->getInitVal().toString(s); kv("v", s); }); }); });
            });
            J.attributeArray("usrs", [&] { for (auto& [i, u] : usrs) { J.array([&] { J.value(i); J.value(json::fixUTF8(u)); }); } });
            J.attributeArray("types", [&] { for (auto& t : types) J.value(json::fixUTF8(t)); });
        });
    }
};

struct Consumer : ASTConsumer
{
    void HandleTranslationUnit(ASTContext& ctx) override
    {
        std::error_code ec;
        llvm::raw_fd_ostream os(g_out, ec);
        json::OStream J(os);
        Extractor ex(ctx, J);
        ex.TraverseDecl(ctx.getTranslationUnitDecl());
        ex.finish();
    }
};
struct Action : ASTFrontendAction
{
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Consumer>(); }
};
}

int main(int argc, const char** argv)
{
    // dots-extract OUT.json ROOT[:ROOT...] SOURCE -- flags
    if (argc < 5) { llvm::errs() << "usage: dots-extract OUT ROOTS SOURCE -- FLAGS\n"; return 2; }
    g_out = argv[1];
    std::string roots = argv[2];
    size_t p = 0;
    while (p <= roots.size()) { size_t q = roots.find(':', p); if (q == std::string::npos) q = roots.size(); if (q > p) g_roots.push_back(roots.substr(p, q - p)); p = q + 1; }
    std::vector<std::string> args{"clang++"};
    for (int i = 5; i < argc; ++i) args.push_back(argv[i]);
    args.push_back("-fsyntax-only");
    args.push_back(argv[3]);
    IntrusiveRefCntPtr<FileManager> files(new FileManager(FileSystemOptions()));
    tooling::ToolInvocation inv(args, std::make_unique<Action>(), files.get());
    return inv.run() ? 0 : 1;
}
