// vx: mechanical extractor.  Parses one C++ translation unit with clang and
// prints, one JSON object per line, the typed AST of every *instantiated*
// function definition of namespace printemps (templates are emitted as their
// concrete instantiations, lambdas as their call operators), plus the record
// layouts and types they mention.  Nothing is rewritten: every statement and
// expression of a body is emitted; an AST node kind the tool does not know is
// emitted as {"k":"Unsupported","c":"<clang class>"} so the verifier refuses it.
#include <map>
#include <set>
#include <string>
#include <vector>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
using namespace clang;
namespace J = llvm::json;
using J::Array;
using J::Object;
using J::Value;

struct Ex {
    ASTContext &C;
    llvm::raw_ostream &os;
    PrintingPolicy PP;
    std::map<const void *, int> typeIds, recIds;
    std::map<const void *, int> declIds;
    std::set<const Decl *> doneFn;
    int nextDecl = 1;
    Ex(ASTContext &c, llvm::raw_ostream &o) : C(c), os(o), PP(c.getPrintingPolicy()) {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
    }
    void line(Object o) { os << Value(std::move(o)) << "\n"; }
    int did(const Decl *d) {
        d = d->getCanonicalDecl();
        auto it = declIds.find(d);
        if (it != declIds.end()) return it->second;
        return declIds[d] = nextDecl++;
    }
    unsigned ln(SourceLocation l) { return C.getSourceManager().getExpansionLineNumber(l); }
    std::string file(SourceLocation l) {
        return C.getSourceManager().getFilename(C.getSourceManager().getExpansionLoc(l)).str();
    }
    std::string qname(const NamedDecl *d) {
        std::string s;
        llvm::raw_string_ostream o(s);
        d->printQualifiedName(o, PP);
        return o.str();
    }
    bool isStdNs(const Decl *d) {
        const DeclContext *dc = d->getDeclContext();
        while (dc && !dc->isTranslationUnit()) {
            if (auto ns = dyn_cast<NamespaceDecl>(dc))
                if (ns->getName() == "std" || ns->getName() == "__gnu_cxx") return true;
            dc = dc->getParent();
        }
        return false;
    }
    bool inPrintemps(const Decl *d) {
        const DeclContext *dc = d->getDeclContext();
        while (dc && !dc->isTranslationUnit()) {
            if (auto ns = dyn_cast<NamespaceDecl>(dc))
                if (ns->getName() == "printemps") return true;
            dc = dc->getParent();
        }
        return false;
    }
    int ty(QualType q) {
        if (q.isNull()) return -1;
        QualType c = q.getCanonicalType();
        bool isConst = c.isConstQualified();
        (void)isConst;
        c = c.getUnqualifiedType();
        const void *key = c.getAsOpaquePtr();
        auto it = typeIds.find(key);
        if (it != typeIds.end()) return it->second;
        int id = typeIds.size();
        typeIds[key] = id;
        Object o{{"R", "type"}, {"id", id}, {"s", c.getAsString(PP)}};
        const Type *t = c.getTypePtr();
        if (auto b = dyn_cast<BuiltinType>(t)) {
            o["k"] = t->isVoidType() ? "void"
                     : t->isBooleanType() ? "bool"
                     : t->isRealFloatingType() ? "real"
                     : t->isNullPtrType() ? "nullptr"
                     : t->isUnsignedIntegerType() ? "uint"
                     : t->isIntegerType() ? "int" : "other";
            if (t->isIntegerType()) o["w"] = (int64_t)C.getTypeSize(c);
            (void)b;
        } else if (auto e = dyn_cast<EnumType>(t)) {
            o["k"] = "enum";
            o["n"] = qname(e->getDecl());
            J::Object en;
            for (auto *c : e->getDecl()->enumerators()) en[c->getName()] = c->getInitVal().getExtValue();
            o["en"] = std::move(en);
        } else if (auto p = dyn_cast<PointerType>(t)) {
            o["k"] = p->getPointeeType()->isFunctionType() ? "fnptr" : "ptr";
            o["e"] = ty(p->getPointeeType());
        } else if (auto r = dyn_cast<ReferenceType>(t)) {
            o["k"] = "ref";
            o["rv"] = isa<RValueReferenceType>(t);
            o["const"] = r->getPointeeType().isConstQualified();
            o["e"] = ty(r->getPointeeType());
        } else if (auto ca = dyn_cast<ConstantArrayType>(t)) {
            o["k"] = "carray";
            o["e"] = ty(ca->getElementType());
            o["n"] = (int64_t)ca->getSize().getZExtValue();
        } else if (auto rt = dyn_cast<RecordType>(t)) {
            const auto *rd = dyn_cast<CXXRecordDecl>(rt->getDecl());
            o["k"] = "rec";
            if (rd) {
                o["n"] = qname(rd);
                o["std"] = isStdNs(rd);
                o["lambda"] = rd->isLambda();
                if (rd->isLambda()) o["lid"] = did(rd);
                if (auto sp = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
                    Array a;
                    for (auto &ta : sp->getTemplateArgs().asArray()) tmplArg(a, ta);
                    o["a"] = std::move(a);
                }
                if (!isStdNs(rd) && !rd->isLambda() && rd->hasDefinition()) {
                    rd = rd->getDefinition();
                    Array bs, fs;
                    for (auto &b : rd->bases()) bs.push_back(ty(b.getType()));
                    for (auto f : rd->fields()) {
                        Object fo{{"n", f->getNameAsString()}, {"t", ty(f->getType())}};
                        fs.push_back(std::move(fo));
                    }
                    o["b"] = std::move(bs);
                    o["f"] = std::move(fs);
                }
            }
        } else {
            o["k"] = "other";
            o["c"] = t->getTypeClassName();
        }
        line(std::move(o));
        return id;
    }
    void tmplArg(Array &a, const TemplateArgument &ta) {
        switch (ta.getKind()) {
            case TemplateArgument::Type: a.push_back(ty(ta.getAsType())); break;
            case TemplateArgument::Integral: a.push_back((int64_t)-1); break;
            case TemplateArgument::Pack:
                for (auto &p : ta.pack_elements()) tmplArg(a, p);
                break;
            default: a.push_back((int64_t)-1);
        }
    }
    // ---- functions -------------------------------------------------------
    std::string fkey(const FunctionDecl *f) {
        std::string s;
        llvm::raw_string_ostream o(s);
        f->getNameForDiagnostic(o, PP, true);
        o << "(";
        bool first = true;
        for (auto p : f->parameters()) {
            if (!first) o << ", ";
            first = false;
            o << p->getType().getCanonicalType().getAsString(PP);
        }
        o << ")";
        if (auto m = dyn_cast<CXXMethodDecl>(f))
            if (m->isConst()) o << " const";
        return o.str();
    }
    Value fref(const FunctionDecl *f) {
        Object o{{"id", did(f)}, {"n", qname(f)}};
        if (isStdNs(f)) o["std"] = true;
        if (auto m = dyn_cast<CXXMethodDecl>(f)) {
            o["m"] = true;
            if (m->isStatic()) o["st"] = true;
            if (m->getParent()->isLambda()) o["lambda"] = did(m->getParent());
            if (m->isDefaulted()) o["dflt"] = true;
            if (m->isCopyAssignmentOperator()) o["cpa"] = true;
            if (m->isMoveAssignmentOperator()) o["mva"] = true;
        }
        if (auto c = dyn_cast<CXXConstructorDecl>(f)) {
            o["ctor"] = true;
            if (c->isCopyConstructor()) o["cpc"] = true;
            if (c->isMoveConstructor()) o["mvc"] = true;
            if (c->isDefaultConstructor()) o["dfc"] = true;
            if (c->isDefaulted()) o["dflt"] = true;
        }
        Array pt;
        for (auto p : f->parameters()) pt.push_back(ty(p->getType()));
        o["pt"] = std::move(pt);
        o["rt"] = ty(f->getReturnType());
        return Value(std::move(o));
    }
    void emitFunction(const FunctionDecl *f) {
        if (f->isDependentContext()) return;
        const FunctionDecl *def = nullptr;
        if (!f->hasBody(def)) {
            return;
        }
        if (def->isDependentContext()) return;
        if (!doneFn.insert(def->getCanonicalDecl()).second) return;
        Object o{{"R", "fn"}, {"id", did(def)}, {"n", qname(def)}, {"key", fkey(def)},
                 {"file", file(def->getLocation())}, {"line", ln(def->getLocation())},
                 {"end", ln(def->getEndLoc())}, {"rt", ty(def->getReturnType())}};
        if (auto m = dyn_cast<CXXMethodDecl>(def)) {
            o["cls"] = ty(C.getRecordType(m->getParent()));
            if (m->isStatic()) o["st"] = true;
            if (m->isDefaulted()) o["dflt"] = true;
            if (m->getParent()->isLambda()) o["lambda"] = did(m->getParent());
        }
        Array ps;
        for (auto p : def->parameters())
            ps.push_back(Object{{"d", did(p)}, {"n", p->getNameAsString()}, {"t", ty(p->getType())}});
        o["ps"] = std::move(ps);
        if (auto c = dyn_cast<CXXConstructorDecl>(def)) {
            o["ctor"] = true;
            Array in;
            for (auto i : c->inits()) {
                Object io;
                if (i->isMemberInitializer()) io["f"] = i->getMember()->getNameAsString();
                else if (i->isBaseInitializer()) io["base"] = ty(QualType(i->getBaseClass(), 0));
                else io["deleg"] = true;
                io["e"] = ex(i->getInit());
                in.push_back(std::move(io));
            }
            o["in"] = std::move(in);
        }
        o["body"] = st(def->getBody());
        line(std::move(o));
    }
    // ---- statements ------------------------------------------------------
    Value var(const VarDecl *v) {
        Object o{{"d", did(v)}, {"n", v->getNameAsString()}, {"t", ty(v->getType())}};
        if (v->isStaticLocal()) o["static"] = true;
        if (auto dd = dyn_cast<DecompositionDecl>(v)) {
            Array b;
            for (auto x : dd->bindings()) {
                Object bo{{"d", did(x)}, {"n", x->getNameAsString()}};
                if (x->getBinding()) bo["e"] = ex(x->getBinding());
                b.push_back(std::move(bo));
            }
            o["bind"] = std::move(b);
        }
        if (v->getInit()) o["i"] = ex(v->getInit());
        return Value(std::move(o));
    }
    Value st(const Stmt *s) {
        if (!s) return nullptr;
        if (auto e = dyn_cast<Expr>(s)) return Object{{"k", "Expr"}, {"L", ln(s->getBeginLoc())}, {"e", ex(e)}};
        Object o{{"L", ln(s->getBeginLoc())}};
        switch (s->getStmtClass()) {
            case Stmt::CompoundStmtClass: {
                Array a;
                for (auto c : cast<CompoundStmt>(s)->body()) a.push_back(st(c));
                o["k"] = "Block"; o["b"] = std::move(a);
                break;
            }
            case Stmt::DeclStmtClass: {
                Array a;
                for (auto d : cast<DeclStmt>(s)->decls())
                    if (auto v = dyn_cast<VarDecl>(d)) a.push_back(var(v));
                o["k"] = "Decl"; o["v"] = std::move(a);
                break;
            }
            case Stmt::IfStmtClass: {
                auto i = cast<IfStmt>(s);
                o["k"] = "If"; o["constexpr"] = i->isConstexpr();
                if (i->isConstexpr() && i->getNondiscardedCase(C)) {
                    auto nd = i->getNondiscardedCase(C);
                    return *nd ? st(*nd) : Value(Object{{"k", "Null"}});
                }
                o["init"] = st(i->getInit());
                if (i->getConditionVariable()) o["cv"] = var(i->getConditionVariable());
                o["c"] = ex(i->getCond()); o["t"] = st(i->getThen()); o["e"] = st(i->getElse());
                break;
            }
            case Stmt::ForStmtClass: {
                auto f = cast<ForStmt>(s);
                o["k"] = "For"; o["init"] = st(f->getInit());
                o["c"] = f->getCond() ? ex(f->getCond()) : Value(nullptr);
                o["inc"] = f->getInc() ? ex(f->getInc()) : Value(nullptr);
                o["b"] = st(f->getBody());
                break;
            }
            case Stmt::CXXForRangeStmtClass: {
                auto f = cast<CXXForRangeStmt>(s);
                o["k"] = "ForRange";
                const VarDecl *lv = f->getLoopVariable();
                Object vo{{"d", did(lv)}, {"n", lv->getNameAsString()}, {"t", ty(lv->getType())}};
                if (auto dd = dyn_cast<DecompositionDecl>(lv)) {
                    Array b;
                    for (auto x : dd->bindings()) {
                        Object bo{{"d", did(x)}, {"n", x->getNameAsString()}};
                        if (x->getBinding()) bo["e"] = ex(x->getBinding());
                        b.push_back(std::move(bo));
                    }
                    vo["bind"] = std::move(b);
                }
                o["v"] = std::move(vo);
                o["r"] = ex(f->getRangeInit());
                o["b"] = st(f->getBody());
                break;
            }
            case Stmt::WhileStmtClass: {
                auto w = cast<WhileStmt>(s);
                o["k"] = "While"; o["c"] = ex(w->getCond()); o["b"] = st(w->getBody());
                break;
            }
            case Stmt::DoStmtClass: {
                auto w = cast<DoStmt>(s);
                o["k"] = "Do"; o["c"] = ex(w->getCond()); o["b"] = st(w->getBody());
                break;
            }
            case Stmt::SwitchStmtClass: {
                auto w = cast<SwitchStmt>(s);
                o["k"] = "Switch"; o["c"] = ex(w->getCond()); o["b"] = st(w->getBody());
                break;
            }
            case Stmt::CaseStmtClass: {
                auto w = cast<CaseStmt>(s);
                o["k"] = "Case"; o["c"] = ex(w->getLHS()); o["b"] = st(w->getSubStmt());
                break;
            }
            case Stmt::DefaultStmtClass:
                o["k"] = "Default"; o["b"] = st(cast<DefaultStmt>(s)->getSubStmt());
                break;
            case Stmt::BreakStmtClass: o["k"] = "Break"; break;
            case Stmt::ContinueStmtClass: o["k"] = "Continue"; break;
            case Stmt::NullStmtClass: o["k"] = "Null"; break;
            case Stmt::ReturnStmtClass: {
                auto r = cast<ReturnStmt>(s);
                o["k"] = "Return"; o["e"] = r->getRetValue() ? ex(r->getRetValue()) : Value(nullptr);
                break;
            }
            case Stmt::AttributedStmtClass: return st(cast<AttributedStmt>(s)->getSubStmt());
            case Stmt::LabelStmtClass: return st(cast<LabelStmt>(s)->getSubStmt());
            default:
                o["k"] = "Unsupported"; o["c"] = s->getStmtClassName();
        }
        return Value(std::move(o));
    }
    // ---- expressions -----------------------------------------------------
    Value constVal(const Expr *e) {
        Expr::EvalResult r;
        if (!e->isValueDependent() && !e->getType()->isRecordType() && e->isPRValue() &&
            (e->getType()->isIntegralOrEnumerationType()) && e->EvaluateAsInt(r, C) && !r.HasSideEffects) {
            llvm::SmallString<32> b;
            r.Val.getInt().toString(b, 10);
            return Value(b.str().str());
        }
        if (!e->isValueDependent() && e->getType()->isRealFloatingType() && e->EvaluateAsRValue(r, C) &&
            !r.HasSideEffects && r.Val.isFloat()) {
            return dbl(r.Val.getFloat());
        }
        return nullptr;
    }
    Value dbl(const llvm::APFloat &f) {
        if (!f.isFinite()) return Value(f.isNegative() ? "-inf" : "inf");
        // exact value as hex float plus shortest decimal
        char buf[64];
        llvm::APFloat g = f;
        bool li;
        g.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li);
        snprintf(buf, sizeof buf, "%.17g", g.convertToDouble());
        return Value(std::string(buf));
    }
    Value ex(const Expr *e) {
        if (!e) return nullptr;
        // transparent wrappers
        if (auto x = dyn_cast<ParenExpr>(e)) return ex(x->getSubExpr());
        if (auto x = dyn_cast<ExprWithCleanups>(e)) return ex(x->getSubExpr());
        if (auto x = dyn_cast<MaterializeTemporaryExpr>(e)) return ex(x->getSubExpr());
        if (auto x = dyn_cast<CXXBindTemporaryExpr>(e)) return ex(x->getSubExpr());
        if (auto x = dyn_cast<ConstantExpr>(e)) return ex(x->getSubExpr());
        if (auto x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return ex(x->getReplacement());
        if (auto x = dyn_cast<CXXDefaultArgExpr>(e)) return ex(x->getExpr());
        if (auto x = dyn_cast<CXXDefaultInitExpr>(e)) return ex(x->getExpr());
        if (auto x = dyn_cast<CXXStdInitializerListExpr>(e)) return ex(x->getSubExpr());
        Object o{{"t", ty(e->getType())}};
        if (e->isLValue()) o["lv"] = true;
        Value cv = constVal(e);
        bool hasCv = !(cv == Value(nullptr));
        if (hasCv && !isa<CallExpr>(e)) {
            o["k"] = e->getType()->isRealFloatingType() ? "Real" : "Int";
            o["v"] = std::move(cv);
            return Value(std::move(o));
        }
        switch (e->getStmtClass()) {
            case Stmt::IntegerLiteralClass: case Stmt::FloatingLiteralClass:
            case Stmt::CXXBoolLiteralExprClass: case Stmt::CharacterLiteralClass:
                o["k"] = "Unsupported"; o["c"] = "literal"; break;
            case Stmt::StringLiteralClass:
                o["k"] = "Str";
                o["v"] = cast<StringLiteral>(e)->getCharByteWidth() == 1
                             ? llvm::json::fixUTF8(cast<StringLiteral>(e)->getString()) : "?";
                break;
            case Stmt::PredefinedExprClass: o["k"] = "Str"; o["v"] = "__func__"; break;
            case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass: o["k"] = "Null"; break;
            case Stmt::CXXThisExprClass: o["k"] = "This"; break;
            case Stmt::DeclRefExprClass: {
                auto d = cast<DeclRefExpr>(e)->getDecl();
                if (auto ec = dyn_cast<EnumConstantDecl>(d)) {
                    o["k"] = "Int";
                    llvm::SmallString<32> b;
                    ec->getInitVal().toString(b, 10);
                    o["v"] = b.str().str();
                } else if (auto f = dyn_cast<FunctionDecl>(d)) {
                    o["k"] = "Fn"; o["f"] = fref(f);
                } else if (auto v = dyn_cast<VarDecl>(d)) {
                    Expr::EvalResult r;
                    o["k"] = "Var"; o["d"] = did(v); o["n"] = v->getNameAsString();
                    if (!v->hasLocalStorage()) {
                        o["g"] = true; o["qn"] = qname(v);
                        if (v->getType().isConstQualified() && e->EvaluateAsRValue(r, C)) {
                            if (r.Val.isInt()) {
                                llvm::SmallString<32> b;
                                r.Val.getInt().toString(b, 10);
                                o["cv"] = b.str().str();
                            } else if (r.Val.isFloat()) o["cv"] = dbl(r.Val.getFloat());
                        }
                    }
                } else {
                    o["k"] = "Var"; o["d"] = did(d); o["n"] = d->getNameAsString();
                    if (isa<BindingDecl>(d)) o["binding"] = true;
                }
                break;
            }
            case Stmt::MemberExprClass: {
                auto m = cast<MemberExpr>(e);
                o["b"] = ex(m->getBase()); o["arrow"] = m->isArrow();
                o["n"] = m->getMemberDecl()->getNameAsString();
                if (auto f = dyn_cast<FunctionDecl>(m->getMemberDecl())) { o["k"] = "MemFn"; o["f"] = fref(f); }
                else if (auto v = dyn_cast<VarDecl>(m->getMemberDecl())) {
                    o["k"] = "Var"; o["d"] = did(v); o["g"] = true; o["qn"] = qname(v);
                    Expr::EvalResult r;
                    if (v->getType().isConstQualified() && e->EvaluateAsRValue(r, C)) {
                        if (r.Val.isInt()) { llvm::SmallString<32> b; r.Val.getInt().toString(b, 10); o["cv"] = b.str().str(); }
                        else if (r.Val.isFloat()) o["cv"] = dbl(r.Val.getFloat());
                    }
                } else {
                    o["k"] = "Mem";
                    if (auto fd = dyn_cast<FieldDecl>(m->getMemberDecl()))
                        o["cls"] = ty(C.getRecordType(fd->getParent()));
                }
                break;
            }
            case Stmt::CallExprClass: case Stmt::CXXMemberCallExprClass: case Stmt::CXXOperatorCallExprClass: {
                auto c = cast<CallExpr>(e);
                o["k"] = isa<CXXOperatorCallExpr>(e) ? "OpCall" : isa<CXXMemberCallExpr>(e) ? "MCall" : "Call";
                o["L"] = ln(e->getBeginLoc());
                if (auto f = c->getDirectCallee()) o["f"] = fref(f);
                if (auto oc = dyn_cast<CXXOperatorCallExpr>(e)) o["op"] = getOperatorSpelling(oc->getOperator());
                if (auto mc = dyn_cast<CXXMemberCallExpr>(e)) {
                    if (mc->getImplicitObjectArgument()) {
                        o["o"] = ex(mc->getImplicitObjectArgument());
                        o["oa"] = mc->getImplicitObjectArgument()->getType()->isPointerType();
                    }
                } else if (!c->getDirectCallee()) o["ce"] = ex(c->getCallee());
                Array a;
                for (auto x : c->arguments()) a.push_back(ex(x));
                o["a"] = std::move(a);
                if (hasCv) o["cv"] = std::move(cv);
                break;
            }
            case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass: {
                auto c = cast<CXXConstructExpr>(e);
                o["k"] = "Ctor"; o["f"] = fref(c->getConstructor());
                o["list"] = c->isListInitialization();
                o["silist"] = c->isStdInitListInitialization();
                Array a;
                for (auto x : c->arguments()) a.push_back(ex(x));
                o["a"] = std::move(a);
                break;
            }
            case Stmt::InitListExprClass: {
                auto il = cast<InitListExpr>(e);
                if (il->getSemanticForm()) il = il->getSemanticForm();
                o["k"] = "InitList";
                Array a;
                for (auto x : il->inits()) a.push_back(ex(x));
                o["a"] = std::move(a);
                break;
            }
            case Stmt::LambdaExprClass: {
                auto l = cast<LambdaExpr>(e);
                o["k"] = "Lambda"; o["lid"] = did(l->getLambdaClass()); o["L"] = ln(e->getBeginLoc());
                o["generic"] = l->isGenericLambda();
                Array caps;
                for (auto &cp : l->captures()) {
                    if (cp.capturesThis()) caps.push_back(Object{{"this", true}, {"ref", cp.getCaptureKind() != LCK_StarThis}});
                    else if (cp.capturesVariable()) {
                        Object co{{"d", did(cp.getCapturedVar())}, {"n", cp.getCapturedVar()->getNameAsString()},
                                  {"ref", cp.getCaptureKind() == LCK_ByRef}, {"t", ty(cp.getCapturedVar()->getType())}};
                        if (auto vd = dyn_cast<VarDecl>(cp.getCapturedVar()))
                            if (l->isInitCapture(&cp) && vd->getInit()) co["i"] = ex(vd->getInit());
                        caps.push_back(std::move(co));
                    }
                }
                o["cap"] = std::move(caps);
                if (!l->isGenericLambda()) { o["op"] = did(l->getCallOperator()); pend.push_back(l->getCallOperator()); }
                else if (auto ft = l->getDependentCallOperator())
                    for (auto sp : ft->specializations()) pend.push_back(sp);
                break;
            }
            case Stmt::UnaryOperatorClass: {
                auto u = cast<UnaryOperator>(e);
                o["k"] = "Un"; o["op"] = UnaryOperator::getOpcodeStr(u->getOpcode()).str();
                o["post"] = u->isPostfix(); o["e"] = ex(u->getSubExpr());
                break;
            }
            case Stmt::BinaryOperatorClass: {
                auto b = cast<BinaryOperator>(e);
                o["k"] = "Bin"; o["op"] = b->getOpcodeStr().str(); o["l"] = ex(b->getLHS()); o["r"] = ex(b->getRHS());
                break;
            }
            case Stmt::CompoundAssignOperatorClass: {
                auto b = cast<CompoundAssignOperator>(e);
                o["k"] = "CAssign"; o["op"] = b->getOpcodeStr().str(); o["l"] = ex(b->getLHS()); o["r"] = ex(b->getRHS());
                o["ct"] = ty(b->getComputationResultType());
                o["clt"] = ty(b->getComputationLHSType());
                break;
            }
            case Stmt::ConditionalOperatorClass: {
                auto c = cast<ConditionalOperator>(e);
                o["k"] = "Cond"; o["c"] = ex(c->getCond()); o["l"] = ex(c->getTrueExpr()); o["r"] = ex(c->getFalseExpr());
                break;
            }
            case Stmt::ArraySubscriptExprClass: {
                auto a = cast<ArraySubscriptExpr>(e);
                o["k"] = "Sub"; o["b"] = ex(a->getBase()); o["i"] = ex(a->getIdx());
                break;
            }
            case Stmt::ImplicitCastExprClass: case Stmt::CStyleCastExprClass: case Stmt::CXXStaticCastExprClass:
            case Stmt::CXXFunctionalCastExprClass: case Stmt::CXXConstCastExprClass:
            case Stmt::CXXReinterpretCastExprClass: case Stmt::CXXDynamicCastExprClass: {
                auto c = cast<CastExpr>(e);
                switch (c->getCastKind()) {
                    case CK_NoOp: case CK_ConstructorConversion: case CK_UserDefinedConversion:
                    case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay:
                    case CK_DerivedToBase: case CK_UncheckedDerivedToBase:
                        if (c->getCastKind() == CK_DerivedToBase || c->getCastKind() == CK_UncheckedDerivedToBase) break;
                        return ex(c->getSubExpr());
                    default: break;
                }
                o["k"] = "Cast"; o["ck"] = c->getCastKindName(); o["e"] = ex(c->getSubExpr());
                break;
            }
            case Stmt::CXXThrowExprClass: o["k"] = "Throw"; break;
            case Stmt::CXXNewExprClass: {
                auto n = cast<CXXNewExpr>(e);
                o["k"] = "New"; o["et"] = ty(n->getAllocatedType()); o["arr"] = n->isArray();
                if (n->isArray() && n->getArraySize()) o["n"] = ex(*n->getArraySize());
                break;
            }
            case Stmt::CXXDeleteExprClass: o["k"] = "Delete"; o["e"] = ex(cast<CXXDeleteExpr>(e)->getArgument()); break;
            case Stmt::UnaryExprOrTypeTraitExprClass: o["k"] = "Unsupported"; o["c"] = "sizeof"; break;
            case Stmt::CXXScalarValueInitExprClass: case Stmt::ImplicitValueInitExprClass: o["k"] = "Zero"; break;
            default:
                o["k"] = "Unsupported"; o["c"] = e->getStmtClassName();
        }
        return Value(std::move(o));
    }
    std::vector<const FunctionDecl *> pend;
};

struct V : RecursiveASTVisitor<V> {
    Ex &X;
    V(Ex &x) : X(x) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl *f) {
        bool here = X.inPrintemps(f);
        if (!here) {
            auto n = X.qname(f);
            here = n.rfind("vp_", 0) == 0;
        }
        if (here && f->isThisDeclarationADefinition()) X.emitFunction(f);
        return true;
    }
};
struct Cons : ASTConsumer {
    void HandleTranslationUnit(ASTContext &c) override {
        if (c.getDiagnostics().hasUnrecoverableErrorOccurred()) return;
        Ex x(c, llvm::outs());
        V v(x);
        v.TraverseDecl(c.getTranslationUnitDecl());
        while (!x.pend.empty()) {
            auto f = x.pend.back();
            x.pend.pop_back();
            x.emitFunction(f);
        }
        llvm::outs() << "{\"R\":\"end\"}\n";
    }
};
struct Act : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
        return std::make_unique<Cons>();
    }
};
int main(int argc, const char **argv) {
    // usage: vx file.cpp -- flags...
    std::vector<std::string> args;
    std::string file = argv[1];
    for (int i = 2; i < argc; i++)
        if (std::string(argv[i]) != "--") args.push_back(argv[i]);
    auto db = std::make_unique<tooling::FixedCompilationDatabase>(".", args);
    tooling::ClangTool t(*db, {file});
    return t.run(tooling::newFrontendActionFactory<Act>().get());
}
