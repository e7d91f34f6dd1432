// Dumps the type-checked program (functions, records, globals of a translation unit and everything they reach) as JSON.
// usage: extract <repo-dir> <tu-tag> <out.json> <file> -- <clang args>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Basic/Builtins.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
using std::string;

static string RepoDir, Tag, OutFile;

static string esc(llvm::StringRef s) {
    string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r + "\"";
}

struct Dumper {
    ASTContext &C;
    SourceManager &SM;
    std::unique_ptr<MangleContext> MC;
    std::map<string, string> types, records, funcs, globals;
    std::map<const Decl *, unsigned> ids;
    std::vector<const FunctionDecl *> work;
    std::set<const FunctionDecl *> seen;
    std::set<const VarDecl *> gseen;
    std::vector<const VarDecl *> gwork;

    Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), MC(c.createMangleContext()) {}

    string file(SourceLocation l) {
        auto f = SM.getFilename(SM.getExpansionLoc(l)).str();
        return f;
    }
    unsigned line(SourceLocation l) { return SM.getExpansionLineNumber(l); }
    bool inRepo(SourceLocation l) {
        auto f = file(l);
        // RepoDir: ':'-separated directories (the repository and the generated config.hpp)
        for (size_t p = 0; p < RepoDir.size();) {
            size_t q = RepoDir.find(':', p);
            if (q == string::npos) q = RepoDir.size();
            if (q > p && f.rfind(RepoDir.substr(p, q - p), 0) == 0) return true;
            p = q + 1;
        }
        return false;
    }

    string did(const Decl *d) {
        d = d->getCanonicalDecl();
        auto it = ids.find(d);
        if (it == ids.end()) it = ids.emplace(d, ids.size()).first;
        return Tag + std::to_string(it->second);
    }
    string mangleFn(const FunctionDecl *f) {
        string s;
        llvm::raw_string_ostream os(s);
        if (auto *c = dyn_cast<CXXConstructorDecl>(f)) MC->mangleName(GlobalDecl(c, Ctor_Complete), os);
        else if (auto *d = dyn_cast<CXXDestructorDecl>(f)) MC->mangleName(GlobalDecl(d, Dtor_Complete), os);
        else if (MC->shouldMangleDeclName(f)) MC->mangleName(GlobalDecl(f), os);
        else os << f->getNameAsString();
        return os.str();
    }
    string base(const string &p) { auto i = p.rfind('/'); return i == string::npos ? p : p.substr(i + 1); }
    string fkey(const FunctionDecl *f) {
        f = f->getCanonicalDecl();
        string m = mangleFn(f);
        if (!f->isExternallyVisible()) m = base(file(f->getLocation())) + "#" + m;
        return m;
    }
    string gkey(const VarDecl *v) {
        v = v->getCanonicalDecl();
        string s;
        llvm::raw_string_ostream os(s);
        if (MC->shouldMangleDeclName(v)) MC->mangleName(GlobalDecl(v), os); else os << v->getNameAsString();
        os.flush();
        if (!v->isExternallyVisible()) s = base(file(v->getLocation())) + "#" + s;
        return s;
    }
    string rkey(const RecordDecl *r) {
        string s;
        llvm::raw_string_ostream os(s);
        MC->mangleCXXRTTIName(C.getRecordType(r), os);
        os.flush();
        if (!r->isExternallyVisible()) s = base(file(r->getLocation())) + "#" + s;
        record(s, r);
        return s;
    }
    string qname(const NamedDecl *d) {
        string s;
        llvm::raw_string_ostream os(s);
        d->printQualifiedName(os);
        return os.str();
    }

    string type(QualType q) {
        q = q.getCanonicalType();
        string cq = q.isConstQualified() ? "c" : "";
        const Type *t = q.getTypePtr();
        string key, val;
        if (auto *b = dyn_cast<BuiltinType>(t)) {
            key = "b:" + b->getName(C.getPrintingPolicy()).str();
            if (b->isInteger() )
                val = "{\"k\":\"int\",\"w\":" + std::to_string(b->getKind() == BuiltinType::Bool ? 1 : C.getTypeSize(q)) +
                      ",\"s\":" + (b->isSignedInteger() ? "1" : "0") + ",\"bool\":" + (b->getKind() == BuiltinType::Bool ? "1" : "0") + "}";
            else if (b->isNullPtrType()) val = "{\"k\":\"nullptr\"}";
            else if (b->isVoidType()) val = "{\"k\":\"void\"}";
            else val = "{\"k\":\"other\"}";
        } else if (auto *p = dyn_cast<PointerType>(t)) {
            string to = type(p->getPointeeType());
            key = "p:" + to; val = "{\"k\":\"ptr\",\"to\":" + esc(to) + "}";
        } else if (auto *p = dyn_cast<ReferenceType>(t)) {
            string to = type(p->getPointeeType());
            bool rv = isa<RValueReferenceType>(p);
            key = (rv ? "rr:" : "r:") + to; val = "{\"k\":\"ref\",\"rv\":" + string(rv ? "1" : "0") + ",\"to\":" + esc(to) + "}";
        } else if (auto *e = dyn_cast<EnumType>(t)) {
            key = "e:" + qname(e->getDecl());
            val = "{\"k\":\"int\",\"enum\":1,\"w\":" + std::to_string(C.getTypeSize(q)) + ",\"s\":" + (e->isSignedIntegerOrEnumerationType() ? "1" : "0") + ",\"bool\":0}";
        } else if (auto *r = dyn_cast<RecordType>(t)) {
            string rk = rkey(r->getDecl());
            key = "R:" + rk; val = "{\"k\":\"rec\",\"r\":" + esc(rk) + "}";
        } else if (auto *a = dyn_cast<ConstantArrayType>(t)) {
            string to = type(a->getElementType());
            key = "a" + std::to_string(a->getSize().getZExtValue()) + ":" + to;
            val = "{\"k\":\"arr\",\"n\":" + std::to_string(a->getSize().getZExtValue()) + ",\"to\":" + esc(to) + "}";
        } else if (auto *m = dyn_cast<MemberPointerType>(t)) {
            string to = type(m->getPointeeType());
            key = "mp:" + to; val = "{\"k\":\"memptr\",\"to\":" + esc(to) + "}";
        } else if (isa<FunctionType>(t)) {
            key = "f:" + q.getAsString(); val = "{\"k\":\"fn\"}";
        } else {
            key = "o:" + q.getAsString(); val = "{\"k\":\"other\"}";
        }
        if (!cq.empty()) { val.pop_back(); val += ",\"c\":1}"; key = "c" + key; }
        types.emplace(key, val);
        return key;
    }

    // record keys whose bodies are modelled by the interpreter are still described (name, fields)
    std::set<string> recDone;
    void record(const string &key, const RecordDecl *rd0) {
        if (!recDone.insert(key).second) return;
        const RecordDecl *rd = rd0->getDefinition();
        string s = "{\"name\":" + esc(QualType(rd0->getTypeForDecl(), 0).getCanonicalType().getAsString(C.getPrintingPolicy())) + ",\"qn\":" + esc(qname(rd0));
        s += ",\"file\":" + esc(file(rd0->getLocation())) + ",\"line\":" + std::to_string(line(rd0->getLocation()));
        s += ",\"repo\":" + string(inRepo(rd0->getLocation()) ? "1" : "0");
        if (auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(rd0)) {
            s += ",\"targs\":[";
            bool f = true;
            std::function<void(const TemplateArgument &)> arg = [&](const TemplateArgument &a) {
                if (a.getKind() == TemplateArgument::Pack) { for (auto &x : a.pack_elements()) arg(x); return; }
                if (!f) s += ",";
                f = false;
                if (a.getKind() == TemplateArgument::Type) s += esc(type(a.getAsType()));
                else if (a.getKind() == TemplateArgument::Integral) { llvm::SmallString<32> t; a.getAsIntegral().toString(t, 10); s += t.str().str(); }
                else s += "null";
            };
            for (auto &a : sp->getTemplateArgs().asArray()) arg(a);
            s += "]";
        }
        if (rd) {
            if (rd->isUnion()) s += ",\"union\":1";
            s += ",\"fields\":[";
            bool first = true;
            for (auto *f : rd->fields()) {
                if (!first) s += ",";
                first = false;
                s += "{\"n\":" + esc(fieldName(f)) + ",\"t\":" + esc(type(f->getType())) + ",\"l\":" + std::to_string(line(f->getLocation()));
                if (f->isMutable()) s += ",\"mut\":1";
                s += ",\"acc\":" + std::to_string(int(f->getAccess()));
                s += "}";
            }
            s += "]";
            if (auto *cr = dyn_cast<CXXRecordDecl>(rd)) {
                s += ",\"bases\":[";
                first = true;
                for (auto &b : cr->bases()) {
                    if (!first) s += ",";
                    first = false;
                    s += esc(type(b.getType()));
                }
                s += "],\"poly\":" + string(cr->isPolymorphic() ? "1" : "0") + ",\"abstract\":" + (cr->isAbstract() ? "1" : "0") + ",\"lambda\":" + (cr->isLambda() ? "1" : "0");
                s += ",\"trivcopy\":" + string(cr->isTriviallyCopyable() ? "1" : "0");
                if (cr->isLambda()) {
                    llvm::DenseMap<const ValueDecl *, FieldDecl *> caps;
                    FieldDecl *th = nullptr;
                    cr->getCaptureFields(caps, th);
                    s += ",\"caps\":{";
                    first = true;
                    for (auto &p : caps) {
                        if (!first) s += ",";
                        first = false;
                        s += esc(did(p.first)) + ":" + esc(fieldName(p.second));
                    }
                    s += "}";
                    if (th) s += ",\"capthis\":" + esc(fieldName(th));
                }
                s += ",\"methods\":[";
                first = true;
                for (auto *m : cr->methods()) {
                    if (m->isDependentContext()) continue;
                    if (m->getTrailingRequiresClause() && false) continue;
                    if (!first) s += ",";
                    first = false;
                    s += method(m);
                }
                s += "],\"hasdef\":" + string(cr->hasDefaultConstructor() ? "1" : "0");
            }
        } else
            s += ",\"incomplete\":1";
        s += "}";
        records[key] = s;
    }
    string method(const CXXMethodDecl *m) {
        string s = "{\"f\":" + esc(fkey(m)) + ",\"n\":" + esc(m->getNameAsString()) + ",\"acc\":" + std::to_string(int(m->getAccess()));
        if (m->isVirtual()) s += ",\"v\":1";
        if (m->isStatic()) s += ",\"st\":1";
        if (m->isConst()) s += ",\"c\":1";
        if (m->isDefaulted()) s += ",\"def\":1";
        if (m->isDeleted()) s += ",\"del\":1";
        if (m->isImplicit()) s += ",\"imp\":1";
        s += ",\"np\":" + std::to_string(m->getNumParams());
        s += ",\"l\":" + std::to_string(line(m->getLocation()));
        if (!m->getReturnType()->isDependentType() && !m->getReturnType()->isUndeducedType()) s += ",\"ret\":" + esc(type(m->getReturnType()));
        if (auto *c = dyn_cast<CXXConstructorDecl>(m)) {
            if (c->isDefaultConstructor()) s += ",\"dc\":1";
            if (c->isCopyOrMoveConstructor()) s += ",\"cc\":1";
        }
        s += ",\"ov\":[";
        bool first = true;
        for (auto *o : m->overridden_methods()) {
            if (!first) s += ",";
            first = false;
            s += esc(fkey(o));
        }
        return s + "]}";
    }
    string fieldName(const FieldDecl *f) {
        if (f->getDeclName() && !f->getName().empty()) return f->getNameAsString();
        return "#" + std::to_string(f->getFieldIndex());
    }

    // ---- functions -------------------------------------------------------------------------------------------
    void need(const FunctionDecl *f) {
        const FunctionDecl *def = nullptr;
        if (f->hasBody(def) || (def = f)) {}
        if (def->isTemplated()) return;
        if (seen.insert(def).second) work.push_back(def);
    }
    bool cut(const FunctionDecl *f) {
        if (inRepo(f->getLocation()) || file(f->getLocation()).find("witness") != string::npos) return false;
        string q = qname(f);
        static const char *pre[] = {"std::vector", "std::basic_string", "std::__cxx11::", "std::basic_ostream", "std::basic_istream", "std::basic_ios", "std::basic_stringbuf",
            "std::ios_base", "std::allocator", "std::_Vector_base", "std::_Bvector", "std::_Bit_", "std::shared_ptr", "std::__shared", "std::map", "std::_Rb_tree", "YAML::",
            "std::locale", "std::operator<<", "std::use_facet", "std::__uninit", "std::uninit", "std::_Destroy", "std::function", "std::thread", "std::mutex",
            "std::unique_ptr", "std::__format", "std::format", "std::chrono", "std::sqrt", "std::iota", "std::set", "std::deque", "std::list", "std::hash", "__gnu_cxx::__alloc"};
        for (auto p : pre)
            if (q.rfind(p, 0) == 0) return true;
        return false;
    }
    void function(const FunctionDecl *f) {
        string k = fkey(f);
        bool body = f->doesThisDeclarationHaveABody() && !cut(f);
        string s = "{\"qn\":" + esc(qname(f)) + ",\"n\":" + esc(f->getNameAsString()) + ",\"file\":" + esc(file(f->getLocation())) + ",\"line\":" + std::to_string(line(f->getLocation()));
        s += ",\"repo\":" + string(inRepo(f->getLocation()) ? "1" : "0");
        if (!f->getReturnType()->isUndeducedType()) s += ",\"ret\":" + esc(type(f->getReturnType()));
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
            s += ",\"rec\":" + esc(rkey(m->getParent())) + ",\"m\":" + method(m);
            if (auto *c = dyn_cast<CXXConstructorDecl>(m)) {
                s += ",\"ctor\":1";
                if (body || c->isDefaulted()) {
                    s += ",\"inits\":[";
                    bool first = true;
                    for (auto *i : c->inits()) {
                        if (!first) s += ",";
                        first = false;
                        s += "{";
                        if (i->isAnyMemberInitializer()) s += "\"n\":" + esc(fieldName(i->getAnyMember()));
                        else if (i->isDelegatingInitializer()) s += "\"del\":1";
                        else s += "\"base\":" + esc(type(QualType(i->getBaseClass(), 0)));
                        s += ",\"e\":" + expr(i->getInit()) + ",\"w\":" + (i->isWritten() ? "1" : "0") + "}";
                    }
                    s += "]";
                }
            }
            if (isa<CXXDestructorDecl>(m)) s += ",\"dtor\":1";
        }
        if (f->isDefaulted()) s += ",\"defaulted\":1";
        if (f->isDeleted()) s += ",\"deleted\":1";
        if (f->isTrivial()) s += ",\"trivial\":1";
        if (f->isVariadic()) s += ",\"variadic\":1";
        if (f->isNoReturn()) s += ",\"noreturn\":1";
        if (unsigned b = f->getBuiltinID()) s += ",\"builtin\":" + esc(C.BuiltinInfo.getName(b));
        if (f->isTemplateInstantiation()) s += ",\"inst\":1";
        if (auto *ta = f->getTemplateSpecializationArgs()) {
            s += ",\"targs\":[";
            bool first = true;
            std::function<void(const TemplateArgument &)> arg = [&](const TemplateArgument &a) {
                if (a.getKind() == TemplateArgument::Pack) { for (auto &x : a.pack_elements()) arg(x); return; }
                if (!first) s += ",";
                first = false;
                if (a.getKind() == TemplateArgument::Type) s += esc(type(a.getAsType()));
                else if (a.getKind() == TemplateArgument::Integral) { llvm::SmallString<32> t; a.getAsIntegral().toString(t, 10); s += t.str().str(); }
                else s += "null";
            };
            for (auto &a : ta->asArray()) arg(a);
            s += "]";
        }
        s += ",\"params\":[";
        bool first = true;
        for (auto *p : f->parameters()) {
            if (!first) s += ",";
            first = false;
            s += "{\"id\":" + esc(did(p)) + ",\"n\":" + esc(p->getNameAsString()) + ",\"t\":" + esc(type(p->getType())) + "}";
        }
        s += "]";
        if (body) s += ",\"body\":" + stmt(f->getBody());
        s += "}";
        auto it = funcs.find(k);
        if (it == funcs.end() || body) funcs[k] = s;
    }

    string apval(const APValue &v, int depth = 0) {
        if (depth > 8) return "null";
        switch (v.getKind()) {
            case APValue::Int: { llvm::SmallString<32> t; v.getInt().toString(t, 10); return t.str().str(); }
            case APValue::Struct: {
                string s = "{\"b\":[";
                for (unsigned i = 0; i < v.getStructNumBases(); ++i) s += (i ? "," : "") + apval(v.getStructBase(i), depth + 1);
                s += "],\"f\":[";
                for (unsigned i = 0; i < v.getStructNumFields(); ++i) s += (i ? "," : "") + apval(v.getStructField(i), depth + 1);
                return s + "]}";
            }
            case APValue::Array: {
                string s = "[";
                unsigned n = v.getArraySize();
                if (n > 4096) return "null";
                for (unsigned i = 0; i < n; ++i)
                    s += (i ? "," : "") + apval(i < v.getArrayInitializedElts() ? v.getArrayInitializedElt(i) : v.getArrayFiller(), depth + 1);
                return s + "]";
            }
            case APValue::LValue: {
                if (auto *e = v.getLValueBase().dyn_cast<const Expr *>())
                    if (auto *sl = dyn_cast<StringLiteral>(e)) return esc(sl->getString());
                return "null";
            }
            default: return "null";
        }
    }

    void global(const VarDecl *v0) {
        const VarDecl *v = v0->getDefinition() ? v0->getDefinition() : v0;
        const VarDecl *withInit = nullptr;
        const Expr *in = v->getAnyInitializer(withInit);
        if (withInit) v = withInit;
        string k = gkey(v);
        string s = "{\"n\":" + esc(v->getNameAsString()) + ",\"qn\":" + esc(qname(v)) + ",\"t\":" + esc(type(v->getType())) + ",\"file\":" + esc(file(v->getLocation())) +
                   ",\"line\":" + std::to_string(line(v->getLocation())) + ",\"repo\":" + (inRepo(v->getLocation()) ? "1" : "0");
        s += ",\"local\":" + string(v->isStaticLocal() ? "1" : "0") + ",\"tls\":" + (v->getTLSKind() ? "1" : "0") + ",\"constexpr\":" + (v->isConstexpr() ? "1" : "0") + ",\"inline\":" + (v->isInline() ? "1" : "0");
        s += ",\"const\":" + string(v->getType().isConstant(C) ? "1" : "0");
        s += ",\"constq\":" + string(v->getType().isConstQualified() || (v->getType()->isArrayType() && C.getBaseElementType(v->getType()).isConstQualified()) ? "1" : "0");
        s += ",\"def\":" + string(v->isThisDeclarationADefinition() != VarDecl::DeclarationOnly ? "1" : "0");
        s += ",\"member\":" + string(v->isStaticDataMember() ? "1" : "0");
        if (v->isStaticDataMember()) s += ",\"rec\":" + esc(rkey(cast<RecordDecl>(v->getDeclContext())));
        bool dep = in && (in->isValueDependent() || in->isTypeDependent());
        if (in && !dep) {
            bool ci = v->hasConstantInitialization();
            s += ",\"constinit\":" + string(ci ? "1" : "0");
            if (v->isConstexpr() || ci) {
                if (const APValue *val = v->evaluateValue()) s += ",\"val\":" + apval(*val);
            }
            s += ",\"init\":" + expr(in);
        } else
            s += ",\"constinit\":1";
        s += "}";
        globals[k] = s;
    }
    void needGlobal(const VarDecl *v) {
        v = v->getCanonicalDecl();
        if (gseen.insert(v).second) gwork.push_back(v);
    }

    // ---- statements ------------------------------------------------------------------------------------------
    string L(SourceLocation l) { return ",\"l\":" + std::to_string(line(l)); }
    string opt(const Stmt *s) { return s ? stmt(s) : "null"; }
    string var(const VarDecl *v) {
        string s = "{\"id\":" + esc(did(v)) + ",\"n\":" + esc(v->getNameAsString()) + ",\"t\":" + esc(type(v->getType()));
        s += L(v->getLocation());
        if (v->isStaticLocal()) { needGlobal(v); s += ",\"static\":" + esc(gkey(v)); }
        else if (v->getInit()) s += ",\"i\":" + expr(v->getInit());
        if (auto *d = dyn_cast<DecompositionDecl>(v)) {
            s += ",\"bind\":[";
            bool first = true;
            for (auto *b : d->bindings()) {
                if (!first) s += ",";
                first = false;
                s += "{\"id\":" + esc(did(b));
                if (auto *h = b->getHoldingVar()) s += ",\"hold\":" + var(h);
                else if (b->getBinding()) s += ",\"e\":" + expr(b->getBinding());
                s += "}";
            }
            s += "]";
        }
        return s + "}";
    }
    string stmt(const Stmt *s) {
        if (!s) return "null";
        if (auto *e = dyn_cast<Expr>(s)) return "{\"k\":\"E\",\"e\":" + expr(e) + L(e->getExprLoc()) + "}";
        string l = L(s->getBeginLoc());
        switch (s->getStmtClass()) {
            case Stmt::CompoundStmtClass: {
                string r = "{\"k\":\"Block\",\"s\":[";
                bool first = true;
                for (auto *c : cast<CompoundStmt>(s)->body()) {
                    if (!first) r += ",";
                    first = false;
                    r += stmt(c);
                }
                return r + "]" + l + "}";
            }
            case Stmt::DeclStmtClass: {
                string r = "{\"k\":\"Decl\",\"v\":[";
                bool first = true;
                for (auto *d : cast<DeclStmt>(s)->decls())
                    if (auto *v = dyn_cast<VarDecl>(d)) {
                        if (!first) r += ",";
                        first = false;
                        r += var(v);
                    }
                return r + "]" + l + "}";
            }
            case Stmt::IfStmtClass: {
                auto *i = cast<IfStmt>(s);
                return "{\"k\":\"If\",\"init\":" + opt(i->getInit()) + ",\"cv\":" + opt(i->getConditionVariableDeclStmt()) + ",\"c\":" + expr(i->getCond()) + ",\"t\":" + opt(i->getThen()) +
                       ",\"e\":" + opt(i->getElse()) + l + "}";
            }
            case Stmt::ForStmtClass: {
                auto *i = cast<ForStmt>(s);
                return "{\"k\":\"For\",\"init\":" + opt(i->getInit()) + ",\"cv\":" + opt(i->getConditionVariableDeclStmt()) + ",\"c\":" + (i->getCond() ? expr(i->getCond()) : "null") +
                       ",\"inc\":" + (i->getInc() ? expr(i->getInc()) : "null") + ",\"b\":" + opt(i->getBody()) + l + "}";
            }
            case Stmt::CXXForRangeStmtClass: {
                auto *i = cast<CXXForRangeStmt>(s);
                return "{\"k\":\"Range\",\"init\":" + opt(i->getInit()) + ",\"r\":" + opt(i->getRangeStmt()) + ",\"bs\":" + opt(i->getBeginStmt()) + ",\"es\":" + opt(i->getEndStmt()) +
                       ",\"c\":" + expr(i->getCond()) + ",\"inc\":" + expr(i->getInc()) + ",\"lv\":" + opt(i->getLoopVarStmt()) + ",\"b\":" + opt(i->getBody()) + l + "}";
            }
            case Stmt::WhileStmtClass: {
                auto *i = cast<WhileStmt>(s);
                return "{\"k\":\"While\",\"cv\":" + opt(i->getConditionVariableDeclStmt()) + ",\"c\":" + expr(i->getCond()) + ",\"b\":" + opt(i->getBody()) + l + "}";
            }
            case Stmt::DoStmtClass: {
                auto *i = cast<DoStmt>(s);
                return "{\"k\":\"Do\",\"c\":" + expr(i->getCond()) + ",\"b\":" + opt(i->getBody()) + l + "}";
            }
            case Stmt::ReturnStmtClass: {
                auto *i = cast<ReturnStmt>(s);
                return "{\"k\":\"Ret\",\"e\":" + (i->getRetValue() ? expr(i->getRetValue()) : "null") + l + "}";
            }
            case Stmt::BreakStmtClass: return "{\"k\":\"Break\"" + l + "}";
            case Stmt::ContinueStmtClass: return "{\"k\":\"Cont\"" + l + "}";
            case Stmt::NullStmtClass: return "{\"k\":\"Null\"}";
            case Stmt::SwitchStmtClass: {
                auto *i = cast<SwitchStmt>(s);
                return "{\"k\":\"Switch\",\"init\":" + opt(i->getInit()) + ",\"cv\":" + opt(i->getConditionVariableDeclStmt()) + ",\"c\":" + expr(i->getCond()) + ",\"b\":" + opt(i->getBody()) + l + "}";
            }
            case Stmt::CaseStmtClass: {
                auto *i = cast<CaseStmt>(s);
                return "{\"k\":\"Case\",\"lo\":" + expr(i->getLHS()) + ",\"hi\":" + (i->getRHS() ? expr(i->getRHS()) : "null") + ",\"s\":" + opt(i->getSubStmt()) + l + "}";
            }
            case Stmt::DefaultStmtClass: return "{\"k\":\"Default\",\"s\":" + opt(cast<DefaultStmt>(s)->getSubStmt()) + l + "}";
            case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(s)->getSubStmt());
            case Stmt::LabelStmtClass: return "{\"k\":\"?\",\"n\":\"Label\"" + l + "}";
            case Stmt::CXXTryStmtClass: {
                auto *i = cast<CXXTryStmt>(s);
                string r = "{\"k\":\"Try\",\"b\":" + stmt(i->getTryBlock()) + ",\"h\":[";
                for (unsigned n = 0; n < i->getNumHandlers(); ++n) {
                    auto *h = i->getHandler(n);
                    r += string(n ? "," : "") + "{\"t\":" + (h->getExceptionDecl() ? esc(type(h->getCaughtType())) : "null") + ",\"id\":" + (h->getExceptionDecl() ? esc(did(h->getExceptionDecl())) : "null") +
                         ",\"b\":" + stmt(h->getHandlerBlock()) + "}";
                }
                return r + "]" + l + "}";
            }
            default: return "{\"k\":\"?\",\"n\":" + esc(s->getStmtClassName()) + l + "}";
        }
    }

    // ---- expressions -----------------------------------------------------------------------------------------
    string list(llvm::ArrayRef<const Expr *> a) {
        string r = "[";
        bool first = true;
        for (auto *e : a) {
            if (!first) r += ",";
            first = false;
            r += expr(e);
        }
        return r + "]";
    }
    string args(const CallExpr *c, unsigned from = 0) {
        string r = "[";
        for (unsigned i = from; i < c->getNumArgs(); ++i) r += (i > from ? "," : "") + expr(c->getArg(i));
        return r + "]";
    }
    string expr(const Expr *e) {
        if (!e) return "null";
        if (auto *p = dyn_cast<ParenExpr>(e)) return expr(p->getSubExpr());
        if (auto *p = dyn_cast<ExprWithCleanups>(e)) return expr(p->getSubExpr());
        if (auto *p = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(p->getSubExpr());
        if (auto *p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(p->getReplacement());
        if (auto *p = dyn_cast<CXXStdInitializerListExpr>(e)) return "{\"k\":\"StdInit\",\"e\":" + expr(p->getSubExpr()) + tail(e);
        if (auto *p = dyn_cast<ConstantExpr>(e)) { if (!(e->getType()->isIntegralOrEnumerationType())) return expr(p->getSubExpr()); }
        if (auto *p = dyn_cast<CXXDefaultArgExpr>(e)) return expr(p->getExpr());
        if (auto *p = dyn_cast<CXXDefaultInitExpr>(e)) return "{\"k\":\"DefInit\",\"e\":" + expr(p->getExpr()) + tail(e);
        if (auto *p = dyn_cast<CXXRewrittenBinaryOperator>(e)) return expr(p->getSemanticForm());
        if (auto *p = dyn_cast<SourceLocExpr>(e)) return "{\"k\":\"Opaque\"" + tail(e);
        if (e->isPRValue() && e->getType()->isIntegralOrEnumerationType() && !e->isValueDependent()) {
            Expr::EvalResult r;
            if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects) && r.Val.isInt()) {
                llvm::SmallString<32> t;
                r.Val.getInt().toString(t, 10);
                string o = "{\"k\":\"Int\",\"v\":" + t.str().str();
                if (auto *dr = dyn_cast<DeclRefExpr>(e->IgnoreParenImpCasts())) o += ",\"nm\":" + esc(dr->getDecl()->getNameAsString());
                return o + tail(e);
            }
        }
        switch (e->getStmtClass()) {
            case Stmt::StringLiteralClass: return "{\"k\":\"Str\",\"v\":" + (cast<StringLiteral>(e)->getCharByteWidth() == 1 ? esc(cast<StringLiteral>(e)->getBytes()) : "\"\"") + tail(e);
            case Stmt::CXXNullPtrLiteralExprClass: return "{\"k\":\"Null\"" + tail(e);
            case Stmt::FloatingLiteralClass: return "{\"k\":\"Opaque\"" + tail(e);
            case Stmt::DeclRefExprClass: {
                auto *d = cast<DeclRefExpr>(e)->getDecl();
                if (auto *v = dyn_cast<VarDecl>(d)) {
                    if (v->hasGlobalStorage()) { needGlobal(v); return "{\"k\":\"Glob\",\"g\":" + esc(gkey(v)) + tail(e); }
                    return "{\"k\":\"Var\",\"id\":" + esc(did(v)) + ",\"n\":" + esc(v->getNameAsString()) + (v->getType()->isReferenceType() ? ",\"ref\":1" : "") + tail(e);
                }
                if (auto *f = dyn_cast<FunctionDecl>(d)) { need(f); return "{\"k\":\"Fn\",\"f\":" + esc(fkey(f)) + tail(e); }
                if (auto *b = dyn_cast<BindingDecl>(d)) return "{\"k\":\"Var\",\"id\":" + esc(did(b)) + ",\"n\":" + esc(b->getNameAsString()) + ",\"bind\":1" + tail(e);
                if (auto *f = dyn_cast<FieldDecl>(d)) return "{\"k\":\"FieldRef\",\"n\":" + esc(fieldName(f)) + tail(e);
                if (auto *t = dyn_cast<TemplateParamObjectDecl>(d)) return "{\"k\":\"Opaque\"" + tail(e);
                return "{\"k\":\"?\",\"n\":\"DeclRef\"" + tail(e);
            }
            case Stmt::MemberExprClass: {
                auto *m = cast<MemberExpr>(e);
                if (auto *f = dyn_cast<FieldDecl>(m->getMemberDecl()))
                    return "{\"k\":\"Mem\",\"n\":" + esc(fieldName(f)) + ",\"r\":" + esc(rkey(f->getParent())) + ",\"arrow\":" + (m->isArrow() ? "1" : "0") + ",\"b\":" + expr(m->getBase()) + tail(e);
                if (auto *v = dyn_cast<VarDecl>(m->getMemberDecl())) { needGlobal(v); return "{\"k\":\"Glob\",\"g\":" + esc(gkey(v)) + ",\"via\":" + expr(m->getBase()) + tail(e); }
                if (auto *f = dyn_cast<FunctionDecl>(m->getMemberDecl())) { need(f); return "{\"k\":\"Fn\",\"f\":" + esc(fkey(f)) + tail(e); }
                return "{\"k\":\"?\",\"n\":\"Member\"" + tail(e);
            }
            case Stmt::ArraySubscriptExprClass: {
                auto *a = cast<ArraySubscriptExpr>(e);
                return "{\"k\":\"Sub\",\"b\":" + expr(a->getBase()) + ",\"i\":" + expr(a->getIdx()) + tail(e);
            }
            case Stmt::UnaryOperatorClass: {
                auto *u = cast<UnaryOperator>(e);
                if (u->getOpcode() == UO_AddrOf)
                    if (auto *dr = dyn_cast<DeclRefExpr>(u->getSubExpr()->IgnoreParens())) {
                        if (auto *f = dyn_cast<FieldDecl>(dr->getDecl())) return "{\"k\":\"MemPtr\",\"n\":" + esc(fieldName(f)) + tail(e);
                        if (auto *f = dyn_cast<CXXMethodDecl>(dr->getDecl())) if (!f->isStatic()) { need(f); return "{\"k\":\"MemFn\",\"f\":" + esc(fkey(f)) + (f->isVirtual() ? ",\"v\":1" : "") + tail(e); }
                    }
                return "{\"k\":\"Un\",\"op\":" + esc(UnaryOperator::getOpcodeStr(u->getOpcode())) + ",\"post\":" + (u->isPostfix() ? "1" : "0") + ",\"e\":" + expr(u->getSubExpr()) + tail(e);
            }
            case Stmt::BinaryOperatorClass: {
                auto *b = cast<BinaryOperator>(e);
                return "{\"k\":\"Bin\",\"op\":" + esc(b->getOpcodeStr()) + ",\"a\":" + expr(b->getLHS()) + ",\"b\":" + expr(b->getRHS()) + tail(e);
            }
            case Stmt::CompoundAssignOperatorClass: {
                auto *b = cast<CompoundAssignOperator>(e);
                return "{\"k\":\"Asg\",\"op\":" + esc(b->getOpcodeStr()) + ",\"a\":" + expr(b->getLHS()) + ",\"b\":" + expr(b->getRHS()) + ",\"ct\":" + esc(type(b->getComputationResultType())) +
                       ",\"lt\":" + esc(type(b->getComputationLHSType())) + tail(e);
            }
            case Stmt::ConditionalOperatorClass: {
                auto *c = cast<ConditionalOperator>(e);
                return "{\"k\":\"Cond\",\"c\":" + expr(c->getCond()) + ",\"a\":" + expr(c->getTrueExpr()) + ",\"b\":" + expr(c->getFalseExpr()) + tail(e);
            }
            case Stmt::CXXThisExprClass: return "{\"k\":\"This\"" + tail(e);
            case Stmt::MaterializeTemporaryExprClass: return "{\"k\":\"Mat\",\"e\":" + expr(cast<MaterializeTemporaryExpr>(e)->getSubExpr()) + tail(e);
            case Stmt::CXXThrowExprClass: { auto *t = cast<CXXThrowExpr>(e); return "{\"k\":\"Throw\",\"e\":" + (t->getSubExpr() ? expr(t->getSubExpr()) : "null") + tail(e); }
            case Stmt::CXXScalarValueInitExprClass:
            case Stmt::ImplicitValueInitExprClass: return "{\"k\":\"Zero\"" + tail(e);
            case Stmt::InitListExprClass: {
                auto *i = cast<InitListExpr>(e);
                if (i->isSemanticForm() == false && i->getSemanticForm()) i = i->getSemanticForm();
                string r = "{\"k\":\"List\",\"a\":" + list(llvm::ArrayRef<const Expr *>((const Expr *const *)i->getInits(), i->getNumInits()));
                if (i->hasArrayFiller() && i->getArrayFiller()) r += ",\"fill\":" + expr(i->getArrayFiller());
                if (i->isTransparent()) r += ",\"tr\":1";
                return r + tail(e);
            }
            case Stmt::LambdaExprClass: {
                auto *l = cast<LambdaExpr>(e);
                for (auto *m : l->getLambdaClass()->methods()) if (m->getOverloadedOperator() == OO_Call && !m->isTemplated()) need(m);
                string r = "{\"k\":\"Lambda\",\"r\":" + esc(rkey(l->getLambdaClass())) + ",\"a\":[";
                bool first = true;
                for (auto i = l->capture_init_begin(); i != l->capture_init_end(); ++i) {
                    if (!first) r += ",";
                    first = false;
                    r += expr(*i);
                }
                return r + "]" + tail(e);
            }
            case Stmt::CXXConstructExprClass:
            case Stmt::CXXTemporaryObjectExprClass: {
                auto *c = cast<CXXConstructExpr>(e);
                need(c->getConstructor());
                string r = "{\"k\":\"Ctor\",\"f\":" + esc(fkey(c->getConstructor())) + ",\"a\":[";
                for (unsigned i = 0; i < c->getNumArgs(); ++i) r += (i ? "," : "") + expr(c->getArg(i));
                r += "]";
                if (c->requiresZeroInitialization()) r += ",\"z\":1";
                if (c->isStdInitListInitialization()) r += ",\"sil\":1";
                if (c->isElidable()) r += ",\"el\":1";
                return r + tail(e);
            }
            case Stmt::CXXInheritedCtorInitExprClass: return "{\"k\":\"InhCtor\"" + tail(e);
            case Stmt::CXXMemberCallExprClass: {
                auto *c = cast<CXXMemberCallExpr>(e);
                auto *m = c->getMethodDecl();
                if (!m) {
                    auto *bo = dyn_cast<BinaryOperator>(c->getCallee()->IgnoreParens());
                    if (bo) return "{\"k\":\"MPCall\",\"op\":" + esc(bo->getOpcodeStr()) + ",\"o\":" + expr(bo->getLHS()) + ",\"p\":" + expr(bo->getRHS()) + ",\"a\":" + args(c) + tail(e);
                    return "{\"k\":\"?\",\"n\":\"MemberCall\"" + tail(e);
                }
                need(m);
                auto *me = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens());
                bool virt = m->isVirtual() && me && !me->hasQualifier();
                return "{\"k\":\"MCall\",\"f\":" + esc(fkey(m)) + ",\"v\":" + (virt ? "1" : "0") + ",\"arrow\":" + (me && me->isArrow() ? "1" : "0") + ",\"o\":" + expr(c->getImplicitObjectArgument()) + ",\"a\":" + args(c) + tail(e);
            }
            case Stmt::CXXOperatorCallExprClass: {
                auto *c = cast<CXXOperatorCallExpr>(e);
                auto *f = c->getDirectCallee();
                if (!f) return "{\"k\":\"?\",\"n\":\"OpCall\"" + tail(e);
                need(f);
                auto *m = dyn_cast<CXXMethodDecl>(f);
                if (m && !m->isStatic()) {
                    return "{\"k\":\"MCall\",\"f\":" + esc(fkey(f)) + ",\"v\":" + (m->isVirtual() ? "1" : "0") + ",\"arrow\":0,\"o\":" + expr(c->getArg(0)) + ",\"a\":" + args(c, 1) + ",\"op\":1" + tail(e);
                }
                return "{\"k\":\"Call\",\"f\":" + esc(fkey(f)) + ",\"a\":" + args(c, m ? 1 : 0) + tail(e);
            }
            case Stmt::UserDefinedLiteralClass:
            case Stmt::CallExprClass: {
                auto *c = cast<CallExpr>(e);
                if (auto *f = c->getDirectCallee()) {
                    need(f);
                    return "{\"k\":\"Call\",\"f\":" + esc(fkey(f)) + ",\"a\":" + args(c) + tail(e);
                }
                return "{\"k\":\"PCall\",\"c\":" + expr(c->getCallee()) + ",\"a\":" + args(c) + tail(e);
            }
            case Stmt::BuiltinBitCastExprClass: return "{\"k\":\"BitCast\",\"e\":" + expr(cast<CastExpr>(e)->getSubExpr()) + tail(e);
            case Stmt::ArrayInitLoopExprClass: return "{\"k\":\"ArrLoop\",\"e\":" + expr(cast<ArrayInitLoopExpr>(e)->getCommonExpr()->getSourceExpr()) + tail(e);
            case Stmt::OpaqueValueExprClass: { auto *o = cast<OpaqueValueExpr>(e); return o->getSourceExpr() ? expr(o->getSourceExpr()) : "{\"k\":\"Opaque\"" + tail(e); }
            case Stmt::CXXNewExprClass: { auto *n = cast<CXXNewExpr>(e); return "{\"k\":\"New\",\"pl\":" + std::to_string(n->getNumPlacementArgs()) + ",\"p\":" + (n->getNumPlacementArgs() ? expr(n->getPlacementArg(0)) : "null") + ",\"i\":" + (n->getInitializer() ? expr(n->getInitializer()) : "null") + ",\"at\":" + esc(type(n->getAllocatedType())) + tail(e); }
            case Stmt::CXXDeleteExprClass: return "{\"k\":\"Delete\"" + tail(e);
            case Stmt::CXXPseudoDestructorExprClass: return "{\"k\":\"Opaque\"" + tail(e);
            case Stmt::StmtExprClass: return "{\"k\":\"?\",\"n\":\"StmtExpr\"" + tail(e);
            default: break;
        }
        if (auto *c = dyn_cast<CastExpr>(e)) {
            string x = "i";
            if (isa<CXXConstCastExpr>(c)) x = "const";
            else if (isa<CXXReinterpretCastExpr>(c)) x = "reint";
            else if (isa<CXXStaticCastExpr>(c)) x = "static";
            else if (isa<CXXDynamicCastExpr>(c)) x = "dyn";
            else if (isa<CStyleCastExpr>(c)) x = "c";
            else if (isa<CXXFunctionalCastExpr>(c)) x = "fun";
            if (c->getCastKind() == CK_ConstructorConversion || c->getCastKind() == CK_UserDefinedConversion) {
                if (x == "i" || x == "static" || x == "c" || x == "fun") return expr(c->getSubExpr());
            }
            string r = "{\"k\":\"Cast\",\"ck\":" + esc(c->getCastKindName()) + ",\"x\":" + esc(x) + ",\"e\":" + expr(c->getSubExpr());
            if (c->getCastKind() == CK_DerivedToBase || c->getCastKind() == CK_UncheckedDerivedToBase) {}
            return r + tail(e);
        }
        return "{\"k\":\"?\",\"n\":" + esc(e->getStmtClassName()) + tail(e);
    }
    string tail(const Expr *e) {
        string r = ",\"t\":" + esc(type(e->getType()));
        if (e->isGLValue()) r += ",\"lv\":1";
        r += L(e->getExprLoc());
        return r + "}";
    }

    void run() {
        while (!work.empty() || !gwork.empty()) {
            if (!work.empty()) {
                auto *f = work.back();
                work.pop_back();
                function(f);
            } else {
                auto *v = gwork.back();
                gwork.pop_back();
                global(v);
            }
        }
    }
    void write() {
        std::error_code ec;
        llvm::raw_fd_ostream os(OutFile, ec);
        auto sec = [&](const char *n, std::map<string, string> &m, bool last = false) {
            os << "\"" << n << "\":{";
            bool first = true;
            for (auto &p : m) {
                if (!first) os << ",\n";
                first = false;
                os << esc(p.first) << ":" << p.second;
            }
            os << "}" << (last ? "" : ",\n");
        };
        os << "{";
        sec("types", types);
        sec("records", records);
        sec("funcs", funcs);
        sec("globals", globals, true);
        os << "}\n";
    }
};

class Roots : public RecursiveASTVisitor<Roots> {
   public:
    Dumper &D;
    Roots(Dumper &d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool want(SourceLocation l) { return D.inRepo(l) || D.file(l).find("witness") != string::npos; }
    bool VisitFunctionDecl(FunctionDecl *f) {
        if (f->isTemplated()) return true;
        if (!want(f->getLocation())) return true;
        if (f->doesThisDeclarationHaveABody() || f->isDefaulted()) D.need(f);
        return true;
    }
    bool VisitVarDecl(VarDecl *v) {
        if (!v->hasGlobalStorage() || v->isTemplated() || !want(v->getLocation())) return true;
        if (v->getType()->isDependentType() || v->getType()->isUndeducedType()) return true;
        D.needGlobal(v);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *r) {
        if (r->isDependentContext() || !want(r->getLocation()) || !r->isThisDeclarationADefinition()) return true;
        D.rkey(r);
        return true;
    }
};

class Consumer : public ASTConsumer {
   public:
    void HandleTranslationUnit(ASTContext &C) override {
        if (C.getDiagnostics().hasErrorOccurred()) return;
        Dumper d(C);
        Roots r(d);
        r.TraverseDecl(C.getTranslationUnitDecl());
        d.run();
        d.write();
    }
};
class Action : public ASTFrontendAction {
   public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};

int main(int argc, const char **argv) {
    if (argc < 6) return 3;
    RepoDir = argv[1];
    Tag = argv[2];
    OutFile = argv[3];
    std::vector<string> args;
    args.push_back("clang++");
    for (int i = 6; i < argc; ++i) args.push_back(argv[i]);
    args.push_back("-fsyntax-only");
    args.push_back(argv[4]);
    llvm::IntrusiveRefCntPtr<FileManager> fm(new FileManager(FileSystemOptions()));
    tooling::ToolInvocation inv(args, std::make_unique<Action>(), fm.get());
    return inv.run() ? 0 : 1;
}
