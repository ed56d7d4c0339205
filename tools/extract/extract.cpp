// AST extractor: parses one translation unit with clang and writes, as JSON, the typed
// statement trees of every function reachable from the functions in namespace `vp`.
// It descends into definitions whose file lies under one of the given prefixes
// (the carl sources, the driver itself and the header-only boost pieces named on the
// command line); every other callee is emitted as an external stub (name and signature).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <fstream>
#include <map>
#include <set>
#include <sstream>

using namespace clang;

static std::vector<std::string> gPrefixes;
static std::string gOut;

static std::string esc(llvm::StringRef s) {
	std::string r = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
		else if (c == '\n') r += "\\n";
		else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
		else r += char(c);
	}
	return r + "\"";
}

class Emitter {
public:
	ASTContext& C;
	SourceManager& SM;
	PrintingPolicy PP;
	std::map<std::string, unsigned> typeIdx;
	std::vector<std::string> typeJson;
	std::map<const Decl*, unsigned> declIds;
	std::deque<const FunctionDecl*> work;
	std::set<const FunctionDecl*> queued;
	std::map<unsigned, std::string> funcJson;
	std::map<unsigned, std::string> varJson;
	std::map<unsigned, std::string> recJson;
	std::set<const CXXRecordDecl*> recDone;
	std::deque<const VarDecl*> varWork;
	std::set<const VarDecl*> varQueued;

	explicit Emitter(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
		PP.SuppressTagKeyword = true;
		PP.PrintCanonicalTypes = true;
		PP.AnonymousTagLocations = true;
		PP.FullyQualifiedName = true;
	}
	unsigned idOf(const Decl* d) {
		d = d->getCanonicalDecl();
		auto it = declIds.find(d);
		if (it != declIds.end()) return it->second;
		unsigned n = declIds.size() + 1;
		declIds[d] = n;
		return n;
	}
	std::string fileOf(SourceLocation l) {
		l = SM.getExpansionLoc(l);
		return SM.getFilename(l).str();
	}
	bool inScope(const FunctionDecl* f) {
		std::string fn = fileOf(f->getLocation());
		for (auto& p : gPrefixes) if (fn.find(p) != std::string::npos) return true;
		return false;
	}
	std::string qname(const NamedDecl* d) {
		std::string s; llvm::raw_string_ostream os(s);
		// qualified name without template arguments
		d->printQualifiedName(os, PP);
		return os.str();
	}
	unsigned ty(QualType q) {
		QualType c = q.getCanonicalType();
		std::string key = c.getAsString(PP);
		auto it = typeIdx.find(key);
		if (it != typeIdx.end()) return it->second;
		unsigned n = typeJson.size();
		typeIdx[key] = n;
		typeJson.push_back("");
		std::ostringstream o;
		o << "{\"s\":" << esc(key);
		if (c.isConstQualified()) o << ",\"const\":1";
		QualType u = c.getUnqualifiedType();
		if (u->isReferenceType()) {
			o << ",\"k\":\"ref\",\"p\":" << ty(u->getPointeeType());
			if (u->isRValueReferenceType()) o << ",\"rv\":1";
		} else if (u->isMemberPointerType()) {
			o << ",\"k\":\"memptr\"";
		} else if (u->isPointerType()) {
			o << ",\"k\":\"ptr\",\"p\":" << ty(u->getPointeeType());
		} else if (u->isBooleanType()) {
			o << ",\"k\":\"bool\"";
		} else if (u->isEnumeralType()) {
			const auto* ed = u->castAs<EnumType>()->getDecl();
			o << ",\"k\":\"enum\",\"q\":" << esc(qname(ed));
			if (ed->isComplete() && !ed->getIntegerType().isNull()) {
				o << ",\"w\":" << C.getIntWidth(ed->getIntegerType()) << ",\"sg\":" << (ed->getIntegerType()->isSignedIntegerType() ? 1 : 0);
			}
			o << ",\"v\":{";
			bool first = true;
			for (const auto* ec : ed->enumerators()) {
				if (!first) o << ",";
				first = false;
				llvm::SmallString<32> s; ec->getInitVal().toString(s, 10);
				o << esc(ec->getName()) << ":" << s.c_str();
			}
			o << "}";
		} else if (u->isIntegerType()) {
			o << ",\"k\":\"int\",\"w\":" << C.getIntWidth(u) << ",\"sg\":" << (u->isSignedIntegerType() ? 1 : 0);
		} else if (u->isFloatingType()) {
			o << ",\"k\":\"float\"";
		} else if (u->isVoidType()) {
			o << ",\"k\":\"void\"";
		} else if (u->isNullPtrType()) {
			o << ",\"k\":\"nullptr\"";
		} else if (const auto* at = C.getAsConstantArrayType(u)) {
			o << ",\"k\":\"arr\",\"e\":" << ty(at->getElementType()) << ",\"n\":" << at->getSize().getZExtValue();
		} else if (const auto* rd = u->getAsCXXRecordDecl()) {
			o << ",\"k\":\"rec\",\"q\":" << esc(qname(rd)) << ",\"d\":" << idOf(rd);
			if (rd->isLambda()) o << ",\"lambda\":1";
			if (const auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
				o << ",\"a\":[";
				bool first = true;
				std::function<void(const TemplateArgument&)> put = [&](const TemplateArgument& a) {
					if (a.getKind() == TemplateArgument::Pack) { for (const auto& b : a.pack_elements()) put(b); return; }
					if (!first) o << ",";
					first = false;
					if (a.getKind() == TemplateArgument::Type) o << ty(a.getAsType());
					else if (a.getKind() == TemplateArgument::Integral) { llvm::SmallString<32> s; a.getAsIntegral().toString(s, 10); o << "{\"i\":" << s.c_str() << "}"; }
					else if (a.getKind() == TemplateArgument::Declaration) o << "{\"d\":" << esc(qname(a.getAsDecl())) << "}";
					else o << "{\"x\":1}";
				};
				for (const auto& a : sp->getTemplateArgs().asArray()) put(a);
				o << "]";
			}
			record(rd);
		} else if (u->isFunctionType()) {
			o << ",\"k\":\"fn\"";
		} else {
			o << ",\"k\":\"other\"";
		}
		o << "}";
		typeJson[n] = o.str();
		return n;
	}
	void record(const CXXRecordDecl* rd0) {
		const CXXRecordDecl* rd = rd0->getDefinition();
		if (!rd || !recDone.insert(rd).second) return;
		if (rd->isDependentContext()) return;
		std::string fn = fileOf(rd->getLocation());
		bool sc = false;
		for (auto& p : gPrefixes) if (fn.find(p) != std::string::npos) sc = true;
		if (!sc && !rd->isLambda()) return;
		unsigned id = idOf(rd);
		std::ostringstream o;
		o << "{\"q\":" << esc(qname(rd)) << ",\"f\":[";
		bool first = true;
		for (const auto* f : rd->fields()) {
			if (!first) o << ",";
			first = false;
			o << "{\"n\":" << esc(f->getName()) << ",\"t\":" << ty(f->getType());
			if (f->hasInClassInitializer() && f->getInClassInitializer()) o << ",\"i\":" << expr(f->getInClassInitializer());
			o << "}";
		}
		o << "],\"b\":[";
		first = true;
		for (const auto& b : rd->bases()) {
			if (!first) o << ",";
			first = false;
			o << ty(b.getType());
		}
		o << "]";
		if (rd->isLambda()) {
			// call operator(s)
			o << ",\"ops\":[";
			first = true;
			auto put = [&](const FunctionDecl* f) {
				if (!f || !f->doesThisDeclarationHaveABody()) return;
				if (f->isDependentContext()) return;
				if (!first) o << ",";
				first = false;
				o << func(f);
			};
			const CXXMethodDecl* m = rd->getLambdaCallOperator();
			if (m) {
				if (auto* ft = m->getDescribedFunctionTemplate()) {
					for (auto* s : ft->specializations()) put(s);
				} else put(m);
			}
			o << "]";
		}
		o << "}";
		recJson[id] = o.str();
	}
	const FunctionDecl* defOf(const FunctionDecl* f) {
		const FunctionDecl* d = nullptr;
		if (f->hasBody(d)) return d;
		if (f->isDefined(d)) return d;
		return f;
	}
	unsigned func(const FunctionDecl* f0) {
		const FunctionDecl* f = defOf(f0);
		unsigned id = idOf(f);
		const FunctionDecl* cf = f->getCanonicalDecl();
		if (queued.insert(cf).second) work.push_back(f);
		return id;
	}
	unsigned var(const VarDecl* v) {
		const VarDecl* c = v->getCanonicalDecl();
		unsigned id = idOf(c);
		if (v->hasGlobalStorage() && varQueued.insert(c).second) varWork.push_back(v);
		return id;
	}
	void emitVar(const VarDecl* v) {
		unsigned id = idOf(v);
		std::ostringstream o;
		const VarDecl* d = v->getDefinition(C);
		if (!d) d = v;
		o << "{\"n\":" << esc(qname(v)) << ",\"t\":" << ty(v->getType());
		std::string fn = fileOf(d->getLocation());
		bool sc = false;
		for (auto& p : gPrefixes) if (fn.find(p) != std::string::npos) sc = true;
		const Expr* init = d->getAnyInitializer();
		if (init && sc && !init->isTypeDependent() && !init->isValueDependent()) o << ",\"i\":" << expr(init);
		if (d->isStaticLocal()) o << ",\"sl\":1";
		o << "}";
		varJson[id] = o.str();
	}
	void emitFunc(const FunctionDecl* f) {
		unsigned id = idOf(f);
		std::ostringstream o;
		o << "{\"n\":" << esc(qname(f)) << ",\"rt\":" << ty(f->getReturnType()) << ",\"p\":[";
		bool first = true;
		for (const auto* p : f->parameters()) {
			if (!first) o << ",";
			first = false;
			o << "{\"id\":" << idOf(p) << ",\"n\":" << esc(p->getName()) << ",\"t\":" << ty(p->getType()) << "}";
		}
		o << "]";
		PresumedLoc pl = SM.getPresumedLoc(SM.getExpansionLoc(f->getLocation()));
		if (pl.isValid()) o << ",\"file\":" << esc(pl.getFilename()) << ",\"line\":" << pl.getLine();
		if (const auto* ta = f->getTemplateSpecializationArgs()) {
			o << ",\"ta\":[";
			bool ff = true;
			std::function<void(const TemplateArgument&)> put = [&](const TemplateArgument& a) {
				if (a.getKind() == TemplateArgument::Pack) { for (const auto& b : a.pack_elements()) put(b); return; }
				if (!ff) o << ",";
				ff = false;
				if (a.getKind() == TemplateArgument::Type) o << ty(a.getAsType());
				else if (a.getKind() == TemplateArgument::Integral) { llvm::SmallString<32> s; a.getAsIntegral().toString(s, 10); o << "{\"i\":" << s.c_str() << "}"; }
				else o << "{\"x\":1}";
			};
			for (const auto& a : ta->asArray()) put(a);
			o << "]";
		}
		if (const auto* m = dyn_cast<CXXMethodDecl>(f)) {
			o << ",\"m\":1,\"cls\":" << ty(C.getRecordType(m->getParent()));
			if (m->isStatic()) o << ",\"st\":1";
			if (m->isConst()) o << ",\"cm\":1";
			if (m->isCopyAssignmentOperator()) o << ",\"ca\":1";
			if (m->isMoveAssignmentOperator()) o << ",\"ma\":1";
		}
		if (f->isDefaulted() || f->isImplicit()) o << ",\"df\":1";
		if (f->isDeleted()) o << ",\"del\":1";
		if (const auto* c = dyn_cast<CXXConstructorDecl>(f)) {
			o << ",\"ctor\":1";
			if (c->isCopyConstructor()) o << ",\"cc\":1";
			if (c->isMoveConstructor()) o << ",\"mc\":1";
			if (c->isDefaultConstructor()) o << ",\"dc\":1";
		}
		if (isa<CXXConversionDecl>(f)) o << ",\"conv\":1";
		if (isa<CXXDestructorDecl>(f)) o << ",\"dtor\":1";
		if (f->hasBody() && inScope(f) && !f->isDependentContext()) {
			if (const auto* c = dyn_cast<CXXConstructorDecl>(f)) {
				o << ",\"inits\":[";
				bool ff = true;
				for (const auto* in : c->inits()) {
					if (!ff) o << ",";
					ff = false;
					if (in->isAnyMemberInitializer()) o << "{\"f\":" << esc(in->getAnyMember()->getName()) << ",\"e\":" << expr(in->getInit()) << "}";
					else if (in->isBaseInitializer()) o << "{\"b\":" << ty(QualType(in->getBaseClass(), 0)) << ",\"e\":" << expr(in->getInit()) << "}";
					else o << "{\"d\":1,\"e\":" << expr(in->getInit()) << "}";
				}
				o << "]";
			}
			o << ",\"body\":" << stmt(f->getBody());
		}
		o << "}";
		funcJson[id] = o.str();
	}
	std::string kids(const Stmt* s) {
		std::ostringstream o;
		o << ",\"c\":[";
		bool first = true;
		for (const Stmt* c : s->children()) {
			if (!first) o << ",";
			first = false;
			o << stmt(c);
		}
		o << "]";
		return o.str();
	}
	std::string stmt(const Stmt* s) {
		if (!s) return "null";
		if (const auto* e = dyn_cast<Expr>(s)) return expr(e);
		std::ostringstream o;
		unsigned line = SM.getExpansionLineNumber(s->getBeginLoc());
		o << "{\"k\":" << esc(s->getStmtClassName()) << ",\"l\":" << line;
		if (const auto* d = dyn_cast<DeclStmt>(s)) {
			o << ",\"d\":[";
			bool first = true;
			for (const auto* dd : d->decls()) {
				const auto* v = dyn_cast<VarDecl>(dd);
				if (!v) continue;
				if (!first) o << ",";
				first = false;
				o << vardecl(v);
			}
			o << "]";
		} else if (const auto* i = dyn_cast<IfStmt>(s)) {
			if (i->isConstexpr()) o << ",\"cx\":1";
			o << ",\"init\":" << stmt(i->getInit()) << ",\"cv\":" << stmt(i->getConditionVariableDeclStmt()) << ",\"cond\":" << expr(i->getCond()) << ",\"then\":" << stmt(i->getThen()) << ",\"else\":" << stmt(i->getElse());
		} else if (const auto* f = dyn_cast<ForStmt>(s)) {
			o << ",\"init\":" << stmt(f->getInit()) << ",\"cond\":" << stmt(f->getCond()) << ",\"inc\":" << stmt(f->getInc()) << ",\"body\":" << stmt(f->getBody());
		} else if (const auto* w = dyn_cast<WhileStmt>(s)) {
			o << ",\"cv\":" << stmt(w->getConditionVariableDeclStmt()) << ",\"cond\":" << stmt(w->getCond()) << ",\"body\":" << stmt(w->getBody());
		} else if (const auto* d2 = dyn_cast<DoStmt>(s)) {
			o << ",\"cond\":" << stmt(d2->getCond()) << ",\"body\":" << stmt(d2->getBody());
		} else if (const auto* r = dyn_cast<CXXForRangeStmt>(s)) {
			o << ",\"init\":" << stmt(r->getInit()) << ",\"range\":" << stmt(r->getRangeStmt()) << ",\"begin\":" << stmt(r->getBeginStmt()) << ",\"end\":" << stmt(r->getEndStmt())
			  << ",\"cond\":" << stmt(r->getCond()) << ",\"inc\":" << stmt(r->getInc()) << ",\"lv\":" << stmt(r->getLoopVarStmt()) << ",\"body\":" << stmt(r->getBody());
		} else if (const auto* sw = dyn_cast<SwitchStmt>(s)) {
			o << ",\"init\":" << stmt(sw->getInit()) << ",\"cond\":" << stmt(sw->getCond()) << ",\"body\":" << stmt(sw->getBody());
		} else if (const auto* cs = dyn_cast<CaseStmt>(s)) {
			o << ",\"lhs\":" << stmt(cs->getLHS()) << ",\"sub\":" << stmt(cs->getSubStmt());
		} else if (const auto* ds = dyn_cast<DefaultStmt>(s)) {
			o << ",\"sub\":" << stmt(ds->getSubStmt());
		} else if (const auto* rs = dyn_cast<ReturnStmt>(s)) {
			o << ",\"e\":" << stmt(rs->getRetValue());
		} else {
			o << kids(s);
		}
		o << "}";
		return o.str();
	}
	std::string vardecl(const VarDecl* v) {
		std::ostringstream o;
		o << "{\"id\":" << var(v) << ",\"n\":" << esc(v->getName()) << ",\"t\":" << ty(v->getType());
		if (v->isStaticLocal()) o << ",\"sl\":1";
		if (const auto* dd = dyn_cast<DecompositionDecl>(v)) {
			o << ",\"bind\":[";
			bool first = true;
			for (const auto* b : dd->bindings()) {
				if (!first) o << ",";
				first = false;
				o << "{\"id\":" << idOf(b) << ",\"n\":" << esc(b->getName());
				if (b->getHoldingVar()) o << ",\"hv\":" << vardecl(b->getHoldingVar());
				else if (b->getBinding()) o << ",\"e\":" << expr(b->getBinding());
				o << "}";
			}
			o << "]";
		}
		if (v->getInit()) o << ",\"i\":" << expr(v->getInit());
		o << "}";
		return o.str();
	}
	std::string expr(const Expr* e) {
		if (!e) return "null";
		// transparent nodes
		if (const auto* x = dyn_cast<ParenExpr>(e)) return expr(x->getSubExpr());
		if (const auto* x = dyn_cast<ExprWithCleanups>(e)) return expr(x->getSubExpr());
		if (const auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(x->getSubExpr());
		if (const auto* x = dyn_cast<ConstantExpr>(e)) return expr(x->getSubExpr());
		if (const auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(x->getReplacement());
		if (const auto* x = dyn_cast<CXXDefaultArgExpr>(e)) return expr(x->getExpr());
		if (const auto* x = dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
		if (const auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) return expr(x->getSemanticForm());
		if (const auto* x = dyn_cast<OpaqueValueExpr>(e)) if (x->getSourceExpr()) return expr(x->getSourceExpr());
		std::ostringstream o;
		unsigned line = SM.getExpansionLineNumber(e->getBeginLoc());
		o << "{\"k\":" << esc(e->getStmtClassName()) << ",\"l\":" << line << ",\"t\":" << ty(e->getType());
		if (e->isLValue()) o << ",\"lv\":1";
		else if (e->isXValue()) o << ",\"xv\":1";
		if (!e->isValueDependent() && !e->isTypeDependent() && e->getType()->isIntegralOrEnumerationType() && !e->isLValue()) {
			Expr::EvalResult r;
			if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) {
				llvm::SmallString<32> s; r.Val.getInt().toString(s, 10);
				o << ",\"cv\":" << s.c_str();
			}
		}
		if (const auto* x = dyn_cast<DeclRefExpr>(e)) {
			const ValueDecl* d = x->getDecl();
			o << ",\"n\":" << esc(d->getNameAsString());
			if (const auto* f = dyn_cast<FunctionDecl>(d)) o << ",\"rk\":\"fn\",\"r\":" << func(f);
			else if (const auto* v = dyn_cast<VarDecl>(d)) { o << ",\"rk\":\"var\",\"r\":" << var(v); if (v->hasGlobalStorage()) o << ",\"gl\":1"; }
			else if (const auto* ec = dyn_cast<EnumConstantDecl>(d)) { llvm::SmallString<32> s; ec->getInitVal().toString(s, 10); o << ",\"rk\":\"enum\",\"v\":" << s.c_str(); }
			else if (const auto* b = dyn_cast<BindingDecl>(d)) {
				o << ",\"rk\":\"bind\",\"r\":" << idOf(b);
			}
			else o << ",\"rk\":\"other\",\"r\":" << idOf(d);
		} else if (const auto* x = dyn_cast<MemberExpr>(e)) {
			const ValueDecl* d = x->getMemberDecl();
			o << ",\"n\":" << esc(d->getNameAsString()) << ",\"arrow\":" << (x->isArrow() ? 1 : 0);
			if (const auto* f = dyn_cast<FunctionDecl>(d)) o << ",\"rk\":\"fn\",\"r\":" << func(f);
			else if (const auto* v = dyn_cast<VarDecl>(d)) o << ",\"rk\":\"var\",\"r\":" << var(v);
			else if (isa<FieldDecl>(d)) o << ",\"rk\":\"fld\"";
			o << ",\"b\":" << expr(x->getBase());
		} else if (const auto* x = dyn_cast<IntegerLiteral>(e)) {
			llvm::SmallString<32> s; x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
			o << ",\"v\":" << esc(s);
		} else if (const auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) {
			o << ",\"v\":" << (x->getValue() ? "true" : "false");
		} else if (const auto* x = dyn_cast<FloatingLiteral>(e)) {
			llvm::SmallString<32> s; x->getValue().toString(s);
			o << ",\"v\":" << esc(s);
		} else if (const auto* x = dyn_cast<StringLiteral>(e)) {
			o << ",\"v\":" << (x->isOrdinary() || x->isUTF8() ? esc(x->getString()) : "\"\"");
		} else if (const auto* x = dyn_cast<CharacterLiteral>(e)) {
			o << ",\"v\":" << x->getValue();
		} else if (const auto* x = dyn_cast<UnaryOperator>(e)) {
			o << ",\"op\":" << esc(UnaryOperator::getOpcodeStr(x->getOpcode())) << ",\"post\":" << (x->isPostfix() ? 1 : 0) << ",\"e\":" << expr(x->getSubExpr());
		} else if (const auto* x = dyn_cast<CompoundAssignOperator>(e)) {
			o << ",\"op\":" << esc(x->getOpcodeStr()) << ",\"ct\":" << ty(x->getComputationResultType()) << ",\"a\":" << expr(x->getLHS()) << ",\"b\":" << expr(x->getRHS());
		} else if (const auto* x = dyn_cast<BinaryOperator>(e)) {
			o << ",\"op\":" << esc(x->getOpcodeStr()) << ",\"a\":" << expr(x->getLHS()) << ",\"b\":" << expr(x->getRHS());
		} else if (const auto* x = dyn_cast<ConditionalOperator>(e)) {
			o << ",\"cond\":" << expr(x->getCond()) << ",\"a\":" << expr(x->getTrueExpr()) << ",\"b\":" << expr(x->getFalseExpr());
		} else if (const auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
			o << ",\"f\":" << expr(x->getCallee()) << ",\"a\":[";
			for (unsigned i = 0; i < x->getNumArgs(); ++i) { if (i) o << ","; o << expr(x->getArg(i)); }
			o << "]";
		} else if (const auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
			o << ",\"f\":" << expr(x->getCallee()) << ",\"a\":[";
			for (unsigned i = 0; i < x->getNumArgs(); ++i) { if (i) o << ","; o << expr(x->getArg(i)); }
			o << "]";
		} else if (const auto* x = dyn_cast<CallExpr>(e)) {
			o << ",\"f\":" << expr(x->getCallee()) << ",\"a\":[";
			for (unsigned i = 0; i < x->getNumArgs(); ++i) { if (i) o << ","; o << expr(x->getArg(i)); }
			o << "]";
		} else if (const auto* x = dyn_cast<CXXConstructExpr>(e)) {
			o << ",\"r\":" << func(x->getConstructor()) << ",\"el\":" << (x->isElidable() ? 1 : 0) << ",\"il\":" << (x->isStdInitListInitialization() ? 1 : 0) << ",\"a\":[";
			for (unsigned i = 0; i < x->getNumArgs(); ++i) { if (i) o << ","; o << expr(x->getArg(i)); }
			o << "]";
		} else if (const auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
			o << ",\"r\":" << func(x->getConstructor());
		} else if (const auto* x = dyn_cast<CastExpr>(e)) {
			o << ",\"ck\":" << esc(x->getCastKindName()) << ",\"e\":" << expr(x->getSubExpr());
			if (x->getCastKind() == CK_ConstructorConversion || x->getCastKind() == CK_UserDefinedConversion) {
				if (const auto* cf = dyn_cast_or_null<FunctionDecl>(x->getConversionFunction())) o << ",\"r\":" << func(cf);
			}
		} else if (const auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) {
			o << ",\"e\":" << expr(x->getSubExpr());
		} else if (const auto* x = dyn_cast<InitListExpr>(e)) {
			const InitListExpr* il = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x);
			o << ",\"a\":[";
			for (unsigned i = 0; i < il->getNumInits(); ++i) { if (i) o << ","; o << expr(il->getInit(i)); }
			o << "]";
		} else if (const auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) {
			o << ",\"e\":" << expr(x->getSubExpr());
		} else if (const auto* x = dyn_cast<LambdaExpr>(e)) {
			record(x->getLambdaClass());
			o << ",\"cls\":" << idOf(x->getLambdaClass()->getDefinition()) << ",\"caps\":[";
			bool first = true;
			auto ii = x->capture_init_begin();
			for (const auto& c : x->captures()) {
				if (!first) o << ",";
				first = false;
				if (c.capturesThis()) o << "{\"this\":1}";
				else if (c.capturesVariable()) {
					o << "{\"id\":" << idOf(c.getCapturedVar()) << ",\"ref\":" << (c.getCaptureKind() == LCK_ByRef ? 1 : 0) << ",\"i\":" << expr(*ii) << "}";
				} else o << "{}";
				++ii;
			}
			o << "]";
		} else if (const auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
			o << ",\"a\":" << expr(x->getBase()) << ",\"b\":" << expr(x->getIdx());
		} else if (const auto* x = dyn_cast<CXXNewExpr>(e)) {
			o << ",\"at\":" << ty(x->getAllocatedType()) << ",\"arr\":" << (x->isArray() ? 1 : 0);
			if (x->isArray() && x->getArraySize()) o << ",\"sz\":" << expr(*x->getArraySize());
			o << ",\"i\":" << expr(x->getInitializer());
		} else if (const auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
			(void)x;
		} else if (isa<CXXThisExpr>(e) || isa<CXXNullPtrLiteralExpr>(e) || isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e) || isa<PredefinedExpr>(e)) {
		} else {
			o << kids(e);
		}
		o << "}";
		return o.str();
	}
	void run(std::vector<const FunctionDecl*> roots) {
		std::ostringstream rs;
		bool first = true;
		for (auto* f : roots) {
			if (!first) rs << ",";
			first = false;
			rs << func(f);
		}
		while (!work.empty() || !varWork.empty()) {
			if (!work.empty()) { auto* f = work.front(); work.pop_front(); emitFunc(f); }
			else { auto* v = varWork.front(); varWork.pop_front(); emitVar(v); }
		}
		std::ofstream out(gOut);
		out << "{\"roots\":[" << rs.str() << "],\n\"types\":[";
		for (size_t i = 0; i < typeJson.size(); ++i) { if (i) out << ",\n"; out << typeJson[i]; }
		out << "],\n\"recs\":{";
		first = true;
		for (auto& p : recJson) { if (!first) out << ",\n"; first = false; out << "\"" << p.first << "\":" << p.second; }
		out << "},\n\"vars\":{";
		first = true;
		for (auto& p : varJson) { if (!first) out << ",\n"; first = false; out << "\"" << p.first << "\":" << p.second; }
		out << "},\n\"funcs\":{";
		first = true;
		for (auto& p : funcJson) { if (!first) out << ",\n"; first = false; out << "\"" << p.first << "\":" << p.second; }
		out << "}}\n";
	}
};

class RootFinder : public RecursiveASTVisitor<RootFinder> {
public:
	std::vector<const FunctionDecl*> roots;
	bool shouldVisitTemplateInstantiations() const { return false; }
	bool VisitFunctionDecl(FunctionDecl* f) {
		if (!f->isThisDeclarationADefinition() || f->isDependentContext()) return true;
		const DeclContext* dc = f->getDeclContext();
		if (const auto* ns = dyn_cast<NamespaceDecl>(dc)) if (ns->getName() == "vp") roots.push_back(f);
		return true;
	}
};

class Consumer : public ASTConsumer {
public:
	CompilerInstance& CI;
	explicit Consumer(CompilerInstance& ci) : CI(ci) {}
	void HandleTranslationUnit(ASTContext& ctx) override {
		if (ctx.getDiagnostics().hasErrorOccurred()) return;
		RootFinder rf;
		rf.TraverseDecl(ctx.getTranslationUnitDecl());
		Emitter em(ctx);
		em.run(rf.roots);
	}
};
class Action : public ASTFrontendAction {
public:
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, llvm::StringRef) override { return std::make_unique<Consumer>(ci); }
};

int main(int argc, const char** argv) {
	// extract OUT.json FILE.cpp PREFIX[,PREFIX...] -- clang flags
	if (argc < 5) { llvm::errs() << "usage: extract OUT FILE PREFIXES -- flags\n"; return 2; }
	gOut = argv[1];
	std::string file = argv[2];
	std::stringstream ps(argv[3]);
	std::string p;
	while (std::getline(ps, p, ',')) gPrefixes.push_back(p);
	std::vector<std::string> flags;
	for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
	clang::tooling::FixedCompilationDatabase db(".", flags);
	clang::tooling::ClangTool tool(db, {file});
	return tool.run(clang::tooling::newFrontendActionFactory<Action>().get());
}
