// Run-time oracles for monomials and terms (bounded stand-in and replay target): exponent maps over ordered variables.
// links: carl/numbers/adaption_gmpxx/operations.cpp carl/core/VariablePool.cpp carl/core/Variable.cpp carl/util/Pool.cpp carl/core/MonomialPool.cpp carl/core/Monomial.cpp carl/core/polynomialfunctions/GCD_Monomial.cpp
#include "types.h"
#include <carl/core/Monomial.h>
#include <carl/core/MonomialPool.h>
#include <carl/core/MonomialOrdering.h>
#include <carl/core/VariablePool.h>
#include <carl/core/Term.h>
#include <carl/core/polynomialfunctions/GCD_Monomial.h>
#include <carl/core/polynomialfunctions/SeparablePart.h>
#include <carl/core/polynomialfunctions/Power.h>
#include <carl/core/polynomialfunctions/Derivative.h>
#include <carl/core/polynomialfunctions/Degree.h>
using Q = mpq_class; using M = carl::Monomial; using A = M::Arg; using T = carl::Term<Q>; using V = carl::Variable; using EM = std::map<int, std::size_t>;
struct Mo { EM e; }; struct Vr { int r = 0; }; struct Sm { long n = 0; }; struct Rl { std::string s; };
static V VV(int r) { static std::vector<V> vs; while ((int)vs.size() <= r) vs.push_back(carl::freshRealVariable()); return vs[r]; }
static std::string show(const EM& e) { std::string s; for (auto& p : e) s += (s.empty() ? "" : ",") + std::to_string(p.first) + ":" + std::to_string(p.second); return s.empty() ? "-" : s; }
namespace hh {
template<> struct Arg<Mo> {
	static std::vector<Mo> all() { std::vector<Mo> r; for (std::size_t a = 0; a < 3; ++a) for (std::size_t b = 0; b < 3; ++b) for (std::size_t c = 0; c < 3; ++c) { Mo m; if (a) m.e[0] = a; if (b) m.e[1] = b; if (c) m.e[2] = c; r.push_back(m); } return r; }
	static Mo gen(Rng& r) { Mo m; auto n = r.below(3) ? r.below(4) : r.below(9); for (std::size_t i = 0; i < n; ++i) m.e[(int)r.below(r.coin() ? 4 : 10)] = r.below(5) ? 1 + r.below(4) : 1 + r.below(r.below(3) ? 40 : 70000); if (r.below(5) == 0) for (auto& p : m.e) p.second = 2 * p.second; return m; }
	static std::string str(const Mo& m) { return show(m.e); }
	static Mo parse(const std::string& s) { Mo m; if (s == "-" || s.empty()) return m; std::stringstream ss(s); std::string t; while (std::getline(ss, t, ',')) { auto k = t.find(':'); m.e[std::stoi(t.substr(0, k))] = std::stoul(t.substr(k + 1)); } return m; }
};
template<> struct Arg<Vr> {
	static std::vector<Vr> all() { std::vector<Vr> r; for (int i = 0; i < 4; ++i) r.push_back({i}); return r; }
	static Vr gen(Rng& r) { return {(int)r.below(10)}; }
	static std::string str(const Vr& v) { return std::to_string(v.r); }
	static Vr parse(const std::string& s) { return {std::stoi(s)}; }
};
template<> struct Arg<Sm> {
	static std::vector<Sm> all() { std::vector<Sm> r; for (long i = 0; i < 5; ++i) r.push_back({i}); return r; }
	static Sm gen(Rng& r) { return {r.in(0, 9)}; }
	static std::string str(const Sm& n) { return std::to_string(n.n); }
	static Sm parse(const std::string& s) { return {std::stol(s)}; }
};
template<> struct Arg<Rl> {
	static std::vector<Rl> all() { return {{"all"}}; }
	static Rl gen(Rng&) { return {"all"}; }
	static std::string str(const Rl& x) { return x.s; }
	static Rl parse(const std::string& s) { return {s}; }
};
}
static A mk(const Mo& m) { if (m.e.empty()) return nullptr; M::Content c; for (auto& p : m.e) c.emplace_back(VV(p.first), p.second); return carl::createMonomial(std::move(c), std::size_t(0)); }
static EM rd(const A& a) { EM e; if (!a) return e; std::map<V, int> rk; for (int i = 0; i < 64; ++i) rk[VV(i)] = i; for (auto& p : *a) e[rk.at(p.first)] += p.second; return e; }
static bool canon(const A& a) { if (!a) return true; if (a->exponents().empty()) return false; std::size_t d = 0; V last = V::NO_VARIABLE; bool first = true; for (auto& p : *a) { if (p.second == 0 || (!first && !(last < p.first))) return false; last = p.first; first = false; d += p.second; } return d == a->tdeg() && a->isConsistent(); }
static std::string ck(const A& a, const EM& want, const char* what) { if (!canon(a)) return std::string(what) + " is not canonical"; auto g = rd(a); if (g != want) return std::string(what) + " is " + show(g) + ", expected " + show(want); return ""; }
#define CK(a, w, what) do { auto s_ = ck(a, w, what); if (!s_.empty()) return s_; } while (0)
static EM add(EM a, const EM& b) { for (auto& p : b) a[p.first] += p.second; return a; }
static std::size_t at(const EM& a, int x) { auto i = a.find(x); return i == a.end() ? 0 : i->second; }
static bool dvd(const EM& b, const EM& a) { for (auto& p : b) if (at(a, p.first) < p.second) return false; return true; }
static EM quo(EM a, const EM& b) { for (auto& p : b) { a[p.first] -= p.second; if (!a[p.first]) a.erase(p.first); } return a; }
static EM emx(EM a, const EM& b) { for (auto& p : b) a[p.first] = std::max(a[p.first], p.second); return a; }
static EM emn(const EM& a, const EM& b) { EM r; for (auto& p : a) if (at(b, p.first)) r[p.first] = std::min(p.second, at(b, p.first)); return r; }
static std::size_t deg(const EM& a) { std::size_t d = 0; for (auto& p : a) d += p.second; return d; }
static bool sqr(const EM& a) { for (auto& p : a) if (p.second % 2) return false; return true; }
static int gcmp(const EM& a, const EM& b) { if (deg(a) != deg(b)) return deg(a) < deg(b) ? -1 : 1; EM u = add(a, b); for (auto& p : u) { auto x = at(a, p.first), y = at(b, p.first); if (x != y) return x > y ? -1 : 1; } return 0; }
static int lcmp(const EM& a, const EM& b) { auto i = a.begin(), j = b.begin(); for (; i != a.end() && j != b.end(); ++i, ++j) { if (i->first != j->first) return i->first < j->first ? -1 : 1; if (i->second != j->second) return i->second > j->second ? -1 : 1; } return i != a.end() ? 1 : j != b.end() ? -1 : 0; }
static int tcmp(const Q& c, const EM& a, const Q& d, const EM& b) { int r = gcmp(a, b); if (r) return r; return c < d ? -1 : c > d ? 1 : 0; }
static int cr(carl::CompareResult r) { return r == carl::CompareResult::LESS ? -1 : r == carl::CompareResult::EQUAL ? 0 : 1; }
static T mt(const Q& c, const Mo& m) { return T(c, mk(m)); }
static EM one(int v) { EM e; e[v] = 1; return e; }
H_REG(mul, "c08.mul", [](const Mo& a, const Mo& b) -> std::string { A x = mk(a), y = mk(b); CK(x, a.e, "monomial"); CK(x * y, add(a.e, b.e), "product"); CK(y * x, add(a.e, b.e), "product"); return ""; });
H_REG(mulv, "c08.mulv", [](const Mo& a, const Vr& v) -> std::string { CK(mk(a) * VV(v.r), add(a.e, one(v.r)), "product with variable"); return ""; });
H_REG(vmul, "c08.vmul", [](const Vr& v, const Mo& a) -> std::string { CK(VV(v.r) * mk(a), add(a.e, one(v.r)), "product with variable"); return ""; });
H_REG(vv, "c08.vv", [](const Vr& v, const Vr& w) -> std::string { CK(VV(v.r) * VV(w.r), add(one(w.r), one(v.r)), "product of variables"); return ""; });
H_REG(div, "c08.div", [](const Mo& a, const Mo& b) -> std::string { A x = mk(a), r; if (!x) H_SKIP; bool ok = x->divide(mk(b), r); H_CHECK(ok == dvd(b.e, a.e), "success of the division"); if (ok) CK(r, quo(a.e, b.e), "quotient"); A p = x * mk(b), q; H_CHECK(p->divide(mk(b), q), "a product is divisible by its factor"); CK(q, a.e, "quotient of the product"); return ""; });
H_REG(divv, "c08.divv", [](const Mo& a, const Vr& v) -> std::string { A x = mk(a), r; if (!x) H_SKIP; bool ok = x->divide(VV(v.r), r); H_CHECK(ok == (at(a.e, v.r) > 0), "success of the division"); if (ok) CK(r, quo(a.e, one(v.r)), "quotient"); return ""; });
H_REG(divisible, "c08.divisible", [](const Mo& a, const Mo& b) -> std::string { A x = mk(a); if (!x) H_SKIP; H_CHECK(x->divisible(mk(b)) == dvd(b.e, a.e), "divisibility"); H_CHECK((x * mk(b))->divisible(mk(b)), "a product is divisible by its factor"); return ""; });
H_REG(sqrt_, "c08.sqrt", [](const Mo& a) -> std::string { A x = mk(a); if (!x) H_SKIP; A r = x->sqrt(); H_CHECK((r != nullptr) == sqr(a.e), "a square root exists iff all exponents are even"); if (r) CK(r * r, a.e, "square of the root"); A s = (x * x)->sqrt(); CK(s, a.e, "root of the square"); return ""; });
H_REG(square, "c08.square", [](const Mo& a) -> std::string { A x = mk(a); if (!x) H_SKIP; H_CHECK(x->isSquare() == sqr(a.e), "square test"); H_CHECK((x * x)->isSquare(), "square test on a square"); return ""; });
H_REG(lcm_, "c08.lcm", [](const Mo& a, const Mo& b) -> std::string { CK(M::lcm(mk(a), mk(b)), emx(a.e, b.e), "lcm"); return ""; });
H_REG(lcmdiv, "c08.lcmdiv", [](const Mo& a, const Mo& b) -> std::string { CK(M::calcLcmAndDivideBy(mk(a), mk(b)), quo(emx(a.e, b.e), b.e), "lcm divided by the second"); return ""; });
H_REG(gcd_, "c08.gcd", [](const Mo& a, const Mo& b) -> std::string { if (a.e.empty() || b.e.empty()) H_SKIP; CK(carl::gcd(mk(a), mk(b)), emn(a.e, b.e), "gcd"); return ""; });
H_REG(drop, "c08.drop", [](const Mo& a, const Vr& v) -> std::string { A x = mk(a); if (!x) H_SKIP; EM w = a.e; w.erase(v.r); CK(x->dropVariable(VV(v.r)), w, "monomial without the variable"); return ""; });
H_REG(vpow, "c08.vpow", [](const Vr& v, const Sm& n) -> std::string { EM w; if (n.n) w[v.r] = n.n; CK(carl::pow(VV(v.r), std::size_t(n.n)), w, "power of a variable"); return ""; });
H_REG(pow_, "c08.pow", [](const Mo& a, const Sm& n) -> std::string { EM w; for (auto& p : a.e) if (n.n) w[p.first] = p.second * n.n; CK(carl::pow(mk(a), carl::uint(n.n)), w, "power"); return ""; });
H_REG(sep, "c08.sep", [](const Mo& a) -> std::string { A x = mk(a); if (!x) H_SKIP; EM w; for (auto& p : a.e) w[p.first] = 1; CK(carl::separable_part(*x), w, "separable part"); return ""; });
H_REG(der, "c08.der", [](const Mo& a, const Vr& v, const Sm& n) -> std::string { auto d = carl::derivative(mk(a), VV(v.r), std::size_t(n.n)); std::size_t e = at(a.e, v.r), f = 1; for (long i = 0; i < n.n; ++i) f *= (std::size_t(i) < e ? e - i : 0); if (e > 15 && n.n > (e > 1000 ? 3 : 8)) return ""; H_CHECK(d.first == f, "factor of the derivative"); if (f) { EM w = a.e; if (n.n) { w[v.r] -= n.n; if (!w[v.r]) w.erase(v.r); } CK(d.second, w, "monomial of the derivative"); } return ""; });
H_REG(queries, "c08.queries", [](const Mo& a, const Vr& v) -> std::string { A x = mk(a); if (!x) H_SKIP; V w = VV(v.r); auto e = at(a.e, v.r); H_CHECK(x->exponentOfVariable(w) == e, "exponent"); H_CHECK(x->has(w) == (e > 0), "occurrence"); H_CHECK(x->tdeg() == deg(a.e), "degree"); H_CHECK(!x->isConstant() && !carl::is_constant(*x), "constant"); H_CHECK(x->isLinear() == (deg(a.e) == 1), "linear"); H_CHECK(x->isAtMostLinear() == (deg(a.e) <= 1), "at most linear"); H_CHECK(carl::is_linear(*x) == (deg(a.e) <= 1), "linear (free)"); H_CHECK(x->nrVariables() == a.e.size(), "number of variables"); H_CHECK(x->hasNoOtherVariable(w) == (a.e.size() == 1 && e), "no other variable"); if (a.e.size() == 1) H_CHECK(x->getSingleVariable() == VV(a.e.begin()->first), "single variable"); H_CHECK(x->isConsistent(), "consistent"); H_CHECK(carl::is_linear(*x) == x->isLinear(), "linear"); return ""; });
static std::string ct(const T& t, const Q& c, const EM& e, const char* what) { if (t.coeff() != c) return std::string(what) + ": coefficient"; if (c == 0) return ""; return ck(t.monomial(), e, what); }
#define CT(t, c, e, what) do { auto s_ = ct(t, c, e, what); if (!s_.empty()) return s_; } while (0)
H_REG(t_divv, "c08.t_divv", [](const Q& c, const Mo& a, const Vr& v) -> std::string { T t = mt(c, a), r; bool ok = t.divide(VV(v.r), r); H_CHECK(ok == (at(a.e, v.r) > 0), "success of the division"); if (ok) CT(r, c, quo(a.e, one(v.r)), "quotient"); return ""; });
H_REG(t_divm, "c08.t_divm", [](const Q& c, const Mo& a, const Mo& b) -> std::string { T t = mt(c, a), r; bool ok = t.divide(mk(b), r); H_CHECK(ok == dvd(b.e, a.e), "success of the division by a monomial"); if (ok) CT(r, c, quo(a.e, b.e), "quotient"); return ""; });
H_REG(t_divt, "c08.t_divt", [](const Q& c, const Mo& a, const Q& d, const Mo& b) -> std::string { if (d == 0) H_SKIP; T t = mt(c, a), r; bool ok = t.divide(mt(d, b), r); H_CHECK(ok == dvd(b.e, a.e), "success of the division by a term"); if (ok) CT(r, Q(c / d), quo(a.e, b.e), "quotient"); return ""; });
H_REG(t_divisible, "c08.t_divisible", [](const Q& c, const Mo& a, const Q& d, const Mo& b) -> std::string { if (d == 0) H_SKIP; H_CHECK(mt(c, a).divisible(mt(d, b)) == dvd(b.e, a.e), "divisibility of terms"); return ""; });
H_REG(t_mul, "c08.t_mul", [](const Q& c, const Mo& a, const Q& d, const Mo& b) -> std::string { CT(mt(c, a) * mt(d, b), Q(c * d), add(a.e, b.e), "product of terms"); CT(mt(c, a) * mk(b), c, add(a.e, b.e), "product with monomial"); T t = mt(c, a); t *= mt(d, b); CT(t, Q(c * d), add(a.e, b.e), "compound product"); return ""; });
H_REG(t_unary, "c08.t_unary", [](const Q& c, const Mo& a, const Q& d) -> std::string { T t = mt(c, a); CT(-t, Q(-c), a.e, "negation"); CT(t * d, Q(c * d), a.e, "multiple"); if (d != 0) CT(t.divide(d), Q(c / d), a.e, "quotient by a number"); T s, q = t * t; if (c != 0) { H_CHECK(q.sqrt(s), "a square has a root"); CT(s, Q(abs(c)), a.e, "root of the square"); } for (unsigned n = 0; n < 4; ++n) { EM w; for (auto& p : a.e) if (n) w[p.first] = p.second * n; CT(carl::pow(t, n), carl::pow(c, n), w, "power of a term"); } return ""; });
H_REG(t_der, "c08.t_der", [](const Q& c, const Mo& a, const Vr& v, const Sm& n) -> std::string { auto e = at(a.e, v.r); if (n.n > (e > 1000 ? 3 : 5)) H_SKIP; Q f = c; for (long i = 0; i < n.n; ++i) f *= Q(long(std::size_t(i) < e ? e - i : 0)); EM w = a.e; if (n.n && f != 0) { w[v.r] -= n.n; if (!w[v.r]) w.erase(v.r); } CT(carl::derivative(mt(c, a), VV(v.r), n.n), f, w, "derivative of a term"); return ""; });
// ---- orders
#define REL(x, y, r, what) do { int r_ = (r); H_CHECK(((x) < (y)) == (r_ < 0), what " <"); H_CHECK(((x) <= (y)) == (r_ <= 0), what " <="); H_CHECK(((x) > (y)) == (r_ > 0), what " >"); H_CHECK(((x) >= (y)) == (r_ >= 0), what " >="); H_CHECK(((x) == (y)) == (r_ == 0), what " =="); H_CHECK(((x) != (y)) == (r_ != 0), what " !="); } while (0)
static std::string rel(const Mo& a, const Mo& b) { A x = mk(a), y = mk(b); int r = gcmp(a.e, b.e); REL(x, y, r, "monomials"); return ""; }
H_REG(cmp, "c09.cmp", [](const Mo& a, const Mo& b) -> std::string { H_CHECK(cr(M::compareGradedLexical(mk(a), mk(b))) == gcmp(a.e, b.e), "graded comparison"); return ""; });
H_REG(rel_, "c09.rel", [](const Rl&, const Mo& a, const Mo& b) -> std::string { return rel(a, b); });
H_REG(std_, "c09.std", [](const Mo& a, const Mo& b) -> std::string { A x = mk(a), y = mk(b); int r = gcmp(a.e, b.e); H_CHECK(std::less<A>()(x, y) == (r < 0), "std::less"); H_CHECK(std::equal_to<A>()(x, y) == (r == 0), "std::equal_to"); H_CHECK(carl::GrLexOrdering::less(x, y) == (r < 0), "GrLexOrdering::less"); H_CHECK(carl::GrLexOrdering::equal(x, y) == (r == 0), "GrLexOrdering::equal"); H_CHECK(carl::LexOrdering::less(x, y) == (lcmp(a.e, b.e) < 0), "LexOrdering::less"); if (r == 0) H_CHECK(std::hash<A>()(x) == std::hash<A>()(y), "equal monomials hash equally"); return ""; });
H_REG(lex, "c09.lex", [](const Mo& a, const Mo& b) -> std::string { H_CHECK(cr(M::compareLexical(mk(a), mk(b))) == lcmp(a.e, b.e), "lexical comparison"); return ""; });
H_REG(var, "c09.var", [](const Mo& a, const Vr& v) -> std::string { A x = mk(a); V y = VV(v.r); int r = gcmp(a.e, one(v.r)); REL(x, y, r, "monomial and variable"); REL(y, x, -r, "variable and monomial"); H_CHECK(cr(M::compareGradedLexical(x, y)) == r, "graded comparison with a variable"); H_CHECK(cr(M::compareLexical(x, y)) == lcmp(a.e, one(v.r)), "lexical comparison with a variable"); return ""; });
H_REG(trans, "c09.trans", [](const Mo& a, const Mo& b, const Mo& c) -> std::string { A x = mk(a), y = mk(b), z = mk(c); if (x < y && y < z) H_CHECK(x < z, "transitivity"); H_CHECK(int(x < y) + int(x == y) + int(x > y) == 1, "trichotomy"); H_CHECK((x < y) == (x * z < y * z), "compatibility with products"); return ""; });
static std::string trel(const Q& c, const Mo& a, const Q& d, const Mo& b) { T x = mt(c, a), y = mt(d, b); int r = tcmp(c, a.e, d, b.e); REL(x, y, r, "terms"); return ""; }
H_REG(term, "c09.term", [](const Rl&, const Q& c, const Mo& a, const Q& d, const Mo& b) -> std::string { return trel(c, a, d, b); });
H_REG(tmon, "c09.tmon", [](const Q& c, const Mo& a, const Q& d, const Mo& b) -> std::string { T x = mt(c, a), y = mt(d, b); int r = gcmp(a.e, b.e); H_CHECK(carl::GrLexOrdering::less(x, y) == (r < 0), "term order"); H_CHECK(carl::GrLexOrdering::equal(x, y) == (r == 0), "term order equality"); H_CHECK(T::monomialEqual(x, y) == (r == 0), "same monomial"); H_CHECK(T::monomialLess(x, y) == (r < 0), "smaller monomial"); return ""; });
H_REG(tmixed, "c09.tmixed", [](const Q& c, const Mo& a, const Mo& b) -> std::string { T x = mt(c, a); A y = mk(b); int r = tcmp(c, a.e, Q(1), b.e); REL(x, y, r, "term and monomial"); REL(y, x, -r, "monomial and term"); return ""; });
H_REG(tmixed2, "c09.tmixed2", [](const Q& c, const Mo& a, const Vr& v) -> std::string { T x = mt(c, a); V y = VV(v.r); int r = tcmp(c, a.e, Q(1), one(v.r)); REL(x, y, r, "term and variable"); REL(y, x, -r, "variable and term"); return ""; });
H_REG(tmixed3, "c09.tmixed3", [](const Q& c, const Mo& a, const Q& d) -> std::string { T x = mt(c, a); int r = tcmp(c, a.e, d, EM()); REL(x, d, r, "term and number"); REL(d, x, -r, "number and term"); return ""; });
H_MAIN
