// Run-time oracles for multivariate polynomials (bounded stand-in and replay target): coefficient maps over exponent vectors.
// links: carl/numbers/adaption_gmpxx/operations.cpp carl/core/VariablePool.cpp carl/core/Variable.cpp carl/util/Pool.cpp carl/core/MonomialPool.cpp carl/core/Monomial.cpp carl/core/polynomialfunctions/GCD_Monomial.cpp
#include "types.h"
#include <carl/numbers/numbers.h>
#include <carl/core/MultivariatePolynomial.h>
#include <carl/core/UnivariatePolynomial.h>
#include <carl/core/VariablePool.h>
#include <carl/core/polynomialfunctions/Power.h>
#include <carl/core/polynomialfunctions/Derivative.h>
#include <carl/core/polynomialfunctions/Degree.h>
#include <carl/core/polynomialfunctions/Evaluation.h>
#include <carl/core/polynomialfunctions/to_univariate_polynomial.h>
#include <carl/core/polynomialfunctions/Substitution.h>
#include <carl/core/polynomialfunctions/Representation.h>
using Q = mpq_class; using M = carl::Monomial; using A = M::Arg; using T = carl::Term<Q>; using V = carl::Variable; using P = carl::MultivariatePolynomial<Q>; using U = carl::UnivariatePolynomial<Q>; using UP = carl::UnivariatePolynomial<P>;
constexpr int NV = 4; using E = std::array<unsigned, NV>; using MP = std::map<E, Q>;
static V VV(int r) { static std::vector<V> vs; while ((int)vs.size() <= r) vs.push_back(carl::freshRealVariable()); return vs[r]; }
struct Po { std::vector<std::pair<Q, E>> t; bool ord = false; }; struct Te { Q c; E e{}; }; struct Mo { E e{}; }; struct Vr { int r = 0; }; struct Sm { long n = 0; }; struct Pt { std::array<Q, NV> q; };
static unsigned deg(const E& e) { unsigned d = 0; for (auto x : e) d += x; return d; }
static std::string es(const E& e) { std::string s; for (auto x : e) s += (s.empty() ? "" : ".") + std::to_string(x); return s; }
static E ep(const std::string& s) { E e{}; std::stringstream ss(s); std::string t; int i = 0; while (i < NV && std::getline(ss, t, '.')) e[i++] = (unsigned)std::stoul(t); return e; }
static MP norm(const std::vector<std::pair<Q, E>>& t) { MP m; for (auto& p : t) { m[p.second] += p.first; if (m[p.second] == 0) m.erase(p.second); } return m; }
namespace hh {
static E ge(Rng& r) { E e{}; int n = (int)r.below(4); for (int i = 0; i < n; ++i) e[r.below(NV)] = (unsigned)r.below(r.below(4) ? 3 : 6); return e; }
static Q gq(Rng& r) { Q q; if (r.below(3)) q = Q((long)r.in(-3, 3)); else q = Arg<Q>::gen(r); if (q == 0) q = 1; return q; }
template<> struct Arg<Po> {
	static std::vector<Po> all() { std::vector<Po> v; v.push_back({}); for (int i : {1, -1, 2}) v.push_back({{{Q(i), E{}}}, true}); for (int i : {1, -1}) { v.push_back({{{Q(i), E{1}}}, true}); v.push_back({{{Q(1), E{}}, {Q(i), E{1}}}, true}); v.push_back({{{Q(1), E{}}, {Q(i), E{0, 1}}, {Q(2), E{1}}}, false}); v.push_back({{{Q(1), E{}}, {Q(i), E{1, 1}}, {Q(2), E{2}}, {Q(-1), E{0, 1}}}, false}); v.push_back({{{Q(i), E{1, 1}}, {Q(-2), E{2}}, {Q(1), E{0, 1}}, {Q(1), E{1}}}, true}); } return v; }
	static Po gen(Rng& r) { Po p; auto n = r.below(3) ? r.below(5) : r.below(12); for (std::size_t i = 0; i < n; ++i) p.t.emplace_back(gq(r), ge(r)); if (r.below(3) == 0) p.t.emplace_back(gq(r), E{}); p.ord = r.coin(); return p; }
	static std::string str(const Po& p) { std::string s = p.ord ? "o" : "u"; for (auto& t : p.t) s += "+" + t.first.get_str() + "*" + es(t.second); return s; }
	static Po parse(const std::string& s) { Po p; p.ord = s[0] == 'o'; std::stringstream ss(s.substr(1)); std::string t; while (std::getline(ss, t, '+')) if (!t.empty()) { auto k = t.find('*'); p.t.emplace_back(Arg<Q>::parse(t.substr(0, k)), ep(t.substr(k + 1))); } return p; }
};
template<> struct Arg<Te> {
	static std::vector<Te> all() { std::vector<Te> v; for (int c : {0, 1, -1, 2}) for (E e : {E{}, E{1}, E{0, 1}, E{1, 1}, E{2}, E{3}}) v.push_back({Q(c), e}); return v; }
	static Te gen(Rng& r) { return {r.below(8) ? gq(r) : Q(0), ge(r)}; }
	static std::string str(const Te& t) { return t.c.get_str() + "*" + es(t.e); }
	static Te parse(const std::string& s) { auto k = s.find('*'); return {Arg<Q>::parse(s.substr(0, k)), ep(s.substr(k + 1))}; }
};
template<> struct Arg<Mo> {
	static std::vector<Mo> all() { return {{E{}}, {E{1}}, {E{0, 1}}, {E{1, 1}}, {E{2}}, {E{3}}}; }
	static Mo gen(Rng& r) { return {ge(r)}; }
	static std::string str(const Mo& m) { return es(m.e); }
	static Mo parse(const std::string& s) { return {ep(s)}; }
};
template<> struct Arg<Vr> {
	static std::vector<Vr> all() { std::vector<Vr> r; for (int i = 0; i < NV; ++i) r.push_back({i}); return r; }
	static Vr gen(Rng& r) { return {(int)r.below(NV)}; }
	static std::string str(const Vr& v) { return std::to_string(v.r); }
	static Vr parse(const std::string& s) { int i = std::stoi(s); return {i < 0 ? 0 : i % NV}; }
};
template<> struct Arg<Sm> {
	static std::vector<Sm> all() { std::vector<Sm> r; for (long i = 0; i < 5; ++i) r.push_back({i}); return r; }
	static Sm gen(Rng& r) { return {r.in(0, 5)}; }
	static std::string str(const Sm& n) { return std::to_string(n.n); }
	static Sm parse(const std::string& s) { return {std::stol(s)}; }
};
template<> struct Arg<Pt> {
	static std::vector<Pt> all() { return {{{Q(0), Q(0), Q(0), Q(0)}}, {{Q(1), Q(1), Q(1), Q(1)}}, {{Q(2), Q(-1), Q(1, 2), Q(3)}}}; }
	static Pt gen(Rng& r) { Pt p; for (auto& x : p.q) x = r.below(4) ? Arg<Q>::gen(r) : Q(0); return p; }
	static std::string str(const Pt& p) { std::string s; for (auto& x : p.q) s += (s.empty() ? "" : ",") + x.get_str(); return s; }
	static Pt parse(const std::string& s) { Pt p; std::stringstream ss(s); std::string t; int i = 0; while (i < NV && std::getline(ss, t, ',')) p.q[i++] = Arg<Q>::parse(t); return p; }
};
}
static A ma(const E& e) { M::Content c; for (int i = 0; i < NV; ++i) if (e[i]) c.emplace_back(VV(i), e[i]); if (c.empty()) return nullptr; return carl::createMonomial(std::move(c), std::size_t(deg(e))); }
static T mt(const Q& c, const E& e) { return T(c, ma(e)); }
static P mk(const Po& a) { auto m = norm(a.t); std::vector<T> t; std::set<E> seen; for (auto& p : a.t) if (seen.insert(p.second).second && m.count(p.second)) t.push_back(mt(m[p.second], p.second)); P p(std::move(t), false, false); if (a.ord) p.makeOrdered(); return p; }
static E re(const A& m) { E e{}; if (!m) return e; for (auto& p : *m) { bool f = false; for (int i = 0; i < NV; ++i) if (p.first == VV(i)) { e[i] += (unsigned)p.second; f = true; } if (!f) throw std::runtime_error("foreign variable"); } return e; }
static bool less(const E& a, const E& b) { if (deg(a) != deg(b)) return deg(a) < deg(b); for (int i = 0; i < NV; ++i) if (a[i] != b[i]) return a[i] > b[i]; return false; }
static std::string sm(const MP& m) { std::string s; for (auto& p : m) s += " " + p.second.get_str() + "*" + es(p.first); return s.empty() ? " 0" : s; }
// canonical form: non-zero coefficients, distinct monomials, constant term in front, leading term at the end, sorted if claimed
static std::string ck(const P& p, const MP& want, const std::string& what) {
	MP m; const auto& t = p.getTerms();
	for (std::size_t i = 0; i < t.size(); ++i) { E e = re(t[i].monomial()); if (t[i].coeff() == 0) return what + ": zero coefficient"; if (m.count(e)) return what + ": duplicate monomial"; if (i && !t[i].monomial()) return what + ": constant term not in front"; if (t[i].monomial() && deg(e) != t[i].tdeg()) return what + ": degree of a term"; m[e] = t[i].coeff(); }
	if (m != want) return what + " is" + sm(m) + ", expected" + sm(want);
	for (std::size_t i = 0; i + 1 < t.size(); ++i) { if (!less(re(t[i].monomial()), re(t.back().monomial()))) return what + ": leading term not at the end"; if (p.isOrdered() && !less(re(t[i].monomial()), re(t[i + 1].monomial()))) return what + ": claims to be ordered but is not"; }
	if (p.nrTerms() != want.size()) return what + ": number of terms";
	return "";
}
#define CK(a, w, what) do { auto s_ = ck(a, w, what); if (!s_.empty()) return s_; } while (0)
static void acc(MP& m, const E& e, const Q& c) { auto& x = m[e]; x += c; if (x == 0) m.erase(e); }
static MP add(MP a, const MP& b, const Q& f = 1) { for (auto& p : b) acc(a, p.first, Q(f * p.second)); return a; }
static E ea(E a, const E& b) { for (int i = 0; i < NV; ++i) a[i] += b[i]; return a; }
static MP mul(const MP& a, const MP& b) { MP r; for (auto& p : a) for (auto& q : b) acc(r, ea(p.first, q.first), Q(p.second * q.second)); return r; }
static MP cst(const Q& c) { MP m; if (c != 0) m[E{}] = c; return m; }
static MP tm(const Q& c, const E& e) { MP m; if (c != 0) m[e] = c; return m; }
static E ev(int v, unsigned k = 1) { E e{}; e[v] = k; return e; }
static MP pw(const MP& a, unsigned n) { MP r = cst(1); while (n--) r = mul(r, a); return r; }
static Q qp(const Q& q, unsigned n) { Q r = 1; while (n--) r *= q; return r; }
static Q val(const MP& m, const Pt& x) { Q r = 0; for (auto& p : m) { Q t = p.second; for (int i = 0; i < NV; ++i) t *= qp(x.q[i], p.first[i]); r += t; } return r; }
#define ALSO(p, w) do { CK(p, w, "an operand after the operation"); } while (0)
H_REG(mkp, "c10.mk", [](const Po& a) -> std::string { MP m = norm(a.t); P p = mk(a); CK(p, m, "polynomial"); std::vector<T> ts; for (auto& t : a.t) ts.push_back(mt(t.first, t.second)); P q(ts); CK(q, m, "polynomial from a term list"); P r(std::move(ts), true, false); CK(r, m, "polynomial from a moved term list"); std::vector<T> us; for (auto& t : a.t) us.push_back(mt(t.first, t.second)); P s(us, true, true); CK(s, m, "polynomial from a term list given as ordered with duplicates"); p.makeOrdered(); CK(p, m, "ordered polynomial"); H_CHECK(p.isOrdered(), "ordered"); H_CHECK(p.isConsistent(), "consistent"); return ""; });
H_REG(addp, "c10.add", [](const Po& a, const Po& b) -> std::string { MP m = norm(a.t), n = norm(b.t); P p = mk(a), q = mk(b); CK(p + q, add(m, n), "sum"); CK(q + p, add(m, n), "sum"); P r(p); r += q; CK(r, add(m, n), "compound sum"); r = p; r += r; CK(r, add(m, m), "sum of a polynomial with itself"); ALSO(p, m); ALSO(q, n); return ""; });
H_REG(subp, "c10.sub", [](const Po& a, const Po& b) -> std::string { MP m = norm(a.t), n = norm(b.t); P p = mk(a), q = mk(b); CK(p - q, add(m, n, -1), "difference"); P r(p); r -= q; CK(r, add(m, n, -1), "compound difference"); CK(p - p, MP(), "difference with itself"); r -= r; CK(r, MP(), "compound difference with itself"); CK(-p, add(MP(), m, -1), "negation"); CK((p - q) + q, m, "difference plus subtrahend"); ALSO(p, m); ALSO(q, n); return ""; });
H_REG(mulp, "c10.mul", [](const Po& a, const Po& b) -> std::string { MP m = norm(a.t), n = norm(b.t); P p = mk(a), q = mk(b); CK(p * q, mul(m, n), "product"); CK(q * p, mul(m, n), "product"); P r(p); r *= q; CK(r, mul(m, n), "compound product"); r = p; r *= r; CK(r, mul(m, m), "square"); ALSO(p, m); ALSO(q, n); return ""; });
H_REG(addt, "c10.addt", [](const Po& a, const Te& t) -> std::string { MP m = norm(a.t), n = tm(t.c, t.e); P p = mk(a); T u = mt(t.c, t.e); CK(p + u, add(m, n), "sum with a term"); CK(u + p, add(m, n), "sum with a term"); CK(p - u, add(m, n, -1), "difference with a term"); CK(u - p, add(n, m, -1), "term minus polynomial"); P r(p); if (t.c != 0) { r.addTerm(u); CK(r, add(m, n), "polynomial after addTerm"); } CK(P(u), n, "polynomial of a term"); return ""; });
H_REG(addm, "c10.addm", [](const Po& a, const Mo& t) -> std::string { MP m = norm(a.t), n = tm(1, t.e); P p = mk(a); A u = ma(t.e); CK(p + u, add(m, n), "sum with a monomial"); CK(u + p, add(m, n), "sum with a monomial"); CK(p - u, add(m, n, -1), "difference with a monomial"); CK(u - p, add(n, m, -1), "monomial minus polynomial"); CK(P(u), n, "polynomial of a monomial"); return ""; });
H_REG(addv, "c10.addv", [](const Po& a, const Vr& v) -> std::string { MP m = norm(a.t), n = tm(1, ev(v.r)); P p = mk(a); V u = VV(v.r); CK(p + u, add(m, n), "sum with a variable"); CK(u + p, add(m, n), "sum with a variable"); CK(p - u, add(m, n, -1), "difference with a variable"); CK(u - p, add(n, m, -1), "variable minus polynomial"); CK(p * u, mul(m, n), "product with a variable"); CK(u * p, mul(m, n), "product with a variable"); CK(P(u), n, "polynomial of a variable"); return ""; });
H_REG(addc, "c10.addc", [](const Po& a, const Q& c) -> std::string { MP m = norm(a.t), n = cst(c); P p = mk(a); CK(p + c, add(m, n), "sum with a number"); CK(c + p, add(m, n), "sum with a number"); CK(p - c, add(m, n, -1), "difference with a number"); CK(c - p, add(n, m, -1), "number minus polynomial"); CK(p * c, mul(m, n), "product with a number"); CK(c * p, mul(m, n), "product with a number"); if (c != 0) CK(p / c, mul(m, cst(1 / c)), "quotient by a number"); CK(P(c), n, "polynomial of a number"); return ""; });
H_REG(mult, "c10.mult", [](const Po& a, const Te& t) -> std::string { MP m = norm(a.t), n = tm(t.c, t.e), o = tm(1, t.e); P p = mk(a); CK(p * mt(t.c, t.e), mul(m, n), "product with a term"); CK(mt(t.c, t.e) * p, mul(m, n), "product with a term"); CK(p * ma(t.e), mul(m, o), "product with a monomial"); CK(ma(t.e) * p, mul(m, o), "product with a monomial"); return ""; });
H_REG(divn, "c10.divn", [](const Po& a, const Sm& n) -> std::string { if (n.n == 0) H_SKIP; MP m = norm(a.t); CK(mk(a) / (unsigned long)n.n, mul(m, cst(Q(1, n.n))), "quotient by an unsigned number"); return ""; });
H_REG(subprod, "c10.subprod", [](const Po& a, const Te& t, const Po& b) -> std::string { MP m = norm(a.t), n = norm(b.t); P p = mk(a), q = mk(b); p.subtractProduct(mt(t.c, t.e), q); CK(p, add(m, mul(tm(t.c, t.e), n), -1), "polynomial minus the product"); ALSO(q, n); return ""; });
H_REG(powp, "c10.pow", [](const Po& a, const Sm& n) -> std::string { MP m = norm(a.t); if (m.size() > 4 && n.n > 3) H_SKIP; P p = mk(a); CK(carl::pow(p, std::size_t(n.n)), pw(m, (unsigned)n.n), "power"); CK(carl::pow_naive(p, std::size_t(n.n)), pw(m, (unsigned)n.n), "naive power"); ALSO(p, m); return ""; });
H_REG(termops, "c10.terms", [](const Te& s, const Te& t, const Q& c, const Vr& v) -> std::string { T a = mt(s.c, s.e), b = mt(t.c, t.e); MP m = tm(s.c, s.e), n = tm(t.c, t.e), o = tm(1, t.e), w = tm(1, ev(v.r)); A mo = ma(t.e); V x = VV(v.r); CK(a + b, add(m, n), "sum of terms"); CK(a - b, add(m, n, -1), "difference of terms"); CK(a + mo, add(m, o), "term plus monomial"); CK(a - mo, add(m, o, -1), "term minus monomial"); CK(mo + a, add(m, o), "monomial plus term"); CK(a + x, add(m, w), "term plus variable"); CK(a - x, add(m, w, -1), "term minus variable"); CK(a + c, add(m, cst(c)), "term plus number"); CK(a - c, add(m, cst(c), -1), "term minus number"); CK(c + a, add(m, cst(c)), "number plus term"); CK(mo + c, add(o, cst(c)), "monomial plus number"); CK(mo - c, add(o, cst(c), -1), "monomial minus number"); CK(c - mo, add(cst(c), o, -1), "number minus monomial"); CK(x + c, add(w, cst(c)), "variable plus number"); CK(x - c, add(w, cst(c), -1), "variable minus number"); CK(c - x, add(cst(c), w, -1), "number minus variable"); return ""; });
H_REG(eqs, "c10.eq", [](const Po& a, const Po& b, const Te& t, const Vr& v) -> std::string { MP m = norm(a.t), n = norm(b.t); P p = mk(a), q = mk(b); H_CHECK((p == q) == (m == n), "equality"); H_CHECK((p != q) == (m != n), "inequality"); Po c = a; std::reverse(c.t.begin(), c.t.end()); c.ord = !a.ord; H_CHECK(p == mk(c), "equality with the same terms in another order"); H_CHECK((p == mt(t.c, t.e)) == (m == tm(t.c, t.e)), "equality with a term"); H_CHECK((p == ma(t.e)) == (m == tm(1, t.e)), "equality with a monomial"); H_CHECK((p == VV(v.r)) == (m == tm(1, ev(v.r))), "equality with a variable"); H_CHECK((p == t.c) == (m == cst(t.c)), "equality with a number"); bool l = p < q, g = q < p; H_CHECK((l ? 1 : 0) + (g ? 1 : 0) + (m == n ? 1 : 0) == 1, "the order is total"); CK(p, m, "an operand after comparison"); CK(q, n, "an operand after comparison"); std::hash<P> h; H_CHECK(!(m == n) || h(p) == h(q), "equal polynomials have equal hashes"); return ""; });
H_REG(ctor, "c10.ctor", [](const Po& a, const Po& b, const Sm& k) -> std::string { using OP = P::ConstructorOperation; MP m = norm(a.t), n = norm(b.t); P p = mk(a), q = mk(b); CK(P(OP::ADD, {p, q, p}), add(add(m, n), m), "sum of operands"); CK(P(OP::SUB, {p, q, p}), add(add(m, n, -1), m, -1), "difference of operands"); CK(P(OP::SUB, {p}), add(MP(), m, -1), "unary minus"); CK(P(OP::MUL, {p, q}), mul(m, n), "product of operands"); if (k.n) CK(P(OP::DIV, {p, P(Q(k.n))}), mul(m, cst(Q(1, k.n))), "quotient of operands"); P r; r = p; CK(r, m, "copy"); P s(std::move(r)); CK(s, m, "moved polynomial"); return ""; });
H_REG(chain, "c10.chain", [](const Po& a, const Te& s, const Te& t, const Po& b) -> std::string { MP m = norm(a.t), n = norm(b.t); P p = mk(a), q = mk(b); p += mt(s.c, s.e); m = add(m, tm(s.c, s.e)); CK(p, m, "after adding a term"); p -= mt(t.c, t.e); m = add(m, tm(t.c, t.e), -1); CK(p, m, "after subtracting a term"); p -= q; m = add(m, n, -1); CK(p, m, "after subtracting a polynomial"); p += ma(t.e); m = add(m, tm(1, t.e)); CK(p, m, "after adding a monomial"); p -= ma(s.e); m = add(m, tm(1, s.e), -1); CK(p, m, "after subtracting a monomial"); p += s.c; m = add(m, cst(s.c)); CK(p, m, "after adding a number"); p *= q; m = mul(m, n); CK(p, m, "after multiplying"); p += q; m = add(m, n); CK(p, m, "after adding a polynomial"); return ""; });
H_REG(tails, "c10.tail", [](const Po& a) -> std::string { MP m = norm(a.t); if (m.empty()) H_SKIP; P p = mk(a); MP w = m; w.erase(re(p.lmon())); CK(p.tail(), w, "tail"); CK(p.tail(true), w, "fully ordered tail"); P q(p); q.stripLT(); CK(q, w, "polynomial without its leading term"); CK(p.normalize(), mul(m, cst(1 / p.lcoeff())), "normalised polynomial"); return ""; });
// ---- queries
static MP coef(const MP& m, int v, unsigned k) { MP r; for (auto& p : m) if (p.first[v] == k) { E e = p.first; e[v] = 0; r[e] = p.second; } return r; }
H_REG(query, "c11.query", [](const Po& a, const Vr& v, const Sm& k) -> std::string { MP m = norm(a.t); P p = mk(a); V x = VV(v.r); unsigned d = 0, td = 0; std::set<V> vs; E lead{}; for (auto& t : m) { d = std::max(d, t.first[v.r]); td = std::max(td, deg(t.first)); if (less(lead, t.first)) lead = t.first; for (int i = 0; i < NV; ++i) if (t.first[i]) vs.insert(VV(i)); } H_CHECK(p.degree(x) == d, "degree in a variable"); H_CHECK(p.totalDegree() == td && carl::total_degree(p) == td, "total degree"); CK(p.coeff(x, std::size_t(k.n)), coef(m, v.r, (unsigned)k.n), "coefficient"); if (!m.empty()) CK(p.lcoeff(x), coef(m, v.r, d), "leading coefficient"); H_CHECK(p.has(x) == (d > 0), "occurrence of a variable"); Q c = m.count(E{}) ? m[E{}] : Q(0); H_CHECK(p.constantPart() == c, "constant part"); H_CHECK(p.hasConstantTerm() == (c != 0), "has constant term"); H_CHECK(p.isConstant() == vs.empty() && carl::is_constant(p) == vs.empty(), "constant"); auto cv = carl::variables(p).as_vector(); H_CHECK(std::set<V>(cv.begin(), cv.end()) == vs && cv.size() == vs.size(), "variables"); H_CHECK(p.isUnivariate() == (vs.size() <= 1), "univariate"); H_CHECK(carl::isZero(p) == m.empty() && carl::is_zero(p) == m.empty(), "zero"); bool one = m == cst(1); H_CHECK(carl::isOne(p) == one && carl::is_one(p) == one, "one"); if (!m.empty()) { H_CHECK(re(p.lmon()) == lead, "leading monomial"); H_CHECK(p.lcoeff() == m[lead], "leading coefficient"); if (!vs.empty()) H_CHECK(p.isLinear() == (td <= 1) && carl::is_linear(p) == (td <= 1), "linear"); } H_CHECK(p.nrTerms() == m.size() && p.size() == m.size(), "number of terms"); H_CHECK(!m.empty() ? p.isVariable() == (m.size() == 1 && td == 1 && m[lead] == 1) : true, "variable"); return ""; });
H_REG(evalp, "c11.eval", [](const Po& a, const Pt& x) -> std::string { MP m = norm(a.t); P p = mk(a); std::map<V, Q> s; for (int i = 0; i < NV; ++i) s[VV(i)] = x.q[i]; H_CHECK(carl::evaluate(p, s) == val(m, x), "value"); return ""; });
H_REG(subq, "c11.substq", [](const Po& a, const Pt& x, const Sm& k) -> std::string { MP m = norm(a.t); P p = mk(a); std::map<V, Q> s; MP w; for (int i = 0; i < NV; ++i) if ((k.n >> (i % 3)) & 1) s[VV(i)] = x.q[i]; for (auto& t : m) { E e = t.first; Q c = t.second; for (int i = 0; i < NV; ++i) if (s.count(VV(i))) { c *= qp(x.q[i], e[i]); e[i] = 0; } if (c != 0) acc(w, e, c); } CK(carl::substitute(p, s), w, "substitution by numbers"); ALSO(p, m); return ""; });
H_REG(substp, "c11.subst", [](const Po& a, const Vr& v, const Po& b) -> std::string { MP m = norm(a.t), n = norm(b.t), w; for (auto& t : m) { if (t.first[v.r] > 3 && n.size() > 3) H_SKIP; } for (auto& t : m) { E e = t.first; unsigned k = e[v.r]; e[v.r] = 0; w = add(w, mul(tm(t.second, e), pw(n, k))); } P p = mk(a), q = mk(b); CK(carl::substitute(p, VV(v.r), q), w, "substitution by a polynomial"); P r(p); carl::substitute_inplace(r, VV(v.r), q); CK(r, w, "substitution in place"); ALSO(p, m); ALSO(q, n); return ""; });
H_REG(substm, "c11.substm", [](const Po& a, const Po& b, const Po& c, const Sm& k) -> std::string { MP m = norm(a.t), n = norm(b.t), o = norm(c.t), w; if (n.size() > 4 || o.size() > 4) H_SKIP; int i = (int)(k.n % NV), j = (int)((k.n + 1) % NV); for (auto& t : m) { E e = t.first; unsigned x = e[i], y = e[j]; if (x > 3 || y > 3) H_SKIP; e[i] = e[j] = 0; w = add(w, mul(mul(tm(t.second, e), pw(n, x)), pw(o, y))); } P p = mk(a); std::map<V, P> s{{VV(i), mk(b)}, {VV(j), mk(c)}}; CK(carl::substitute(p, s), w, "simultaneous substitution by polynomials"); ALSO(p, m); return ""; });
H_REG(substt, "c11.substt", [](const Po& a, const Te& b, const Te& c, const Sm& k) -> std::string { MP m = norm(a.t), n = tm(b.c, b.e), o = tm(c.c, c.e), w; int i = (int)(k.n % NV), j = (int)((k.n + 1) % NV); for (auto& t : m) { E e = t.first; unsigned x = e[i], y = e[j]; e[i] = e[j] = 0; w = add(w, mul(mul(tm(t.second, e), pw(n, x)), pw(o, y))); } P p = mk(a); std::map<V, T> s; for (int q = 0; q < NV; ++q) s[VV(q)] = T(Q(1), VV(q), 1); s[VV(i)] = mt(b.c, b.e); s[VV(j)] = mt(c.c, c.e); CK(carl::substitute(p, s), w, "substitution by terms"); CK(mk(a) + mk(a), add(m, m), "a later sum"); return ""; });
static MP der(const MP& m, int v, unsigned n) { MP w; for (auto& t : m) { E e = t.first; Q c = t.second; for (unsigned i = 0; i < n; ++i) { c *= Q(e[v]); if (e[v]) --e[v]; } if (c != 0) acc(w, e, c); } return w; }
H_REG(derp, "c11.der", [](const Po& a, const Po& b, const Vr& v, const Sm& n) -> std::string { MP m = norm(a.t), o = norm(b.t); P p = mk(a), q = mk(b); V x = VV(v.r); CK(carl::derivative(p, x, std::size_t(n.n)), der(m, v.r, (unsigned)n.n), "derivative"); CK(carl::derivative(p * q, x), add(mul(der(m, v.r, 1), o), mul(m, der(o, v.r, 1))), "derivative of a product"); return ""; });
static std::string cku(const UP& u, const MP& m, int v, const char* what) { unsigned d = 0; for (auto& t : m) d = std::max(d, t.first[v]); if (u.mainVar() != VV(v)) return std::string(what) + ": main variable"; if (m.empty()) return u.coefficients().empty() ? "" : std::string(what) + ": zero has coefficients"; if (u.coefficients().size() != d + 1) return std::string(what) + ": number of coefficients"; for (unsigned i = 0; i <= d; ++i) { auto s = ck(u.coefficients()[i], coef(m, v, i), std::string(what) + ": coefficient " + std::to_string(i)); if (!s.empty()) return s; } return ""; }
H_REG(uni, "c11.uni", [](const Po& a, const Vr& v, const Po& b) -> std::string { MP m = norm(a.t), n = norm(b.t); P p = mk(a); V x = VV(v.r); UP u = carl::to_univariate_polynomial(p, x); auto s = cku(u, m, v.r, "univariate form"); if (!s.empty()) return s; CK(P(u), m, "forth and back"); unsigned td = 0; for (auto& t : m) td = std::max(td, deg(t.first)); H_CHECK(carl::total_degree(u) == td, "total degree of the univariate form"); int w = (v.r + 1) % NV; s = cku(carl::switch_main_variable(u, VV(w)), m, w, "form with another main variable"); if (!s.empty()) return s; if (n.size() > 4) return ""; for (auto& t : n) if (t.first[v.r]) return ""; MP q; for (auto& t : m) { E e = t.first; unsigned k = e[v.r]; if (k > 3) return ""; e[v.r] = 0; q = add(q, mul(tm(t.second, e), pw(n, k))); } UP us(u); carl::substitute_inplace(us, x, mk(b)); CK(P(us), q, "univariate form, main variable substituted in place"); CK(P(carl::substitute(u, x, mk(b))), q, "univariate form, main variable substituted"); return ""; });
H_REG(unio, "c11.uniother", [](const Po& a, const Vr& v, const Po& b) -> std::string { MP m = norm(a.t), n = norm(b.t); if (n.size() > 4) H_SKIP; P p = mk(a); UP u = carl::to_univariate_polynomial(p, VV(v.r)); int w = (v.r + 1) % NV; MP q; for (auto& t : m) { E e = t.first; unsigned k = e[w]; if (k > 3) return ""; e[w] = 0; q = add(q, mul(tm(t.second, e), pw(n, k))); } for (auto& t : n) if (t.first[v.r]) return ""; auto s = cku(carl::substitute(u, VV(w), mk(b)), q, v.r, "univariate form, other variable substituted"); if (!s.empty()) return s; UP us(u); carl::substitute_inplace(us, VV(w), mk(b)); return cku(us, q, v.r, "univariate form, other variable substituted in place"); });
H_REG(uder, "c11.uder", [](const Po& a, const Vr& v, const Vr& w, const Sm& n) -> std::string { MP m = norm(a.t); UP u = carl::to_univariate_polynomial(mk(a), VV(v.r)); CK(P(carl::derivative(u, VV(w.r), std::size_t(n.n))), der(m, w.r, (unsigned)n.n), "derivative of the univariate form"); return ""; });
H_REG(uniq, "c11.uniq", [](const Po& a, const Vr& v) -> std::string { MP m; for (auto& t : norm(a.t)) acc(m, ev(v.r, t.first[0] + t.first[1]), t.second); bool c = true; for (auto& t : m) if (deg(t.first)) c = false; if (c) H_SKIP; std::vector<T> ts; for (auto& t : m) ts.push_back(mt(t.second, t.first)); P p(std::move(ts), false, false); U u = carl::to_univariate_polynomial(p); H_CHECK(u.mainVar() == VV(v.r), "main variable"); for (auto& t : m) H_CHECK(u.coefficients()[t.first[v.r]] == t.second, "coefficient"); std::size_t nz = 0; for (auto& q : u.coefficients()) if (q != 0) ++nz; H_CHECK(nz == m.size() && u.coefficients().back() != 0, "coefficients"); CK(P(u), m, "forth and back"); return ""; });
H_MAIN
