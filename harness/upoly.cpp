// Run-time oracles for univariate polynomials (bounded stand-in and replay target): plain coefficient lists, lowest first.
// links: carl/numbers/adaption_gmpxx/operations.cpp carl/core/VariablePool.cpp carl/core/Variable.cpp carl/util/Pool.cpp carl/core/MonomialPool.cpp carl/core/Monomial.cpp
#ifndef NDEBUG
#define NDEBUG      // pseudo_remainder contains assertions that only compile for polynomial coefficients
#endif
#include "types.h"
#include <carl/core/UnivariatePolynomial.h>
#include <carl/core/VariablePool.h>
#include <carl/core/polynomialfunctions/Derivative.h>
#include <carl/core/polynomialfunctions/Division.h>
#include <carl/core/polynomialfunctions/Evaluation.h>
#include <carl/core/polynomialfunctions/GCD_univariate.h>
#include <carl/core/polynomialfunctions/Power.h>
#include <carl/core/polynomialfunctions/Remainder.h>
#include <carl/core/polynomialfunctions/Degree.h>
#include <carl/core/polynomialfunctions/SignVariations.h>
#include <carl/core/polynomialfunctions/RootBounds.h>
#include <carl/core/polynomialfunctions/RootCounting.h>
#include <carl/core/polynomialfunctions/SturmSequence.h>
using Q = mpq_class; using Z = mpz_class;
using P = carl::UnivariatePolynomial<Q>; using PZ = carl::UnivariatePolynomial<Z>;
using C = std::vector<Q>;
struct Pol { C c; };          // no leading zero
struct Lst { C c; };          // any list
struct Int { C c; };          // integer coefficients, no leading zero
struct Mp { std::map<carl::uint, Q> m; };
struct Sm { long n = 0; };
static void strip(C& c) { while (!c.empty() && c.back() == 0) c.pop_back(); }
static std::string join(const C& c) { std::string s; for (std::size_t i = 0; i < c.size(); ++i) s += (i ? "," : "") + c[i].get_str(); return c.empty() ? "-" : s; }
static C split(const std::string& s) { C c; if (s == "-" || s.empty()) return c; std::stringstream ss(s); std::string t; while (std::getline(ss, t, ',')) { Q q(t); q.canonicalize(); c.push_back(q); } return c; }
namespace hh {
static C genc(Rng& r, bool integer) {
	C c; std::size_t n = r.below(4) ? r.below(6) : r.below(12); bool sparse = r.coin();
	for (std::size_t i = 0; i < n; ++i) { Q q = sparse && r.coin() ? Q(0) : (r.below(4) ? Q(r.in(-6, 6)) : integer ? Q(r.in(-200, 200)) : Q(r.in(-12, 12), r.in(1, 7))); q.canonicalize(); c.push_back(q); }
	return c;
}
static std::vector<C> smallc() { std::vector<C> r; for (int n = 0; n <= 3; ++n) { int t = 1; for (int i = 0; i < n; ++i) t *= 5; for (int k = 0; k < t; ++k) { C c; int x = k; for (int i = 0; i < n; ++i) { c.push_back(Q(x % 5 - 2)); x /= 5; } if (n == 0 || c.back() != 0) r.push_back(c); } } return r; }
template<typename T, bool I, bool S> struct PA {
	static std::vector<T> all() { std::vector<T> r; for (auto& c : smallc()) r.push_back(T{c}); if (!S) { r.push_back(T{{Q(0)}}); r.push_back(T{{Q(1), Q(0)}}); r.push_back(T{{Q(0), Q(2), Q(0), Q(0)}}); } return r; }
	static T gen(Rng& r) { C c = genc(r, I); if (r.below(6) == 0) { C d = genc(r, I), e(c.size() + d.size() + 1); for (std::size_t i = 0; i < c.size(); ++i) for (std::size_t j = 0; j < d.size(); ++j) e[i + j] += c[i] * d[j]; c = e; if (c.size() > 10) c.resize(10); } if (S) strip(c); return T{c}; }
	static std::string str(const T& x) { return join(x.c); }
	static T parse(const std::string& s) { T t{split(s)}; if (S) strip(t.c); if (I) for (auto& q : t.c) if (q.get_den() != 1) throw Skip{}; return t; }
};
template<> struct Arg<Pol> : PA<Pol, false, true> {};
template<> struct Arg<Lst> : PA<Lst, false, false> {};
template<> struct Arg<Int> : PA<Int, true, true> {};
template<> struct Arg<Mp> {
	static std::vector<Mp> all() { std::vector<Mp> r(1); for (carl::uint i = 0; i < 4; ++i) { Mp m; m.m[i] = Q(2); r.push_back(m); for (carl::uint j = i + 1; j < 6; ++j) { Mp n = m; n.m[j] = Q(-3); r.push_back(n); n.m[j] = Q(0); r.push_back(n); } } return r; }
	static Mp gen(Rng& r) { Mp m; auto n = r.below(5); for (std::size_t i = 0; i < n; ++i) m.m[r.below(9)] = Q(r.in(-3, 3)); return m; }
	static std::string str(const Mp& x) { std::string s; for (auto& p : x.m) s += (s.empty() ? "" : ";") + std::to_string(p.first) + ":" + p.second.get_str(); return s.empty() ? "-" : s; }
	static Mp parse(const std::string& s) { Mp m; if (s == "-") return m; std::stringstream ss(s); std::string t; while (std::getline(ss, t, ';')) { auto k = t.find(':'); m.m[std::stoul(t.substr(0, k))] = Q(t.substr(k + 1)); } return m; }
};
template<> struct Arg<Sm> {
	static std::vector<Sm> all() { std::vector<Sm> r; for (long i = 0; i < 6; ++i) r.push_back({i}); return r; }
	static Sm gen(Rng& r) { return {r.in(0, 9)}; }
	static std::string str(const Sm& n) { return std::to_string(n.n); }
	static Sm parse(const std::string& s) { return {std::stol(s)}; }
};
}
static carl::Variable X() { static carl::Variable v = carl::freshRealVariable("x"); return v; }
static P mk(const C& c) { return P(X(), c); }
static PZ mkz(const C& c) { std::vector<Z> z; for (auto& q : c) z.push_back(q.get_num()); return PZ(X(), z); }
static C of(const P& p) { return C(p.coefficients().begin(), p.coefficients().end()); }
static C of(const PZ& p) { C r; for (auto& z : p.coefficients()) r.push_back(Q(z)); return r; }
// reference arithmetic
static C add(const C& a, const C& b, int s = 1) { C r(std::max(a.size(), b.size())); for (std::size_t i = 0; i < a.size(); ++i) r[i] += a[i]; for (std::size_t i = 0; i < b.size(); ++i) r[i] += s * b[i]; strip(r); return r; }
static C mul(const C& a, const C& b) { if (a.empty() || b.empty()) return {}; C r(a.size() + b.size() - 1); for (std::size_t i = 0; i < a.size(); ++i) for (std::size_t j = 0; j < b.size(); ++j) r[i + j] += a[i] * b[j]; strip(r); return r; }
static C sc(const C& a, const Q& c) { C r = a; for (auto& x : r) x *= c; strip(r); return r; }
static std::pair<C, C> divm(C a, const C& b) { C q(a.size() >= b.size() ? a.size() - b.size() + 1 : 0); while (a.size() >= b.size()) { Q f = a.back() / b.back(); std::size_t d = a.size() - b.size(); q[d] = f; for (std::size_t i = 0; i < b.size(); ++i) a[i + d] -= f * b[i]; a.pop_back(); strip(a); } strip(q); return {q, a}; }
static C monic(const C& a) { return a.empty() ? a : sc(a, 1 / a.back()); }
static C gcd_(C a, C b) { while (!b.empty()) { C r = divm(a, b).second; a = b; b = r; } return monic(a); }
static Q ev(const C& a, const Q& x) { Q r = 0; for (std::size_t i = a.size(); i-- > 0;) r = r * x + a[i]; return r; }
static C der(const C& a) { C r; for (std::size_t i = 1; i < a.size(); ++i) r.push_back(a[i] * Q((long)i)); strip(r); return r; }
static Q pw(const Q& b, std::size_t e) { Q r = 1; while (e--) r *= b; return r; }
static int vars(const std::vector<Q>& s) { int n = 0, l = 0; for (auto& q : s) { int g = sgn(q); if (g) { if (l && l != g) ++n; l = g; } } return n; }
static std::vector<C> sturm(const C& a) { std::vector<C> s{a, der(a)}; while (!s.back().empty()) s.push_back(sc(divm(s[s.size() - 2], s.back()).second, -1)); s.pop_back(); return s; }
static int roots(const C& a, const Q& l, const Q& u) { auto s = sturm(a); std::vector<Q> x, y; for (auto& p : s) { x.push_back(ev(p, l)); y.push_back(ev(p, u)); } return vars(x) - vars(y); }
#define SAME(r, w, what) do { C h_r = of(r), h_w = (w); H_CHECK(h_r == h_w, what << " gives " << join(h_r) << " instead of " << join(h_w)); } while (0)
#define KEEP(p, c) H_CHECK(of(p) == c, "operand changed to " << join(of(p)))
// ---- C12
H_REG(a0, "c12.new", []() -> std::string { P p(X()); SAME(p, C{}, "zero polynomial"); H_CHECK(carl::isZero(p) && !carl::isOne(p), "zero test"); return ""; });
H_REG(a1, "c12.newc", [](mpq_class c, Sm d) -> std::string { if (d.n > 1000) H_SKIP; C w(d.n + 1); w.back() = c; strip(w); SAME(P(X(), c, d.n), w, "monomial"); return ""; });
H_REG(a2, "c12.newv", [](Lst v) -> std::string { C w = v.c; strip(w); SAME(P(X(), v.c), w, "from list"); C t = v.c; SAME(P(X(), std::move(t)), w, "from moved list"); return ""; });
H_REG(a3, "c12.map", [](Mp m) -> std::string { C w; for (auto& p : m.m) { if (p.first > 100000) H_SKIP; if (w.size() <= p.first) w.resize(p.first + 1); w[p.first] = p.second; } strip(w); SAME(P(X(), m.m), w, "from map"); return ""; });
H_REG(a4, "c12.copy", [](Pol a, Pol b) -> std::string { P p = mk(a.c), q = mk(b.c); P r(p); SAME(r, a.c, "copy"); KEEP(p, a.c); q = p; SAME(q, a.c, "assignment"); P t(std::move(r)); SAME(t, a.c, "move"); P u = mk(b.c); u = std::move(t); SAME(u, a.c, "move assignment"); return ""; });
H_REG(a5, "c12.query", [](Pol a) -> std::string { P p = mk(a.c); H_CHECK(carl::isZero(p) == a.c.empty(), "isZero"); H_CHECK(carl::isOne(p) == (a.c == C{Q(1)}), "isOne"); H_CHECK(carl::is_constant(p) == (a.c.size() <= 1), "is_constant"); H_CHECK(p.isNumber() == (a.c.size() <= 1), "isNumber");
	if (!a.c.empty()) { H_CHECK(p.tcoeff() == a.c[0], "tcoeff"); H_CHECK(p.lcoeff() == a.c.back(), "lcoeff"); H_CHECK(p.degree() == a.c.size() - 1, "degree"); H_CHECK(p.constantPart() == a.c[0], "constant part"); H_CHECK(p.zeroIsRoot() == (a.c[0] == 0), "zeroIsRoot"); } return ""; });
H_REG(a6, "c12.eq", [](Pol a, Pol b, bool same) -> std::string { if (same) b = a; P p = mk(a.c), q = mk(b.c); H_CHECK((p == q) == (a.c == b.c), "=="); H_CHECK((p != q) == (a.c != b.c), "!="); bool l = p < q, g = q < p; H_CHECK(!(l && g), "order is not antisymmetric"); H_CHECK(a.c == b.c ? !l && !g : l || g, "order is not total"); return ""; });
H_REG(a7, "c12.eqc", [](Pol a, mpq_class c, bool same) -> std::string { if (same) a.c = C{c}; strip(a.c); P p = mk(a.c); bool w = a.c == (c == 0 ? C{} : C{c}); H_CHECK((p == c) == w, "== number"); H_CHECK((c == p) == w, "number =="); return ""; });
H_REG(a8, "c12.neg", [](Pol a) -> std::string { P p = mk(a.c); SAME(-p, sc(a.c, -1), "-"); KEEP(p, a.c); return ""; });
#define BIN(id, nm, op, want) H_REG(id, "c12." nm, [](Pol a, Pol b, bool alias) -> std::string { P p = mk(a.c), q = mk(b.c); if (alias) { b = a; P r = p; r op##= r; SAME(r, want, nm "= with itself"); SAME(p op p, want, nm " with itself"); } else { SAME(p op q, want, nm); P r = p; r op##= q; SAME(r, want, nm "="); KEEP(q, b.c); } KEEP(p, a.c); return ""; })
BIN(b1, "add", +, add(a.c, b.c));
BIN(b2, "sub", -, add(a.c, b.c, -1));
BIN(b3, "mul", *, mul(a.c, b.c));
#define BC(id, nm, op, want) H_REG(id, "c12." nm, [](Pol a, mpq_class c) -> std::string { P p = mk(a.c); C k{c}; strip(k); SAME(p op c, want, nm); P r = p; r op##= c; SAME(r, want, nm "="); KEEP(p, a.c); return ""; })
BC(b4, "addc", +, add(a.c, k));
BC(b5, "subc", -, add(a.c, k, -1));
BC(b6, "mulc", *, sc(a.c, c));
H_REG(b7, "c12.divc", [](Pol a, mpq_class c) -> std::string { if (c == 0) H_SKIP; P p = mk(a.c); SAME(p / c, sc(a.c, 1 / c), "division by a number"); P r = p; r /= c; SAME(r, sc(a.c, 1 / c), "/="); return ""; });
H_REG(b8, "c12.cadd", [](mpq_class c, Pol a) -> std::string { C k{c}; strip(k); SAME(c + mk(a.c), add(k, a.c), "number +"); return ""; });
H_REG(b9, "c12.csub", [](mpq_class c, Pol a) -> std::string { C k{c}; strip(k); SAME(c - mk(a.c), add(k, a.c, -1), "number -"); return ""; });
H_REG(c0, "c12.cmul", [](mpq_class c, Pol a) -> std::string { SAME(c * mk(a.c), sc(a.c, c), "number *"); return ""; });
H_REG(c1, "c12.mulv", [](Pol a) -> std::string { C w = a.c; if (!w.empty()) w.insert(w.begin(), Q(0)); P p = mk(a.c); p *= X(); SAME(p, w, "times the variable"); return ""; });
H_REG(c2, "c12.norm", [](Pol a) -> std::string { if (a.c.empty()) H_SKIP; P p = mk(a.c); SAME(p.normalized(), monic(a.c), "normalized"); H_CHECK(p.isNormal() == (p.normalized() == p), "isNormal"); SAME(p.normalized() * p.lcoeff(), a.c, "normal times unit"); return ""; });
H_REG(c3, "c12.trunc", [](Pol a) -> std::string { if (a.c.empty()) H_SKIP; C w = a.c; w.pop_back(); strip(w); P p = mk(a.c); p.truncate(); SAME(p, w, "truncate"); return ""; });
H_REG(c4, "c12.rev", [](Pol a) -> std::string { C w(a.c.rbegin(), a.c.rend()); strip(w); SAME(mk(a.c).reverseCoefficients(), w, "reverse"); return ""; });
H_REG(c5, "c12.negv", [](Pol a) -> std::string { C w = a.c; for (std::size_t i = 1; i < w.size(); i += 2) w[i] = -w[i]; SAME(mk(a.c).negateVariable(), w, "negateVariable"); return ""; });
H_REG(c6, "c12.eval", [](Pol a, mpq_class x) -> std::string { Q r = carl::evaluate(mk(a.c), x), w = ev(a.c, x); H_CHECK(r == w, "value " << r << " instead of " << w); H_CHECK(carl::is_root_of(mk(a.c), x) == (w == 0), "is_root_of"); return ""; });
H_REG(c7, "c12.der", [](Pol a, Sm n) -> std::string { if (n.n > 200) H_SKIP; C w = a.c; for (long i = 0; i < n.n; ++i) w = der(w); SAME(carl::derivative(mk(a.c), std::size_t(n.n)), w, "derivative"); if (n.n == 1) SAME(carl::derivative(mk(a.c)), w, "derivative"); SAME(carl::derivative(mk(a.c), X(), n.n), w, "derivative by variable"); return ""; });
H_REG(c8, "c12.pow", [](Pol a, Sm n) -> std::string { if (n.n > 12 || a.c.size() > 8) H_SKIP; C w{Q(1)}; for (long i = 0; i < n.n; ++i) w = mul(w, a.c); SAME(carl::pow(mk(a.c), n.n), w, "power"); return ""; });
H_REG(c9, "c12.mod", [](Int a, mpz_class m) -> std::string { if (m <= 0) H_SKIP; C w; for (auto& q : a.c) w.push_back(Q(q.get_num() % m)); strip(w); PZ p = mkz(a.c); p.mod(m); SAME(p, w, "mod"); return ""; });
H_REG(d0, "c12.ring", [](Pol a, Pol b, Pol c) -> std::string { P p = mk(a.c), q = mk(b.c), r = mk(c.c); H_CHECK((p + q) * r == p * r + q * r, "distributivity"); H_CHECK(p * q == q * p, "commutativity"); H_CHECK((p * q) * r == p * (q * r), "associativity"); H_CHECK(p - p == P(X()), "inverse"); return ""; });
// ---- C13
#define NZB if (b.c.empty()) H_SKIP
H_REG(e0, "c13.div", [](Pol a, Pol b) -> std::string { NZB; auto w = divm(a.c, b.c); P p = mk(a.c), q = mk(b.c); auto r = carl::divide(p, q); SAME(r.quotient, w.first, "quotient"); SAME(r.remainder, w.second, "remainder"); KEEP(p, a.c); KEEP(q, b.c); return ""; });
H_REG(e1, "c13.zdiv", [](Int a, Int b) -> std::string { NZB; auto r = carl::divide(mkz(a.c), mkz(b.c)); C q = of(r.quotient), m = of(r.remainder); H_CHECK(add(mul(q, b.c), m) == a.c, "quotient " << join(q) << " and remainder " << join(m) << " do not recombine"); for (std::size_t i = b.c.size() - 1; i < m.size(); ++i) H_CHECK(abs(m[i]) < abs(b.c.back()), "remainder not reduced: " << join(m)); return ""; });
H_REG(e2, "c13.rem", [](Pol a, Pol b) -> std::string { NZB; SAME(carl::remainder(mk(a.c), mk(b.c)), divm(a.c, b.c).second, "remainder"); return ""; });
H_REG(e3, "c13.remp", [](Pol a, Pol b, mpq_class f) -> std::string { NZB; if (f == 0) H_SKIP; C w = divm(a.c, b.c).second; if (a.c.size() >= b.c.size()) w = sc(w, f); SAME(carl::remainder(mk(a.c), mk(b.c), f), w, "remainder with prefactor"); return ""; });
static C prem(const C& a, const C& b) { C w = divm(a, b).second; return a.size() >= b.size() ? sc(w, pw(b.back(), a.size() - b.size() + 1)) : w; }
H_REG(e4, "c13.prem", [](Pol a, Pol b) -> std::string { NZB; SAME(carl::pseudo_remainder(mk(a.c), mk(b.c)), prem(a.c, b.c), "pseudo remainder"); return ""; });
H_REG(e5, "c13.zprem", [](Int a, Int b) -> std::string { NZB; SAME(carl::pseudo_remainder(mkz(a.c), mkz(b.c)), prem(a.c, b.c), "pseudo remainder"); return ""; });
static C sprem(const C& a, const C& b) { C w = divm(a, b).second; if (a.size() < b.size()) return w; std::size_t d = a.size() - b.size() + 1; return sc(w, pw(b.back(), d + d % 2)); }
H_REG(e6, "c13.sprem", [](Pol a, Pol b) -> std::string { NZB; SAME(carl::signed_pseudo_remainder(mk(a.c), mk(b.c)), sprem(a.c, b.c), "signed pseudo remainder"); return ""; });
H_REG(e7, "c13.zsprem", [](Int a, Int b) -> std::string { NZB; SAME(carl::signed_pseudo_remainder(mkz(a.c), mkz(b.c)), sprem(a.c, b.c), "signed pseudo remainder"); return ""; });
H_REG(e8, "c13.gcd", [](Pol a, Pol b, Pol c) -> std::string { NZB; if (a.c.empty()) H_SKIP; SAME(carl::gcd(mk(a.c), mk(b.c)), gcd_(a.c, b.c), "gcd"); if (!c.c.empty()) { C x = mul(a.c, c.c), y = mul(b.c, c.c); SAME(carl::gcd(mk(x), mk(y)), gcd_(x, y), "gcd with a common factor"); } return ""; });
H_REG(e9, "c13.egcd", [](Pol a, Pol b) -> std::string { NZB; if (a.c.empty()) H_SKIP; P s(X()), t(X()); P g = carl::extended_gcd(mk(a.c), mk(b.c), s, t); SAME(g, gcd_(a.c, b.c), "extended gcd"); C w = add(mul(of(s), a.c), mul(of(t), b.c)); H_CHECK(w == of(g), "s a + t b = " << join(w)); return ""; });
H_REG(f0, "c13.syn", [](Pol a, mpq_class z, bool f) -> std::string { if (f) a.c = mul(a.c, C{-z, Q(1)}); P p = mk(a.c); Q r = p.syntheticDivision(z), w = ev(a.c, z); H_CHECK(r == w, "remainder " << r << " instead of " << w); C q = w == 0 && a.c.size() >= 2 ? divm(a.c, C{-z, Q(1)}).first : a.c; SAME(p, q, "synthetic division"); return ""; });
// ---- C14
H_REG(g0, "c14.bounds", [](Pol a) -> std::string {
	P p = mk(a.c); Q big = 2; for (auto& q : a.c) big += a.c.empty() ? Q(0) : abs(q / a.c.back());
	Q cb = carl::cauchyBound(p), hm = carl::hirstMaceyBound(p), lb = carl::lagrangeBound(p), pu = carl::lagrangePositiveUpperBound(p);
	if (a.c.size() <= 1) { H_CHECK(cb == 0 && hm == 0 && lb == 0 && pu == 0, "bound of a constant"); return ""; }
	Q M = 0, S = 0; for (std::size_t i = 0; i + 1 < a.c.size(); ++i) { Q x = abs(a.c[i] / a.c.back()); S += x; if (x > M) M = x; }
	H_CHECK(cb == 1 + M, "Cauchy bound " << cb); H_CHECK(hm == (S > 1 ? S : Q(1)), "Hirst-Macey bound " << hm);
	auto out = [&](const Q& b) { return (ev(a.c, b) != 0 ? roots(a.c, b, big + b) : roots(divm(a.c, C{-b, Q(1)}).first, b + Q(1, 1000000), big + b)); };
	auto neg = [&](C c) { for (std::size_t i = 1; i < c.size(); i += 2) c[i] = -c[i]; return c; };
	C m = neg(a.c); auto outn = [&](const Q& b) { return (ev(m, b) != 0 ? roots(m, b, big + b) : roots(divm(m, C{-b, Q(1)}).first, b + Q(1, 1000000), big + b)); };
	for (auto& b : {cb, hm, lb}) { H_CHECK(b >= 0, "negative bound"); H_CHECK(out(b) == 0 && outn(b) == 0, "a root lies beyond the bound " << b); }
	H_CHECK(out(pu) == 0, "a positive root lies beyond " << pu);
	Q pl = carl::lagrangePositiveLowerBound(p), nu = carl::lagrangeNegativeUpperBound(p); C z = a.c; while (z[0] == 0) z.erase(z.begin()); if (z.size() <= 1) return "";
	C mz = neg(z); H_CHECK(pl >= 0 && nu <= 0, "sign of the bounds"); Q npl = -nu;
	auto in = [&](const C& c, const Q& b) { return b == 0 ? 0 : ev(c, b) != 0 ? roots(c, Q(0), b) : roots(divm(c, C{-b, Q(1)}).first, Q(0), b * Q(999999, 1000000)); };
	H_CHECK(in(z, pl) == 0, "a positive root lies below " << pl); H_CHECK(in(mz, npl) == 0, "a negative root lies above " << nu);
	return ""; });
H_REG(g1, "c14.sturm", [](Pol a, Pol b) -> std::string { auto s = carl::sturm_sequence(mk(a.c), mk(b.c)); std::vector<C> w{a.c, b.c}; if (!a.c.empty() && !b.c.empty()) while (true) { C r = sc(divm(w[w.size() - 2], w.back()).second, -1); if (r.empty()) break; w.push_back(r); } H_CHECK(s.size() == w.size(), "length " << s.size()); for (std::size_t i = 0; i < w.size(); ++i) SAME(s[i], w[i], "member " << i);
	auto t = carl::sturm_sequence(mk(a.c)); H_CHECK(t == carl::sturm_sequence(mk(a.c), mk(der(a.c))), "sequence with the derivative"); return ""; });
static carl::Interval<Q> iv(const Q& l, const Q& u) { return carl::Interval<Q>(l, carl::BoundType::WEAK, u, carl::BoundType::WEAK); }
H_REG(g2, "c14.count", [](Pol a, mpq_class l, mpq_class u) -> std::string { if (l > u) std::swap(l, u); if (a.c.empty() || ev(a.c, l) == 0 || ev(a.c, u) == 0) H_SKIP; int r = carl::count_real_roots(mk(a.c), iv(l, u)), w = roots(a.c, l, u); H_CHECK(r == w, "counts " << r << " instead of " << w); return ""; });
H_REG(g3, "c14.countf", [](mpq_class r1, mpq_class r2, mpq_class r3, Sm e, mpq_class l, mpq_class u) -> std::string { // product of linear factors and a positive quadratic
	if (l > u) std::swap(l, u); if (e.n > 3) H_SKIP; for (auto& r : {r1, r2, r3}) if (l == r || u == r) H_SKIP; C p{Q(1)}; std::set<Q> in; for (auto& r : {r1, r2, r3}) { p = mul(p, C{-r, Q(1)}); if (l < r && r < u) in.insert(r); } for (long i = 0; i < e.n; ++i) p = mul(p, C{-r1, Q(1)}); p = mul(p, C{Q(2), Q(1), Q(1)});
	int c = carl::count_real_roots(mk(p), iv(l, u)); H_CHECK(c == (int)in.size(), "counts " << c << " instead of " << in.size() << " for " << join(p)); if (l < u) { auto v = carl::sign_variations(mk(p), carl::Interval<Q>(l, carl::BoundType::STRICT, u, carl::BoundType::STRICT)); std::size_t k = (l < r1 && r1 < u ? e.n + 1 : 0) + (l < r2 && r2 < u) + (l < r3 && r3 < u); H_CHECK(v >= k && (v - k) % 2 == 0, v << " sign variations for " << k << " roots of " << join(p)); } return ""; });
H_REG(g4, "c14.countseq", [](Pol a, Pol b, mpq_class l, mpq_class u) -> std::string { std::vector<C> s{a.c, b.c, add(a.c, b.c), mul(a.c, b.c)}; std::vector<P> t; std::vector<Q> x, y; for (auto& c : s) { t.push_back(mk(c)); x.push_back(ev(c, l)); y.push_back(ev(c, u)); } if (l > u) H_SKIP; int r = carl::count_real_roots(t, iv(l, u)); H_CHECK(r == vars(x) - vars(y), "count " << r); return ""; });
static C shift(const C& a, const Q& s) { C r; for (std::size_t i = a.size(); i-- > 0;) r = add(mul(r, C{s, Q(1)}), C{a[i]}); strip(r); return r; }
H_REG(g5, "c14.shift", [](Pol a, mpq_class s) -> std::string { if (a.c.empty()) H_SKIP; SAME(carl::detail_sign_variations::shift(mk(a.c), s), shift(a.c, s), "shift"); return ""; });
H_REG(g6, "c14.scale", [](Pol a, mpq_class f) -> std::string { if (f <= 0) H_SKIP; C w = a.c; for (std::size_t i = 0; i < w.size(); ++i) w[i] *= pw(f, i + 1); SAME(carl::detail_sign_variations::scale(mk(a.c), f), w, "scale"); return ""; });
H_REG(g7, "c14.rev", [](Pol a) -> std::string { C w(a.c.rbegin(), a.c.rend()); strip(w); SAME(carl::detail_sign_variations::reverse(mk(a.c)), w, "reverse"); return ""; });
H_REG(g8, "c14.sv", [](Pol a, mpq_class l, mpq_class u) -> std::string { if (a.c.empty() || l >= u) H_SKIP; C w = shift(a.c, l); for (std::size_t i = 0; i < w.size(); ++i) w[i] *= pw(u - l, i); w = C(w.rbegin(), w.rend()); strip(w); w = shift(w, 1); auto r = carl::sign_variations(mk(a.c), iv(l, u)); H_CHECK((int)r == vars(w), r << " sign variations instead of " << vars(w)); return ""; });
H_MAIN
