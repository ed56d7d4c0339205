// Run-time oracles for content, primitive part, coprime scaling and factorisations (bounded stand-in and replay target).
// links: carl/numbers/adaption_gmpxx/operations.cpp carl/core/VariablePool.cpp carl/core/Variable.cpp carl/util/Pool.cpp carl/core/MonomialPool.cpp carl/core/Monomial.cpp
#ifndef NDEBUG
#define NDEBUG      // pseudo_remainder contains assertions that only compile for polynomial coefficients
#endif
#include "types.h"
#include <carl/core/MultivariatePolynomial.h>
#include <carl/core/UnivariatePolynomial.h>
#include <carl/core/VariablePool.h>
#include <carl/core/polynomialfunctions/Content.h>
#include <carl/core/polynomialfunctions/Factorization.h>
#include <carl/core/polynomialfunctions/Factorization_univariate.h>
#include <carl/core/polynomialfunctions/PrimitivePart.h>
#include <carl/core/polynomialfunctions/SquareFreePart.h>
using Q = mpq_class; using Z = mpz_class; using C = std::vector<Q>;
using P = carl::UnivariatePolynomial<Q>; using PZ = carl::UnivariatePolynomial<Z>; using M = carl::MultivariatePolynomial<Q>;
struct Pol { C c; }; struct Int { C c; }; struct Po { std::map<std::vector<unsigned>, Q> t; };
static void strip(C& c) { while (!c.empty() && c.back() == 0) c.pop_back(); }
static C mul(const C& a, const C& b) { if (a.empty() || b.empty()) return {}; C r(a.size() + b.size() - 1); for (std::size_t i = 0; i < a.size(); ++i) for (std::size_t j = 0; j < b.size(); ++j) r[i + j] += a[i] * b[j]; strip(r); return r; }
static std::string join(const C& c) { std::string s; for (std::size_t i = 0; i < c.size(); ++i) s += (i ? "," : "") + c[i].get_str(); return c.empty() ? "-" : s; }
static C split(const std::string& s) { C c; if (s == "-" || s.empty()) return c; std::stringstream ss(s); std::string t; while (std::getline(ss, t, ',')) { Q q(t); q.canonicalize(); c.push_back(q); } return c; }
static C genc(hh::Rng& r, bool integer) { C c{Q(1)}; if (r.coin()) { c.clear(); std::size_t n = 1 + r.below(5); for (std::size_t i = 0; i < n; ++i) { Q q(r.in(-12, 12), integer ? 1 : r.in(1, 6)); q.canonicalize(); c.push_back(q); } strip(c); return c; }
	std::size_t n = 1 + r.below(4); for (std::size_t i = 0; i < n; ++i) { C f; std::size_t m = 1 + r.below(3); for (std::size_t j = 0; j < m; ++j) f.push_back(Q(r.in(-5, 5))); strip(f); if (f.empty()) f.push_back(Q(1)); std::size_t e = 1 + r.below(3); while (e--) c = mul(c, f); if (c.size() > 9) break; } if (!integer && r.coin()) { Q q(r.in(1, 9), r.in(1, 9)); q.canonicalize(); c = mul(c, {q}); } return c; }
static std::vector<C> smallc() { std::vector<C> r; for (int n = 0; n <= 3; ++n) { int t = 1; for (int i = 0; i < n; ++i) t *= 5; for (int k = 0; k < t; ++k) { C c; int x = k; for (int i = 0; i < n; ++i) { c.push_back(Q(x % 5 - 2)); x /= 5; } strip(c); r.push_back(c); } } return r; }
namespace hh {
template<typename T, bool I> struct PA { static std::vector<T> all() { std::vector<T> r; for (auto& c : smallc()) r.push_back(T{c}); return r; } static T gen(Rng& r) { return T{genc(r, I)}; } static std::string str(const T& t) { return join(t.c); } static T parse(const std::string& s) { return T{split(s)}; } };
template<> struct Arg<Pol> : PA<Pol, false> {};
template<> struct Arg<Int> : PA<Int, true> {};
template<> struct Arg<Po> {
	static std::vector<Po> all() { std::vector<Po> r; for (int a = -2; a <= 2; ++a) for (int b = -2; b <= 2; ++b) for (int c = -2; c <= 2; ++c) { Po p; if (a) p.t[{1, 0}] = a * 2; if (b) p.t[{0, 1}] = Q(b) * 3; if (c) p.t[{0, 0}] = c * 6; r.push_back(p); } return r; }
	static Po gen(Rng& r) { Po p; std::size_t n = r.below(6); for (std::size_t i = 0; i < n; ++i) { Q q(r.in(-24, 24) * r.in(1, 3), r.in(1, 12)); q.canonicalize(); if (q != 0) p.t[{(unsigned)r.below(3), (unsigned)r.below(3)}] = q; } return p; }
	static std::string str(const Po& p) { std::string s; for (auto& e : p.t) s += (s.empty() ? "" : ";") + std::to_string(e.first[0]) + "." + std::to_string(e.first[1]) + ":" + e.second.get_str(); return s.empty() ? "0" : s; }
	static Po parse(const std::string& s) { Po p; if (s == "0") return p; std::stringstream ss(s); std::string t; while (std::getline(ss, t, ';')) { auto d = t.find('.'), c = t.find(':'); Q q(t.substr(c + 1)); q.canonicalize(); p.t[{(unsigned)std::stoul(t), (unsigned)std::stoul(t.substr(d + 1))}] = q; } return p; }
};
}
static carl::Variable X() { static auto v = carl::freshRealVariable("x"); return v; }
static carl::Variable Y() { static auto v = carl::freshRealVariable("y"); return v; }
static P up(const C& c) { return P(X(), c); }
static PZ upz(const C& c) { std::vector<Z> z; for (auto& q : c) z.push_back(q.get_num()); return PZ(X(), z); }
static M mp(const Po& p) { M r; for (auto& e : p.t) { M t(e.second); for (unsigned i = 0; i < e.first[0]; ++i) t *= M(X()); for (unsigned i = 0; i < e.first[1]; ++i) t *= M(Y()); r += t; } return r; }
static C co(const P& p) { C c(p.coefficients().begin(), p.coefficients().end()); strip(c); return c; }
static C co(const PZ& p) { C c; for (auto& z : p.coefficients()) c.push_back(Q(z)); strip(c); return c; }
static Po co(const M& p) { Po r; for (auto& t : p) { std::vector<unsigned> e{0, 0}; if (t.monomial()) { e[0] = (unsigned)t.monomial()->exponentOfVariable(X()); e[1] = (unsigned)t.monomial()->exponentOfVariable(Y()); } r.t[e] += t.coeff(); } return r; }
static Z gcdall(const C& c) { Z g = 0; for (auto& q : c) { mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), q.get_num().get_mpz_t()); } return g; }
static bool integral(const C& c) { for (auto& q : c) if (q.get_den() != 1) return false; return true; }
static C scaled(const C& c, const Q& f) { C r = c; for (auto& q : r) q *= f; return r; }
static C vals(const Po& p) { C c; for (auto& e : p.t) c.push_back(e.second); return c; }
static C der(const C& c) { C r; for (std::size_t i = 1; i < c.size(); ++i) r.push_back(c[i] * Q((long)i)); strip(r); return r; }
static C mod(C a, const C& b) { while (a.size() >= b.size() && !a.empty()) { Q f = a.back() / b.back(); for (std::size_t i = 0; i < b.size(); ++i) a[a.size() - b.size() + i] -= f * b[i]; a.pop_back(); strip(a); } return a; }
static C pgcd(C a, C b) { while (!b.empty()) { C r = mod(a, b); a = b; b = r; } return a; }
static std::string show(const Q& q) { return q.get_str(); }
H_REG(ucop, "c31.coprime", [](const Pol& a) -> std::string {
	if (a.c.empty()) { H_CHECK(co(up(a.c).coprimeCoefficients()).empty(), "scaling of zero"); H_CHECK(co(up(a.c).coprimeCoefficientsSignPreserving()).empty(), "scaling of zero"); return ""; }
	Q f = up(a.c).coprimeFactor(); C want = scaled(a.c, f), pos = scaled(a.c, abs(f)); H_CHECK(f != 0 && integral(want), "factor " << show(f) << " does not give integers"); H_CHECK(gcdall(want) == 1, "scaled coefficients have a common divisor");
	H_CHECK(co(up(a.c).coprimeCoefficients()) == want, "coefficients are not those times the factor"); H_CHECK(co(up(a.c).coprimeCoefficientsSignPreserving()) == pos, "sign preserving coefficients are not those times the absolute value of the factor"); return ""; });
H_REG(ucont, "c31.content", [](const Int& a) -> std::string { if (a.c.empty()) { H_CHECK(carl::content(upz(a.c)) == 0 && co(carl::primitive_part(upz(a.c))).empty(), "content of zero"); return ""; }
	C n = a.c.back() < 0 ? scaled(a.c, Q(-1)) : a.c; Z c = carl::content(upz(n)); H_CHECK(c == gcdall(n), "content is " << c); H_CHECK(co(carl::primitive_part(upz(n))) == scaled(n, Q(1, c)), "content times primitive part is not the polynomial");
	C q = co(carl::primitive_part(upz(a.c))); H_CHECK(scaled(q, a.c.back() < 0 ? Q(-c) : Q(c)) == a.c, "signed content times primitive part is not the polynomial"); return ""; });
H_REG(unum, "c31.numeric", [](const Pol& a) -> std::string { P p = up(a.c); if (a.c.empty()) { H_CHECK(p.numericContent() == 0, "numeric content of zero"); return ""; } Z d = p.mainDenom(), l = 1; for (auto& q : a.c) mpz_lcm(l.get_mpz_t(), l.get_mpz_t(), q.get_den().get_mpz_t()); H_CHECK(d == l, "main denominator " << d); Q c = p.numericContent(); C r = scaled(a.c, 1 / c); H_CHECK(integral(r) && gcdall(r) == 1, "numeric content " << show(c)); return ""; });
H_REG(unorm, "c31.normalized", [](const Pol& a) -> std::string { P p = up(a.c); if (a.c.empty()) { H_CHECK(co(p.normalized()).empty(), "normalised zero"); return ""; } Q u = p.unitPart(); H_CHECK(u == a.c.back(), "unit part"); H_CHECK(co(p.normalized()) == scaled(a.c, 1 / u), "unit part times normal part is not the polynomial"); return ""; });
H_REG(usq, "c31.squarefree", [](const Pol& a) -> std::string { P p = up(a.c); C s = co(carl::squareFreePart(p)); if (a.c.empty()) { H_CHECK(s.empty(), "square-free part of zero"); return ""; } H_CHECK(!s.empty(), "square-free part is zero"); H_CHECK(pgcd(s, der(s)).size() <= 1, "not square-free"); C g = pgcd(a.c, der(a.c)); C m = mul(s, der(a.c).empty() ? C{Q(1)} : g); H_CHECK(m.size() == a.c.size() && scaled(m, a.c.back() / m.back()) == a.c, "not the square-free part"); return ""; });
H_REG(usff, "c31.sff", [](const Pol& a) -> std::string { if (a.c.size() < 2) H_SKIP; C m{Q(1)}; for (auto& f : carl::squareFreeFactorization(up(a.c))) { C c = co(f.second); H_CHECK(pgcd(c, der(c)).size() <= 1, "a factor is not square-free"); for (unsigned i = 0; i < f.first; ++i) m = mul(m, c); } H_CHECK(m == a.c, "the product of the factors is " << join(m)); return ""; });
H_REG(ufac, "c31.factor", [](const Pol& a) -> std::string { if (a.c.empty()) H_SKIP; C m{Q(1)}; for (auto& f : carl::factorization(up(a.c))) for (unsigned i = 0; i < f.second; ++i) m = mul(m, co(f.first)); H_CHECK(m == a.c, "the product of the factors is " << join(m)); return ""; });
H_REG(mcop, "c31.mcoprime", [](const Po& a) -> std::string { M p = mp(a); if (a.t.empty()) { H_CHECK(co(p.coprimeCoefficients()).t.empty() && co(p.coprimeCoefficientsSignPreserving()).t.empty(), "scaling of zero"); return ""; }
	Q f = p.coprimeFactor(); C w = scaled(vals(a), f); H_CHECK(f != 0 && integral(w) && gcdall(w) == 1, "factor " << show(f)); H_CHECK(p.lcoeff() * f > 0, "sign of the factor"); Po want = a, pos = a; for (auto& e : want.t) e.second *= f; for (auto& e : pos.t) e.second *= abs(f);
	M s = p.coprimeCoefficients(), t = p.coprimeCoefficientsSignPreserving(); H_CHECK(co(s).t == want.t && s.nrTerms() == p.nrTerms(), "coefficients are not those times the factor"); H_CHECK(co(t).t == pos.t && t.nrTerms() == p.nrTerms(), "sign preserving coefficients"); H_CHECK(s.lmon() == p.lmon() && t.lmon() == p.lmon(), "leading term"); H_CHECK(s == mp(want) && t == mp(pos), "comparison"); return ""; });
H_REG(mcopnc, "c31.mcoprime_nc", [](const Po& a) -> std::string { Po b = a; b.t.erase({0, 0}); if (b.t.empty()) H_SKIP; M p = mp(a); Q f = p.coprimeFactorWithoutConstant(); C w = scaled(vals(b), f); H_CHECK(f != 0 && integral(w) && gcdall(w) == 1, "factor " << show(f)); H_CHECK(p.lcoeff() * f > 0, "sign of the factor"); return ""; });
H_REG(mfac, "c31.mfactor", [](const Po& a) -> std::string { M p = mp(a), m(1); for (auto& f : carl::factorization(p)) for (unsigned i = 0; i < f.second; ++i) m *= f.first; H_CHECK(co(m).t == a.t, "the product of the factors is not the polynomial"); M n = p.normalize(); if (!a.t.empty()) { H_CHECK(n.lcoeff() == 1 && co(n * p.lcoeff()).t == a.t, "normalisation"); } return ""; });
H_MAIN
