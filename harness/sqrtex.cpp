// Run-time oracles for square root expressions (bounded stand-in and replay target).
// links: carl/numbers/adaption_gmpxx/operations.cpp carl/core/VariablePool.cpp carl/core/Variable.cpp carl/util/Pool.cpp carl/core/MonomialPool.cpp carl/core/Monomial.cpp
#include "types.h"
#include <array>
#include <carl/core/VariablePool.h>
#include <carl/core/MultivariatePolynomial.h>
#include <carl/vs/SqrtEx.h>
using Q = mpq_class; using Z = mpz_class; using P = carl::MultivariatePolynomial<Q>; using T = carl::Term<Q>; using S = carl::SqrtEx<P>;
constexpr int NV = 2;
using E = std::array<unsigned, NV>;
struct Po { std::vector<std::pair<Q, E>> t; };
struct Ex { Po q, r, d; };
namespace hh {
template<> struct Arg<Po> {
	static std::vector<Po> all() { return {{{}}, {{{Q(1), E{}}}}, {{{Q(-2), E{}}}}, {{{Q(1), E{1}}}}, {{{Q(4), E{2}}}}, {{{Q(2), E{1}}, {Q(-3), E{}}}}, {{{Q(1), E{2}}, {Q(1), E{0, 1}}}}, {{{Q(4), E{1}}, {Q(4), E{}}}}}; }
	static Po gen(Rng& r) { Po p; auto n = r.below(3); for (std::size_t i = 0; i < n; ++i) { Q q((long)r.in(-6, 6), 1 + (long)r.below(3)); q.canonicalize(); p.t.emplace_back(q, E{(unsigned)r.below(3), (unsigned)r.below(2)}); } if (r.coin()) p.t.emplace_back(Q((long)r.in(-5, 5)), E{}); return p; }
	static std::string str(const Po& p) { std::string s = "P"; for (auto& t : p.t) s += "+" + t.first.get_str() + "*" + std::to_string(t.second[0]) + "." + std::to_string(t.second[1]); return s; }
	static Po parse(const std::string& s) { Po p; std::stringstream ss(s.substr(1)); std::string t; while (std::getline(ss, t, '+')) if (!t.empty()) { auto k = t.find('*'), l = t.find('.'); p.t.emplace_back(Arg<Q>::parse(t.substr(0, k)), E{(unsigned)std::stoul(t.substr(k + 1)), (unsigned)std::stoul(t.substr(l + 1))}); } return p; }
};
template<> struct Arg<Ex> {
	static std::vector<Ex> all() { std::vector<Ex> v; auto ps = Arg<Po>::all(); Po one{{{Q(1), E{}}}}, two{{{Q(2), E{}}}}, x{{{Q(2), E{1}}}}; for (auto& a : ps) for (std::size_t i = 0; i < 3; ++i) { v.push_back({a, ps[i], one}); v.push_back({a, ps[i + 1], i == 1 ? two : x}); } return v; }
	static Ex gen(Rng& r) { Ex e{Arg<Po>::gen(r), r.coin() ? Po{} : Arg<Po>::gen(r), Arg<Po>::gen(r)}; if (r.coin()) { unsigned k = 1 + (unsigned)r.below(2); for (auto* p : {&e.q, &e.r, &e.d}) for (auto& t : p->t) t.second[0] += k; } return e; }
	static std::string str(const Ex& e) { return Arg<Po>::str(e.q) + ";" + Arg<Po>::str(e.r) + ";" + Arg<Po>::str(e.d); }
	static Ex parse(const std::string& s) { auto a = s.find(';'), b = s.find(';', a + 1); return {Arg<Po>::parse(s.substr(0, a)), Arg<Po>::parse(s.substr(a + 1, b - a - 1)), Arg<Po>::parse(s.substr(b + 1))}; }
};
}
static carl::Variable VV(int i) { static carl::Variable v[NV] = {carl::freshRealVariable("x"), carl::freshRealVariable("y")}; return v[i]; }
static P mk(const Po& a) { P p; for (auto& t : a.t) { carl::Monomial::Arg m; for (int i = 0; i < NV; ++i) if (t.second[i]) m = m * carl::createMonomial(VV(i), t.second[i]); p += T(t.first, m); } return p; }
static S mk(const Ex& e, const Po& t) { return S(mk(e.q), mk(e.r), mk(e.d), mk(t)); }
using Pt = std::array<Q, NV>;
static Q ev(const P& p, const Pt& x) { Q r = 0; for (auto& t : p.getTerms()) { Q m = t.coeff(); if (t.monomial()) for (auto& ve : *t.monomial()) for (int i = 0; i < NV; ++i) if (ve.first == VV(i)) for (unsigned k = 0; k < ve.second; ++k) m *= x[i]; r += m; } return r; }
static bool root(const Q& q, Q& r) { if (sgn(q) < 0 || !mpz_perfect_square_p(q.get_num_mpz_t()) || !mpz_perfect_square_p(q.get_den_mpz_t())) return false; Z a, b; mpz_sqrt(a.get_mpz_t(), q.get_num_mpz_t()); mpz_sqrt(b.get_mpz_t(), q.get_den_mpz_t()); r = Q(a, b); return true; }
struct Val { bool def; Q a, b; };       // a + b*sqrt(t)
static Val norm(Val v, const Q& t) { Q s; if (root(t, s)) { v.a += v.b * s; v.b = 0; } return v; }
// the value of an expression as a number over sqrt(t)
static Val value(const P& q, const P& r, const P& d, const P& rad, const Q& t, const Pt& x) {
	Q dv = ev(d, x), rv = ev(rad, x), f; if (sgn(dv) == 0 || sgn(rv) < 0) return {false, 0, 0};
	Val v{true, ev(q, x) / dv, ev(r, x) / dv}; if (sgn(rv) == 0 || sgn(v.b) == 0) { v.b = 0; return norm(v, t); }
	if (root(rv, f)) { v.a += v.b * f; v.b = 0; return norm(v, t); }
	if (sgn(t) <= 0 || !root(rv / t, f)) return {false, 0, 0};
	v.b *= f; return norm(v, t);
}
static Val value(const S& s, const Q& t, const Pt& x) { return value(s.constantPart(), s.factor(), s.denominator(), s.radicand(), t, x); }
static const std::vector<Pt>& points() { static std::vector<Pt> v; if (v.empty()) for (Q a : {Q(1), Q(2), Q(3), Q(1, 2), Q(5)}) for (Q b : {Q(1), Q(3), Q(4), Q(2, 3)}) v.push_back({a, b}); return v; }
static bool zero(const Po& p) { return carl::isZero(mk(p)); }
static bool negconst(const Po& p) { P q = mk(p); return q.isConstant() && !carl::isZero(q) && q.constantPart() < 0; }
template<class F> static std::string over(const P& t, const F& f) { for (auto& x : points()) { Q tv = ev(t, x); if (sgn(tv) < 0) continue; auto m = f(x, tv); if (!m.empty()) return m; } return ""; }
static std::string show(const S& s) { std::stringstream o; o << s; return o.str(); }
static std::string same(const Val& got, const Val& want, const Pt& x, const S& r, const char* op) { H_CHECK(got.def, op << ": result " << show(r) << " not defined at (" << x[0] << "," << x[1] << ")"); H_CHECK(got.a == want.a && got.b == want.b, op << " at (" << x[0] << "," << x[1] << "): got " << got.a << "+" << got.b << "*s, want " << want.a << "+" << want.b << "*s; result " << show(r)); return ""; }
H_REG(create, "c30.create", [](const Ex& a, const Po& t) -> std::string {
	if (zero(a.d) || negconst(t)) H_SKIP; S s = mk(a, t); P q = mk(a.q), r = mk(a.r), d = mk(a.d), T_ = mk(t);
	return over(T_, [&](const Pt& x, const Q& tv) -> std::string { Val w = value(q, r, d, T_, tv, x); if (!w.def) return ""; return same(value(s, tv, x), w, x, s, "construction"); }); });
template<class F, class G> static std::string binary(const Ex& a, const Ex& b, const Po& t, const char* n, const F& f, const G& g) {
	if (zero(a.d) || zero(b.d) || negconst(t)) H_SKIP; S A = mk(a, t), B = mk(b, t); if (A.hasSqrt() && B.hasSqrt() && !(A.radicand() == B.radicand())) H_SKIP;
	S R = f(A, B);
	P rad = A.hasSqrt() ? A.radicand() : B.radicand();
	return over(mk(t), [&](const Pt& x, const Q& tv) -> std::string { Val u = value(A, tv, x), v = value(B, tv, x); if (!u.def || !v.def) return ""; return same(value(R, tv, x), norm(g(u, v, tv), tv), x, R, n); });
}
H_REG(add, "c30.add", [](const Ex& a, const Ex& b, const Po& t) -> std::string { return binary(a, b, t, "+", [](const S& x, const S& y) { return x + y; }, [](const Val& u, const Val& v, const Q&) { return Val{true, u.a + v.a, u.b + v.b}; }); });
H_REG(sub, "c30.sub", [](const Ex& a, const Ex& b, const Po& t) -> std::string { return binary(a, b, t, "-", [](const S& x, const S& y) { return x - y; }, [](const Val& u, const Val& v, const Q&) { return Val{true, u.a - v.a, u.b - v.b}; }); });
H_REG(mul, "c30.mul", [](const Ex& a, const Ex& b, const Po& t) -> std::string { return binary(a, b, t, "*", [](const S& x, const S& y) { return x * y; }, [](const Val& u, const Val& v, const Q& t) { return Val{true, u.a * v.a + u.b * v.b * t, u.a * v.b + u.b * v.a}; }); });
H_REG(div, "c30.div", [](const Ex& a, const Ex& b, const Po& t) -> std::string {
	if (zero(a.d) || zero(b.d) || zero(b.q) || negconst(t)) H_SKIP; S A = mk(a, t), B(mk(b.q), P(), mk(b.d), P()); S R = A / B;
	return over(mk(t), [&](const Pt& x, const Q& tv) -> std::string { Val u = value(A, tv, x), v = value(B, tv, x); if (!u.def || !v.def || sgn(v.a) == 0) return ""; return same(value(R, tv, x), Val{true, u.a / v.a, u.b / v.a}, x, R, "/"); }); });
H_REG(conv, "c30.convert", [](const Ex& a, const Po& t) -> std::string {
	if (zero(a.d) || negconst(t)) H_SKIP; S s = mk(a, t);
	return over(mk(t), [&](const Pt& x, const Q& tv) -> std::string { Val u = value(s, tv, x); if (!u.def) return ""; if (s.isPolynomial()) H_CHECK(ev(s.asPolynomial(), x) == u.a, "asPolynomial of " << show(s)); if (s.isRational()) H_CHECK(s.asRational() == u.a, "asRational of " << show(s) << " is " << s.asRational()); if (s.isInteger()) H_CHECK(u.a.get_den() == 1, "isInteger of " << show(s)); return ""; }); });
H_REG(evl, "c30.evaluate", [](const Ex& a, const Po& t) -> std::string {
	if (zero(a.d) || negconst(t)) H_SKIP; S s = mk(a, t);
	return over(mk(t), [&](const Pt& x, const Q& tv) -> std::string { Val u = value(s, tv, x); if (!u.def || sgn(u.b) != 0) return ""; std::map<carl::Variable, Q> m; for (int i = 0; i < NV; ++i) m[VV(i)] = x[i]; Q res, rr; if (!root(ev(s.radicand(), x), rr)) return ""; bool e = s.evaluate(res, m, 1); H_CHECK(e, "evaluate of " << show(s) << " exact: " << e); if (e) H_CHECK(res == u.a, "evaluate of " << show(s) << " is " << res << " instead of " << u.a); return ""; }); });
H_REG(subs, "c30.substitute", [](const Ex& a, const Po& t) -> std::string {
	if (zero(a.d) || negconst(t)) H_SKIP; S s = mk(a, t);
	return over(mk(t), [&](const Pt& x, const Q& tv) -> std::string { Val u = value(s, tv, x); if (!u.def) return ""; std::map<carl::Variable, Q> m; m[VV(0)] = x[0]; S r = s.substitute(m); return same(value(r, tv, x), u, x, r, "substitute"); }); });
H_REG(assign, "c30.assign", [](const Ex& a, const Ex& b, const Po& t) -> std::string { if (zero(a.d) || zero(b.d) || negconst(t)) H_SKIP; S s = mk(a, t), r = mk(b, t); s = r; H_CHECK(s == r, "assignment"); P p = mk(a.q); s = p; H_CHECK(s.isPolynomial() && s.asPolynomial() == p, "assignment of a polynomial"); return ""; });
H_REG(equal, "c30.equal", [](const Ex& a, const Ex& b, const Po& t) -> std::string { if (zero(a.d) || zero(b.d) || negconst(t)) H_SKIP; S s = mk(a, t), r = mk(b, t); if (!(s == r)) return ""; return over(mk(t), [&](const Pt& x, const Q& tv) -> std::string { Val u = value(s, tv, x), v = value(r, tv, x); H_CHECK(u.def == v.def && u.a == v.a && u.b == v.b, "equal but different"); return ""; }); });
H_MAIN
