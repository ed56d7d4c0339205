// Run-time oracles for interval evaluation (bounded stand-in and replay target).
// links: carl/numbers/adaption_gmpxx/operations.cpp carl/core/VariablePool.cpp carl/core/Variable.cpp carl/util/Pool.cpp carl/core/MonomialPool.cpp carl/core/Monomial.cpp
#include "types.h"
#include <array>
#include <carl/core/VariablePool.h>
#include <carl/core/MultivariatePolynomial.h>
#include <carl/core/UnivariatePolynomial.h>
#include <carl/interval/Interval.h>
#include <carl/interval/IntervalEvaluation.h>
using Q = mpq_class; using Z = mpz_class; using P = carl::MultivariatePolynomial<Q>; using T = carl::Term<Q>; using I = carl::Interval<Q>; using carl::BoundType;
constexpr int NV = 5;
struct Iv { int lt, ut; Q l, u; };
using E = std::array<unsigned, NV>;
struct Box { std::array<Iv, NV> b; };
struct Po { std::vector<std::pair<Q, E>> t; };
static bool in(const I& i, const Q& x) { int lt = (int)i.lowerBoundType(), ut = (int)i.upperBoundType(); return (lt == 2 || (lt == 1 ? i.lower() <= x : i.lower() < x)) && (ut == 2 || (ut == 1 ? x <= i.upper() : x < i.upper())); }
static bool in(const Iv& i, const Q& x) { return (i.lt == 2 || (i.lt == 1 ? i.l <= x : i.l < x)) && (i.ut == 2 || (i.ut == 1 ? x <= i.u : x < i.u)); }
static Iv fixI(Iv i) { if (i.lt == 2 && i.ut == 2) i.l = i.u = 0; else if (i.lt == 2) i.l = i.u; else if (i.ut == 2) i.u = i.l; else { if (i.u < i.l) std::swap(i.l, i.u); if (i.l == i.u) i.lt = i.ut = 1; } return i; }
static I mkI(const Iv& i) { return I(i.l, (BoundType)i.lt, i.u, (BoundType)i.ut); }
static std::string show(const Iv& p) { return (p.lt == 2 ? std::string("(-inf") : (p.lt == 1 ? "[" : "(") + p.l.get_str()) + "," + (p.ut == 2 ? std::string("inf)") : p.u.get_str() + (p.ut == 1 ? "]" : ")")); }
static std::string show(const I& i) { return show(Iv{(int)i.lowerBoundType(), (int)i.upperBoundType(), i.lower(), i.upper()}); }
namespace hh {
static Iv genI(Rng& r) { auto e = [&]() { return r.below(3) ? Q((long)r.in(-4, 4)) : Q((long)r.in(-50, 50), 1 + (long)r.below(7)); }; Q a = e(), b = e(); a.canonicalize(); b.canonicalize(); return fixI(Iv{r.below(7) ? (int)r.below(2) : 2, r.below(7) ? (int)r.below(2) : 2, a, b}); }
template<> struct Arg<Box> {
	static std::vector<Box> all() { std::vector<Box> v; std::vector<Iv> s = {{2, 2, 0, 0}, {1, 1, 0, 0}, {1, 1, -1, 2}, {0, 0, -2, 1}, {0, 1, -1, 0}, {1, 2, 1, 1}, {2, 0, 0, 0}, {0, 2, -1, -1}, {1, 0, 2, 3}, {2, 1, -1, -1}}; for (auto& a : s) for (auto& b : s) for (auto& c : {s[0], s[3], s[8]}) v.push_back(Box{{a, b, c, s[2], s[8]}}); return v; }
	static Box gen(Rng& r) { Box b; for (auto& i : b.b) i = genI(r); return b; }
	static std::string str(const Box& b) { std::string s; for (auto& i : b.b) s += (s.empty() ? "" : "x") + show(i); return s; }
	static Box parse(const std::string& s) { Box b; for (auto& i : b.b) i = Iv{1, 1, 0, 0}; std::stringstream ss(s); std::string t; int k = 0; while (k < NV && std::getline(ss, t, 'x')) { auto c = t.find(','); std::string x = t.substr(1, c - 1), y = t.substr(c + 1, t.size() - c - 2); int lt = x == "-inf" ? 2 : t[0] == '[', ut = y == "inf" ? 2 : t.back() == ']'; b.b[k++] = fixI(Iv{lt, ut, lt == 2 ? Q(0) : Arg<Q>::parse(x), ut == 2 ? Q(0) : Arg<Q>::parse(y)}); } return b; }
};
static std::string es(const E& e) { std::string s; for (auto x : e) s += (s.empty() ? "" : ".") + std::to_string(x); return s; }
template<> struct Arg<E> {
	static std::vector<E> all() { std::vector<E> v; for (unsigned a = 0; a < 4; ++a) for (unsigned b = 0; b < 3; ++b) for (unsigned c = 0; c < 2; ++c) { v.push_back(E{a, b, c}); v.push_back(E{a, b, c, 1, 1}); }; return v; }
	static E gen(Rng& r) { E e; for (auto& x : e) x = r.coin() ? 0 : (unsigned)r.below(5); return e; }
	static std::string str(const E& e) { return es(e); }
	static E parse(const std::string& s) { E e{}; std::stringstream ss(s); std::string t; int i = 0; while (i < NV && std::getline(ss, t, '.')) e[i++] = (unsigned)std::stoul(t); return e; }
};
template<> struct Arg<Po> {
	static std::vector<Po> all() { return {{{}}, {{{Q(3), E{}}}}, {{{Q(-2), E{1}}}}, {{{Q(1), E{2}}, {Q(-1), E{1}}}}, {{{Q(1), E{2}}, {Q(-2), E{0, 1}}, {Q(5), E{}}}}, {{{Q(1), E{3, 1}}, {Q(-1), E{0, 2, 1}}, {Q(1, 2), E{1, 1, 1}}}}, {{{Q(1), E{4}}, {Q(-3), E{2, 2}}, {Q(1), E{0, 0, 3}}, {Q(-7), E{}}}}}; }
	static Po gen(Rng& r) { Po p; auto n = r.below(6); for (std::size_t i = 0; i < n; ++i) { Q q((long)r.in(-6, 6), 1 + (long)r.below(3)); q.canonicalize(); p.t.emplace_back(q, Arg<E>::gen(r)); } return p; }
	static std::string str(const Po& p) { std::string s = "P"; for (auto& t : p.t) s += "+" + t.first.get_str() + "*" + es(t.second); return s; }
	static Po parse(const std::string& s) { Po p; std::stringstream ss(s.substr(1)); std::string t; while (std::getline(ss, t, '+')) if (!t.empty()) { auto k = t.find('*'); p.t.emplace_back(Arg<Q>::parse(t.substr(0, k)), Arg<E>::parse(t.substr(k + 1))); } return p; }
};
}
static carl::Variable VV(int i) { static std::vector<carl::Variable> v; while (v.size() < NV) v.push_back(carl::freshRealVariable()); return v[i]; }
static carl::Monomial::Arg ma(const E& e) { carl::Monomial::Arg m; for (int i = 0; i < NV; ++i) if (e[i]) m = m * carl::createMonomial(VV(i), e[i]); return m; }
static P mk(const Po& a) { P p; for (auto& t : a.t) p += T(t.first, ma(t.second)); return p; }
static std::map<carl::Variable, I> mk(const Box& b) { std::map<carl::Variable, I> m; for (int i = 0; i < NV; ++i) m[VV(i)] = mkI(b.b[i]); return m; }
static Q pw(const Q& x, unsigned e) { Q r = 1; while (e--) r *= x; return r; }
static Q ev(const E& e, const std::array<Q, NV>& x) { Q r = 1; for (int i = 0; i < NV; ++i) r *= pw(x[i], e[i]); return r; }
static Q ev(const Po& p, const std::array<Q, NV>& x) { Q r = 0; for (auto& t : p.t) r += t.first * ev(t.second, x); return r; }
static std::vector<Q> pts(const Iv& p) {
	std::vector<Q> c = {0, 1, -1, Q(1, 2), 40, -40}, v; Q eps(1, 1000);
	if (p.lt != 2) { c.push_back(p.l); c.push_back(p.l + eps); } if (p.ut != 2) { c.push_back(p.u); c.push_back(p.u - eps); } if (p.lt != 2 && p.ut != 2) c.push_back((p.l + p.u) / 2);
	for (auto& x : c) if (in(p, x)) v.push_back(x); return v;
}
template<class F> static std::string each(const Box& b, const F& f) {
	std::array<std::vector<Q>, NV> s; std::size_t n = 1; for (int i = 0; i < NV; ++i) { s[i] = pts(b.b[i]); n *= s[i].size(); }
	std::size_t step = n > 60 ? n / 60 : 1; if (step > 1 && step % 2 == 0) ++step;
	for (std::size_t k = 0; k < n; k += step) { std::array<Q, NV> x; std::size_t q = k; for (int i = 0; i < NV; ++i) { x[i] = s[i][q % s[i].size()]; q /= s[i].size(); } auto m = f(x); if (!m.empty()) return m; }
	return "";
}
static std::string enc(const I& r, const Box& b, const Po& p) { return each(b, [&](const std::array<Q, NV>& x) -> std::string { Q v = ev(p, x); H_CHECK(in(r, v), "value " << v << " at (" << x[0] << "," << x[1] << "," << x[2] << "," << x[3] << "," << x[4] << ") is not in " << show(r)); return ""; }); }
H_REG(mono, "c25.mono", [](const E& e, const Box& b) -> std::string { auto m = ma(e); if (!m) H_SKIP; return enc(carl::IntervalEvaluation::evaluate(*m, mk(b)), b, Po{{{Q(1), e}}}); });
H_REG(term, "c25.term", [](const Q& c, const E& e, const Box& b) -> std::string { return enc(carl::IntervalEvaluation::evaluate(T(c, ma(e)), mk(b)), b, Po{{{c, e}}}); });
H_REG(poly, "c25.poly", [](const Po& p, const Box& b) -> std::string { return enc(carl::IntervalEvaluation::evaluate(mk(p), mk(b)), b, p); });
H_REG(upoly, "c25.upoly", [](const Po& p, const Box& b) -> std::string {
	// univariate over the numbers: the other variables are dropped
	Po u; std::vector<Q> c; for (auto& t : p.t) { u.t.emplace_back(t.first, E{t.second[0]}); if (c.size() <= t.second[0]) c.resize(t.second[0] + 1); c[t.second[0]] += t.first; }
	while (!c.empty() && c.back() == 0) c.pop_back();
	return enc(carl::IntervalEvaluation::evaluate(carl::UnivariatePolynomial<Q>(VV(0), c), mk(b)), b, u); });
H_REG(mupoly, "c25.mupoly", [](const Po& p, const Box& b) -> std::string {
	std::vector<P> c; for (auto& t : p.t) { if (c.size() <= t.second[0]) c.resize(t.second[0] + 1); c[t.second[0]] += T(t.first, ma([&]() { E e = t.second; e[0] = 0; return e; }())); }
	while (!c.empty() && carl::isZero(c.back())) c.pop_back();
	return enc(carl::IntervalEvaluation::evaluate(carl::UnivariatePolynomial<P>(VV(0), c), mk(b)), b, p); });
H_MAIN
