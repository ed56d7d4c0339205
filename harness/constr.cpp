// Run-time oracles for constraint creation and normalisation (bounded stand-in and replay target).
// links: carl/numbers/adaption_gmpxx/operations.cpp carl/core/VariablePool.cpp carl/core/Variable.cpp carl/util/Pool.cpp carl/core/MonomialPool.cpp carl/core/Monomial.cpp
#include "types.h"
#include <array>
#include <carl/core/VariablePool.h>
#include <carl/core/MultivariatePolynomial.h>
#include <carl/core/SimpleConstraint.h>
#include <carl/core/polynomialfunctions/Definiteness.h>
#include <carl/formula/Constraint.h>
using Q = mpq_class; using Z = mpz_class; using P = carl::MultivariatePolynomial<Q>; using T = carl::Term<Q>; using C = carl::Constraint<P>; using carl::Relation;
constexpr int NV = 3;
using E = std::array<unsigned, NV>;
struct Po { std::vector<std::pair<Q, E>> t; };
struct Ty { int k; };          // types of the variables: all real, all integer, mixed
struct Re { int r; };
static std::string es(const E& e) { std::string s; for (auto x : e) s += (s.empty() ? "" : ".") + std::to_string(x); return s; }
namespace hh {
template<> struct Arg<E> {
	static std::vector<E> all() { return {}; }
	static E gen(Rng& r) { E e; int d = (int)r.below(3); for (auto& x : e) x = r.coin() ? 0 : (unsigned)r.below(2 + d); return e; }
	static std::string str(const E& e) { return es(e); }
	static E parse(const std::string& s) { E e{}; std::stringstream ss(s); std::string t; int i = 0; while (i < NV && std::getline(ss, t, '.')) e[i++] = (unsigned)std::stoul(t); return e; }
};
template<> struct Arg<Po> {
	static std::vector<Po> all() {
		std::vector<Po> v = {{{}}, {{{Q(3), E{}}}}, {{{Q(-2), E{}}}}};
		for (int a : {1, -1, 2, -3}) for (unsigned e = 1; e < 5; ++e) { v.push_back({{{Q(a), E{e}}}}); v.push_back({{{Q(a, 2), E{0, e}}}}); for (int c : {1, -1, 3, -4, 5}) { v.push_back({{{Q(a), E{e}}, {Q(c), E{}}}}); v.push_back({{{Q(2 * a), E{e}}, {Q(c, 3), E{}}}}); v.push_back({{{Q(2 * a), E{e}}, {Q(4 * c), E{0, 1}}, {Q(c), E{}}}}); v.push_back({{{Q(a), E{2}}, {Q(c), E{0, 2}}, {Q(c), E{1, 1}}}}); v.push_back({{{Q(a), E{2}}, {Q(c), E{1}}, {Q(a * 2), E{}}}}); } }
		for (auto& q : v) for (auto& t : q.t) t.first.canonicalize();
		return v;
	}
	static Po gen(Rng& r) { Po p; auto n = r.below(5); long f = r.coin() ? 1 : r.in(1, 6); for (std::size_t i = 0; i < n; ++i) { Q q(f * (long)r.in(-6, 6), r.coin() ? 1 : 1 + (long)r.below(4)); q.canonicalize(); E e{}; auto m = r.below(4); if (m == 0) e = Arg<E>::gen(r); else if (m == 1) e[r.below(NV)] = 1; else if (m == 2) e[r.below(NV)] = 2; else { e[r.below(2)] += 1; e[r.below(NV)] += 1; } p.t.emplace_back(q, e); } if (r.coin()) { Q c((long)r.in(-20, 20), r.coin() ? 1 : 1 + (long)r.below(5)); c.canonicalize(); p.t.emplace_back(c, E{}); } return p; }
	static std::string str(const Po& p) { std::string s = "P"; for (auto& t : p.t) s += "+" + t.first.get_str() + "*" + es(t.second); return s; }
	static Po parse(const std::string& s) { Po p; std::stringstream ss(s.substr(1)); std::string t; while (std::getline(ss, t, '+')) if (!t.empty()) { auto k = t.find('*'); p.t.emplace_back(Arg<Q>::parse(t.substr(0, k)), Arg<E>::parse(t.substr(k + 1))); } return p; }
};
template<> struct Arg<Ty> { static std::vector<Ty> all() { return {{0}, {1}, {2}}; } static Ty gen(Rng& r) { return {(int)r.below(3)}; } static std::string str(const Ty& t) { return std::to_string(t.k); } static Ty parse(const std::string& s) { return {std::abs(std::stoi(s)) % 3}; } };
template<> struct Arg<Re> { static std::vector<Re> all() { return {{0}, {1}, {2}, {3}, {4}, {5}}; } static Re gen(Rng& r) { return {(int)r.below(6)}; } static std::string str(const Re& t) { return std::to_string(t.r); } static Re parse(const std::string& s) { return {std::abs(std::stoi(s)) % 6}; } };
}
static bool isint(int ty, int i) { return ty == 1 || (ty == 2 && i == 0); }
static carl::Variable VV(int ty, int i) { static std::vector<carl::Variable> v[3]; if (v[ty].empty()) for (int j = 0; j < NV; ++j) v[ty].push_back(isint(ty, j) ? carl::freshIntegerVariable() : carl::freshRealVariable()); return v[ty][i]; }
static carl::Monomial::Arg ma(int ty, const E& e) { carl::Monomial::Arg m; for (int i = 0; i < NV; ++i) if (e[i]) m = m * carl::createMonomial(VV(ty, i), e[i]); return m; }
static P mk(int ty, const Po& a) { P p; for (auto& t : a.t) p += T(t.first, ma(ty, t.second)); return p; }
static Q pw(const Q& x, unsigned e) { Q r = 1; while (e--) r *= x; return r; }
using Pt = std::array<Q, NV>;
static Q ev(const Po& p, const Pt& x) { Q r = 0; for (auto& t : p.t) { Q m = t.first; for (int i = 0; i < NV; ++i) m *= pw(x[i], t.second[i]); r += m; } return r; }
static Q ev(int ty, const P& p, const Pt& x) { Q r = 0; for (auto& t : p.getTerms()) { Q m = t.coeff(); if (t.monomial()) for (auto& ve : *t.monomial()) { bool f = false; for (int i = 0; i < NV; ++i) if (ve.first == VV(ty, i)) { m *= pw(x[i], (unsigned)ve.second); f = true; } if (!f) throw std::runtime_error("foreign variable"); } r += m; } return r; }
static bool holds(const Q& v, Relation r) { int s = sgn(v); switch (r) { case Relation::EQ: return s == 0; case Relation::NEQ: return s != 0; case Relation::LESS: return s < 0; case Relation::LEQ: return s <= 0; case Relation::GREATER: return s > 0; default: return s >= 0; } }
template<class F> static std::string each(int ty, const F& f) {
	static const std::vector<Q> iv = {0, 1, -1, 2, -2, 3, -5, 7}, rv = {0, 1, -1, 2, -2, 3, -5, Q(1, 2), Q(-1, 3), Q(5, 2), Q(-7, 3), Q(1, 12)};
	for (auto& a : isint(ty, 0) ? iv : rv) for (auto& b : isint(ty, 1) ? iv : rv) for (auto& c : std::vector<Q>{0, 1, -3}) { auto m = f(Pt{a, b, c}); if (!m.empty()) return m; }
	return "";
}
static std::string at(const Pt& x) { return "(" + x[0].get_str() + "," + x[1].get_str() + "," + x[2].get_str() + ")"; }
static std::string cmp(int ty, const C& c, const Po& p, Relation rel, bool neg = false) {
	unsigned k = c.isConsistent(); std::stringstream ss; ss << c;
	return each(ty, [&](const Pt& x) -> std::string {
		bool want = holds(ev(p, x), rel) != neg, got = holds(ev(ty, c.lhs(), x), c.relation());
		H_CHECK(want == got, "at " << at(x) << " the constraint is " << want << " but " << ss.str() << " is " << got);
		H_CHECK(k == 2 || (k == 1) == want, "verdict " << k << " but at " << at(x) << " the constraint is " << want); return ""; });
}
H_REG(create, "c24.create", [](const Ty& t, const Po& p, const Re& r) -> std::string { return cmp(t.k, C(mk(t.k, p), (Relation)r.r), p, (Relation)r.r); });
H_REG(neg, "c24.negation", [](const Ty& t, const Po& p, const Re& r) -> std::string { return cmp(t.k, C(mk(t.k, p), (Relation)r.r).negation(), p, (Relation)r.r, true); });
H_REG(again, "c24.twice", [](const Ty& t, const Po& p, const Re& r) -> std::string { C c(mk(t.k, p), (Relation)r.r), d(c.lhs(), c.relation()); return cmp(t.k, d, p, (Relation)r.r); });
H_REG(bound, "c24.bound", [](const Ty& t, const Re& r, const Q& q) -> std::string { Po p{{{Q(1), E{1}}, {-q, E{}}}}; C c(VV(t.k, 0), (Relation)r.r, q); auto m = cmp(t.k, c, p, (Relation)r.r); if (!m.empty()) return m;
	for (Q d : {Q(0), Q(1), Q(-1), Q(1, 2)}) { Q x = q + d; if (isint(t.k, 0)) { Z z; mpz_fdiv_q(z.get_mpz_t(), x.get_num_mpz_t(), x.get_den_mpz_t()); x = z; } Pt y{x, 0, 0}; H_CHECK(holds(ev(p, y), (Relation)r.r) == holds(ev(t.k, c.lhs(), y), c.relation()), "at " << x << ": " << c); }
	return ""; });
H_REG(sat, "c24.satisfied", [](const Ty& t, const Po& p, const Re& r) -> std::string { C c(mk(t.k, p), (Relation)r.r); int n = 0;
	return each(t.k, [&](const Pt& x) -> std::string { if (n++ % 17) return ""; std::map<carl::Variable, Q> m; for (int i = 0; i < NV; ++i) m[VV(t.k, i)] = x[i]; unsigned s = c.satisfiedBy(m); H_CHECK(s == (holds(ev(p, x), (Relation)r.r) ? 1 : 0), "satisfiedBy gives " << s << " at " << at(x)); return ""; }); });
H_REG(def, "c24.definite", [](const Po& p) -> std::string {
	auto d = carl::definiteness(mk(0, p)), d2 = carl::definiteness(mk(0, p), false);
	return each(0, [&](const Pt& x) -> std::string { int s = sgn(ev(p, x)); for (auto e : {d, d2}) { bool ok = e == carl::Definiteness::NON || (e == carl::Definiteness::POSITIVE ? s > 0 : e == carl::Definiteness::POSITIVE_SEMI ? s >= 0 : e == carl::Definiteness::NEGATIVE ? s < 0 : s <= 0); H_CHECK(ok, "definiteness " << e << " but sign " << s << " at " << at(x)); } return ""; }); });
H_REG(simple, "c24.simple", [](const Po& p, const Re& r) -> std::string {
	carl::SimpleConstraint<P> c(mk(0, p), (Relation)r.r); bool t = c.isTrivialTrue(), f = c.isTrivialFalse(); H_CHECK(!(t && f), "both");
	return each(0, [&](const Pt& x) -> std::string { bool h = holds(ev(p, x), (Relation)r.r); H_CHECK(!(t && !h) && !(f && h), "verdict " << t << f << " at " << at(x)); return ""; }); });
H_REG(rel, "c24.relation", [](const Re& r, const Q& q) -> std::string { Relation l = (Relation)r.r; bool h = holds(q, l); H_CHECK(carl::evaluate(q, l) == h, "evaluate"); H_CHECK(holds(q, carl::inverse(l)) == !h, "inverse"); H_CHECK(holds(-q, carl::turn_around(l)) == h, "turn_around"); H_CHECK(carl::isWeak(l) == holds(Q(0), l), "isWeak"); return ""; });
H_MAIN
