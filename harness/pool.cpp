// Run-time oracles for the identity of monomials (bounded stand-in and replay target): histories of creations and destructions against a map.
// links: carl/numbers/adaption_gmpxx/operations.cpp carl/core/VariablePool.cpp carl/core/Variable.cpp carl/util/Pool.cpp carl/core/MonomialPool.cpp carl/core/Monomial.cpp carl/core/polynomialfunctions/GCD_Monomial.cpp
#include "types.h"
#include <carl/numbers/numbers.h>
#include <carl/core/MultivariatePolynomial.h>
#include <carl/core/MonomialPool.h>
#include <carl/core/VariablePool.h>
#include <carl/core/Term.h>
using Q = mpq_class; using M = carl::Monomial; using A = M::Arg; using T = carl::Term<Q>; using P = carl::MultivariatePolynomial<Q>; using V = carl::Variable; using EM = std::map<int, std::size_t>;
struct Mo { EM e; }; struct Hist { std::vector<std::pair<char, int>> h; };
static V VV(int r) { static std::vector<V> vs; while ((int)vs.size() <= r) vs.push_back(carl::freshRealVariable()); return vs[r]; }
static std::string show(const EM& e) { std::string s; for (auto& p : e) s += (s.empty() ? "" : ",") + std::to_string(p.first) + ":" + std::to_string(p.second); return s.empty() ? "-" : s; }
namespace hh {
template<> struct Arg<Mo> {
	static std::vector<Mo> all() { std::vector<Mo> r; for (std::size_t a = 0; a < 3; ++a) for (std::size_t b = 0; b < 3; ++b) for (std::size_t c = 0; c < 3; ++c) { Mo m; if (a) m.e[0] = a; if (b) m.e[1] = b; if (c) m.e[2] = c; r.push_back(m); } return r; }
	static Mo gen(Rng& r) { Mo m; auto n = r.below(3) ? r.below(4) : r.below(9); for (std::size_t i = 0; i < n; ++i) m.e[(int)r.below(r.coin() ? 4 : 10)] = r.below(5) ? 1 + r.below(4) : 1 + r.below(r.below(3) ? 40 : 70000); if (r.below(5) == 0) for (auto& p : m.e) p.second = 2 * p.second; return m; }
	static std::string str(const Mo& m) { return show(m.e); }
	static Mo parse(const std::string& s) { Mo m; if (s == "-" || s.empty()) return m; std::stringstream ss(s); std::string t; while (std::getline(ss, t, ',')) { auto k = t.find(':'); m.e[std::stoi(t.substr(0, k))] = std::stoul(t.substr(k + 1)); } return m; }
};
template<> struct Arg<Hist> { // +k creates monomial k, -k drops one reference to it
	static std::vector<Hist> all() { std::vector<Hist> r{{}}; for (int a = 0; a < 6; ++a) for (int b = 0; b < 6; ++b) for (int c = 0; c < 6; ++c) for (int d = 0; d < 6; ++d) { Hist h; for (int x : {a, b, c, d}) h.h.push_back({x < 3 ? '+' : '-', x % 3}); r.push_back(h); } return r; }
	static Hist gen(Rng& r) { Hist h; auto n = r.below(r.below(40) ? 40 : 3000); int k = r.coin() ? 5 : 400; for (std::size_t i = 0; i < n; ++i) h.h.push_back({r.below(5) < 3 ? '+' : '-', (int)r.below(k)}); return h; }
	static std::string str(const Hist& h) { std::string s; for (auto& p : h.h) s += (s.empty() ? "" : ",") + std::string(1, p.first) + std::to_string(p.second); return s.empty() ? "." : s; }
	static Hist parse(const std::string& s) { Hist h; if (s == "." || s.empty()) return h; std::stringstream ss(s); std::string t; while (std::getline(ss, t, ',')) h.h.push_back({t[0], std::stoi(t.substr(1))}); return h; }
};
}
static M::Content cont(const EM& e) { M::Content c; for (auto& p : e) c.emplace_back(VV(p.first), p.second); return c; }
static std::size_t dg(const EM& e) { std::size_t d = 0; for (auto& p : e) d += p.second; return d; }
static A mk(const EM& e) { return e.empty() ? nullptr : carl::createMonomial(cont(e), std::size_t(0)); }
static std::string two(const A& a, const A& b, bool same) {
	H_CHECK((a.get() == b.get()) == same, "objects are shared iff the exponents agree"); H_CHECK((a == b) == same && (a != b) != same, "equality is equality of exponents");
	if (a && b) { H_CHECK((*a == *b) == same, "equality of the objects is equality of exponents"); H_CHECK((a->id() == b->id()) == same, "identities agree iff the exponents do"); H_CHECK(a->id() != 0 && b->id() != 0, "pooled monomials have an identity"); if (same) H_CHECK(a->hash() == b->hash() && std::hash<A>()(a) == std::hash<A>()(b), "equal monomials have equal hashes"); }
	H_CHECK(int(a < b) + int(a == b) + int(b < a) == 1, "exactly one of less, equal, greater"); return "";
}
H_REG(create, "c21.create", [](const Mo& a, const Mo& b) -> std::string {
	if (a.e.empty() || b.e.empty()) H_SKIP;
	A x = mk(a.e), y = mk(b.e), z = carl::createMonomial(cont(a.e), dg(a.e)), w = carl::createMonomial(cont(a.e)); auto s = two(x, y, a.e == b.e); if (!s.empty()) return s;
	s = two(x, z, true); if (!s.empty()) return s; s = two(w, x, true); if (!s.empty()) return s; H_CHECK(x->tdeg() == dg(a.e) && w->tdeg() == dg(a.e), "total degree"); H_CHECK(x->exponents() == cont(a.e), "content");
	if (a.e.size() == 1) { s = two(x, carl::createMonomial(VV(a.e.begin()->first), a.e.begin()->second), true); if (!s.empty()) return s; }
	if (a.e.size() == 2) { auto p = *a.e.begin(), q = *a.e.rbegin(); s = two(x, carl::MonomialPool::getInstance().create({{VV(q.first), q.second}, {VV(p.first), p.second}}), true); if (!s.empty()) return s; }
	A pr = x * y, rp = y * x; return two(pr, rp, true); });
H_REG(history, "c21.history", [](const Hist& h) -> std::string {
	std::map<int, std::vector<A>> live; auto ex = [](int k) { EM e; e[k % 7] = 1 + k / 7; if (k % 3) e[7 + k % 5] = k % 3; return e; }; auto base = carl::MonomialPool::getInstance().size(); std::size_t step = 0;
	for (auto& p : h.h) {
		auto& l = live[p.second]; if (p.first == '+') { A m = mk(ex(p.second)); H_CHECK(m->exponents() == cont(ex(p.second)), "content"); if (!l.empty()) H_CHECK(l[0].get() == m.get(), "a live monomial is returned itself"); l.push_back(m); } else if (!l.empty()) l.pop_back();
		if (++step % 97 && step != h.h.size() && h.h.size() > 8) continue;
		std::map<std::size_t, int> ids; std::size_t n = 0; for (auto& q : live) if (!q.second.empty()) { ++n; H_CHECK(ids.insert({q.second[0]->id(), q.first}).second, "live monomials with different exponents have different identities"); H_CHECK(q.second[0]->exponents() == cont(ex(q.first)), "a live monomial keeps its content"); }
		H_CHECK(carl::MonomialPool::getInstance().size() == base + n, "the pool holds exactly the live monomials");
	}
	return ""; });
H_REG(terms, "c21.terms", [](const Q& c, const Mo& a, const Q& d, const Mo& b) -> std::string {
	if (c == 0 || d == 0) H_SKIP;
	T x(c, mk(a.e)), y(d, mk(b.e)), z(c, mk(a.e)); bool same = c == d && a.e == b.e; H_CHECK((x == y) == same && (x != y) != same, "equality of terms"); H_CHECK(x == z && std::hash<T>()(x) == std::hash<T>()(z), "equal terms have equal hashes"); H_CHECK(int(x < y) + int(x == y) + int(y < x) == 1, "exactly one of less, equal, greater"); return ""; });
H_REG(polys, "c21.polys", [](const Q& c, const Mo& a, const Q& d, const Mo& b, const Mo& e) -> std::string {
	if (c == 0 || d == 0) H_SKIP;
	T x(c, mk(a.e)), y(d, mk(b.e)), z(c + d, mk(e.e)); P p = P(x) + y + z, q = P(z) + y + x, r = (P(y) - z) + x + z + z; std::map<EM, Q> m; m[a.e] += c; m[b.e] += d; m[e.e] += c + d; std::size_t n = 0; for (auto& t : m) n += t.second != 0;
	H_CHECK(p.nrTerms() == n, "number of terms"); H_CHECK(p == q && q == p && q == r, "equal polynomials built in different orders"); H_CHECK(std::hash<P>()(p) == std::hash<P>()(q) && std::hash<P>()(q) == std::hash<P>()(r), "equal polynomials have equal hashes"); P s(x); H_CHECK((p == s) == (m[a.e] == c && n == 1), "different polynomials differ"); H_CHECK(int(p < s) + int(p == s) + int(s < p) == 1, "exactly one of less, equal, greater"); H_CHECK(!(p < q) && !(q < p), "equal polynomials are not ordered"); return ""; });
H_REG(vars, "c21.vars", [](const Mo& a) -> std::string { for (auto& p : a.e) for (auto& q : a.e) { V x = VV(p.first), y = VV(q.first); bool same = p.first == q.first; H_CHECK((x == y) == same && int(x < y) + int(x == y) + int(y < x) == 1, "variables are equal iff they are the same"); if (same) H_CHECK(std::hash<V>()(x) == std::hash<V>()(y), "hash of variables"); } return ""; });
H_REG(order, "c21.order", [](const Q& c, const Mo& a, const Q& d, const Mo& b, const Mo& e) -> std::string {
	T x(c, mk(a.e)), y(d, mk(b.e)), x2(d, mk(a.e)), y2(c, mk(b.e)), z(Q(1), mk(e.e)); std::vector<P> ps{P(x) + y + z, P(z) + y2 + x2, P(y) + z, P(x2) + y + z, P(y2) + z + x, P(z)};
	for (auto& p : ps) for (auto& q : ps) { bool same = carl::isZero(P(p - q)); H_CHECK((p == q) == same && (p != q) != same, "polynomials are equal iff their difference is zero"); H_CHECK(int(p < q) + int(same) + int(q < p) == 1, "exactly one of less, equal, greater"); H_CHECK((p > q) == (q < p) && (p <= q) == !(q < p) && (p >= q) == !(p < q), "the comparisons agree"); if (same) H_CHECK(std::hash<P>()(p) == std::hash<P>()(q), "equal polynomials have equal hashes"); for (auto& r : ps) H_CHECK(!(p < q && q < r) || p < r, "the order is transitive"); }
	return ""; });
H_REG(grow, "c21.grow", [](const Hist& h) -> std::string { // many monomials alive at once: the table grows
	std::size_t n = 0; for (auto& p : h.h) n += p.second; n = h.h.size() > 2000 || h.h.size() == 3 ? 500 + n % 12000 : n % 60; std::vector<A> l;
	auto ex = [](std::size_t i) { EM e; e[i % 5] = 1 + i / 15; if (i % 3) e[5 + i % 3] = 1 + i % 7; return e; };
	std::map<EM, A> m; for (std::size_t i = 0; i < n; ++i) { auto e = ex(i); A a = mk(e); H_CHECK(a->exponents() == cont(e), "content"); auto r = m.insert({e, a}); H_CHECK(r.first->second.get() == a.get(), "a live monomial is returned itself"); }
	std::map<std::size_t, int> ids; for (auto& p : m) { H_CHECK(mk(p.first).get() == p.second.get(), "a live monomial is found again"); H_CHECK(ids.insert({p.second->id(), 0}).second, "different identities"); } return ""; });
H_MAIN
