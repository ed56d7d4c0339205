// Run-time oracles for exact intervals (bounded stand-in and replay target for the interval contracts).
// links: carl/numbers/adaption_gmpxx/operations.cpp
#include "types.h"
#include <carl/numbers/numbers.h>
#include <carl/interval/Interval.h>
#include <carl/interval/set_theory.h>
#include <carl/interval/sampling.h>
#include <carl/interval/power.h>
using Q = mpq_class; using Z = mpz_class;
using I = carl::Interval<mpq_class>;
using B = carl::BoundType;
using carl::BoundType;
// interval as plain data: the harness does not use carl's code to decide membership
struct P { int lt, ut; Q l, u; };
static P plain(const I& i) { return P{(int)i.lowerBoundType(), (int)i.upperBoundType(), i.lower(), i.upper()}; }
static bool in(const P& p, const Q& x) { return (p.lt == 2 || (p.lt == 1 ? p.l <= x : p.l < x)) && (p.ut == 2 || (p.ut == 1 ? x <= p.u : x < p.u)); }
static bool in(const I& i, const Q& x) { return in(plain(i), x); }
static bool nonempty(const P& p) { return p.lt == 2 || p.ut == 2 || p.l < p.u || (p.l == p.u && p.lt == 1 && p.ut == 1); }
static bool wf(const I& i) {
	P p = plain(i);
	if (p.lt == 2 && p.ut == 2) return p.l == 0 && p.u == 0;
	if (p.lt == 2 || p.ut == 2) return p.l == p.u;
	return p.l < p.u || (p.l == p.u && p.lt == 1 && p.ut == 1) || (p.l == 0 && p.u == 0 && p.lt == 0 && p.ut == 0);
}
static std::string show(const P& p) {
	if (!nonempty(p)) return "(0,0)";
	return (p.lt == 2 ? std::string("(-inf") : (p.lt == 1 ? "[" : "(") + p.l.get_str()) + "," + (p.ut == 2 ? std::string("inf)") : p.u.get_str() + (p.ut == 1 ? "]" : ")"));
}
static std::string show(const I& i) { return show(plain(i)); }
static bool same(const P& a, const P& b) {
	if (!nonempty(a) || !nonempty(b)) return nonempty(a) == nonempty(b);
	return a.lt == b.lt && a.ut == b.ut && (a.lt == 2 || a.l == b.l) && (a.ut == 2 || a.u == b.u);
}
// some points of an interval: its closed ends, points close to open ends, the middle, far points
static std::vector<Q> pts(const P& p, const std::vector<Q>& extra = {}) {
	std::vector<Q> c = {0, 1, -1, Q(1, 2), Q(-1, 2), 100, -100};
	Q eps(1, 1000);
	if (p.lt != 2) { c.push_back(p.l); c.push_back(p.l + eps); c.push_back(p.l + 50); }
	if (p.ut != 2) { c.push_back(p.u); c.push_back(p.u - eps); c.push_back(p.u - 50); }
	if (p.lt != 2 && p.ut != 2) c.push_back((p.l + p.u) / 2);
	for (auto& e : extra) c.push_back(e);
	std::vector<Q> r; for (auto& x : c) if (in(p, x)) r.push_back(x);
	return r;
}
static std::vector<Q> crit(const std::vector<P>& ps, const std::vector<Q>& extra = {}) {
	std::vector<Q> c = {0}; Q eps(1, 1000);
	for (auto& p : ps) for (const Q& e : {p.l, p.u}) { c.push_back(e); c.push_back(e + eps); c.push_back(e - eps); c.push_back(e + 100); c.push_back(e - 100); }
	for (auto& e : extra) c.push_back(e);
	return c;
}
namespace hh {
template<> struct Arg<P> {
	static P mk(int lt, int ut, Q l, Q u) {
		if (lt == 2 && ut == 2) { l = 0; u = 0; } else if (lt == 2) l = u; else if (ut == 2) u = l;
		else { if (u < l) std::swap(l, u); if (l == u && !(lt == 1 && ut == 1)) { l = u = 0; lt = ut = 0; } }
		return P{lt, ut, l, u};
	}
	static std::vector<P> all() {
		std::vector<P> v; std::vector<Q> e = {-2, -1, 0, 1, 2};
		v.push_back(P{0, 0, 0, 0}); v.push_back(P{2, 2, 0, 0});
		for (auto& l : e) for (int t = 0; t < 2; ++t) { v.push_back(P{t, 2, l, l}); v.push_back(P{2, t, l, l}); }
		for (auto& l : e) v.push_back(P{1, 1, l, l});
		for (auto& l : e) for (auto& u : e) if (l < u) for (int t = 0; t < 4; ++t) v.push_back(P{t & 1, t >> 1, l, u});
		return v;
	}
	static P gen(Rng& r) { return mk(r.below(6) ? (int)r.below(2) : 2, r.below(6) ? (int)r.below(2) : 2, Arg<Q>::gen(r), Arg<Q>::gen(r)); }
	static std::string str(const P& p) { return show(p); }
	static P parse(const std::string& s) {
		auto c = s.find(','); std::string a = s.substr(1, c - 1), b = s.substr(c + 1, s.size() - c - 2);
		int lt = a == "-inf" ? 2 : s[0] == '[', ut = b == "inf" ? 2 : s.back() == ']';
		return mk(lt, ut, lt == 2 ? Q(0) : Arg<Q>::parse(a), ut == 2 ? Q(0) : Arg<Q>::parse(b));
	}
};
}
static I mkI(const P& p) { return I(p.l, (B)p.lt, p.u, (B)p.ut); }
#define WF(r) H_CHECK(wf(r), "result is not well-formed: " << (r).lower() << "," << (int)(r).lowerBoundType() << "," << (r).upper() << "," << (int)(r).upperBoundType())
// ---- reference arithmetic on the denoted sets
struct E { int inf; Q v; bool closed; };   // extended bound: inf -1/0/1
static E lo(const P& p) { return p.lt == 2 ? E{-1, 0, false} : E{0, p.l, p.lt == 1}; }
static E up(const P& p) { return p.ut == 2 ? E{1, 0, false} : E{0, p.u, p.ut == 1}; }
static P fromE(const E& a, const E& b) { return P{a.inf ? 2 : (a.closed ? 1 : 0), b.inf ? 2 : (b.closed ? 1 : 0), a.inf ? (b.inf ? Q(0) : b.v) : a.v, b.inf ? (a.inf ? Q(0) : a.v) : b.v}; }
static const P EMPTY{0, 0, 0, 0};
static P rneg(const P& p) { return nonempty(p) ? P{p.ut, p.lt, -p.u, -p.l} : EMPTY; }
static P radd(const P& a, const P& b) {
	if (!nonempty(a) || !nonempty(b)) return EMPTY;
	auto s = [](E x, E y, int d) { return x.inf || y.inf ? E{d, 0, false} : E{0, x.v + y.v, x.closed && y.closed}; };
	return fromE(s(lo(a), lo(b), -1), s(up(a), up(b), 1));
}
static int cmpE(const E& a, const E& b) { if (a.inf != b.inf) return a.inf < b.inf ? -1 : 1; if (a.inf) return 0; return cmp(a.v, b.v); }
static P rmul(const P& a, const P& b) {
	if (!nonempty(a) || !nonempty(b)) return EMPTY;
	bool zero = in(a, 0) || in(b, 0);
	E ea[2] = {lo(a), up(a)}, eb[2] = {lo(b), up(b)}; E mn, mx; bool first = true;
	for (auto& x : ea) for (auto& y : eb) {
		int sx = x.inf ? x.inf : sgn(x.v), sy = y.inf ? y.inf : sgn(y.v);
		E p; if (sx == 0 || sy == 0) p = E{0, 0, zero}; else if (x.inf || y.inf) p = E{sx * sy, 0, false}; else p = E{0, x.v * y.v, x.closed && y.closed};
		if (!p.inf && p.v == 0) p.closed = zero;
		if (first) { mn = mx = p; first = false; continue; }
		int c = cmpE(p, mn); if (c < 0) mn = p; else if (c == 0) mn.closed |= p.closed;
		c = cmpE(p, mx); if (c > 0) mx = p; else if (c == 0) mx.closed |= p.closed;
	}
	return fromE(mn, mx);
}
static P pointP(const Q& n) { return P{1, 1, n, n}; }
#define EXACT(r, ref) do { I r_ = (r); WF(r_); P w_ = (ref); H_CHECK(same(plain(r_), w_), "got " << show(r_) << " expected " << show(w_)); } while (0)

H_REG(add, "c01.add", [](const P& a, const P& b, const Q&, const Q&) -> std::string { EXACT(mkI(a) + mkI(b), radd(a, b)); I c = mkI(a); c += mkI(b); EXACT(c, radd(a, b)); return ""; });
H_REG(sub, "c01.sub", [](const P& a, const P& b, const Q&, const Q&) -> std::string { EXACT(mkI(a) - mkI(b), radd(a, rneg(b))); I c = mkI(a); c -= mkI(b); EXACT(c, radd(a, rneg(b))); return ""; });
H_REG(mul, "c01.mul", [](const P& a, const P& b, const Q&, const Q&) -> std::string { EXACT(mkI(a) * mkI(b), rmul(a, b)); I c = mkI(a); c *= mkI(b); EXACT(c, rmul(a, b)); return ""; });
H_REG(addn, "c01.addn", [](const P& a, const Q& n, const Q&) -> std::string { EXACT(mkI(a) + n, radd(a, pointP(n))); return ""; });
H_REG(naddi, "c01.naddi", [](const P& a, const Q& n, const Q&) -> std::string { EXACT(n + mkI(a), radd(a, pointP(n))); return ""; });
H_REG(addasn, "c01.add_assignn", [](const P& a, const Q& n, const Q&) -> std::string { I c = mkI(a); c += n; EXACT(c, radd(a, pointP(n))); return ""; });
H_REG(subn, "c01.subn", [](const P& a, const Q& n, const Q&) -> std::string { EXACT(mkI(a) - n, radd(a, pointP(-n))); return ""; });
H_REG(nsubi, "c01.nsubi", [](const P& a, const Q& n, const Q&) -> std::string { EXACT(n - mkI(a), radd(rneg(a), pointP(n))); return ""; });
H_REG(subasn, "c01.sub_assignn", [](const P& a, const Q& n, const Q&) -> std::string { I c = mkI(a); c -= n; EXACT(c, radd(a, pointP(-n))); return ""; });
H_REG(muln, "c01.muln", [](const P& a, const Q& n, const Q&) -> std::string { EXACT(mkI(a) * n, rmul(a, pointP(n))); return ""; });
H_REG(nmuli, "c01.nmuli", [](const P& a, const Q& n, const Q&) -> std::string { EXACT(n * mkI(a), rmul(a, pointP(n))); return ""; });
H_REG(mulasn, "c01.mul_assignn", [](const P& a, const Q& n, const Q&) -> std::string { I c = mkI(a); c *= n; EXACT(c, rmul(a, pointP(n))); return ""; });
H_REG(divn, "c01.divn", [](const P& a, const Q& n, const Q&) -> std::string { if (n == 0) H_SKIP; EXACT(mkI(a) / n, rmul(a, pointP(1 / n))); return ""; });
H_REG(divasn, "c01.div_assignn", [](const P& a, const Q& n, const Q&) -> std::string { if (n == 0) H_SKIP; I c = mkI(a); c /= n; EXACT(c, rmul(a, pointP(1 / n))); return ""; });
H_REG(neg, "c01.neg", [](const P& a, const Q&) -> std::string { EXACT(-mkI(a), rneg(a)); return ""; });
H_REG(div, "c01.div", [](const P& a, const P& b, const Q& x, const Q& y) -> std::string {
	if (in(b, 0)) H_SKIP;
	I r = mkI(a).div(mkI(b)); WF(r);
	for (auto& p : pts(a, {x})) for (auto& q : pts(b, {y})) { if (q == 0) continue; H_CHECK(in(r, p / q), p << " / " << q << " not in " << show(r)); }
	return ""; });
H_REG(div_ext, "c01.div_ext", [](const P& a, const P& b, const Q& x, const Q& y) -> std::string {
	I r, t; bool s = mkI(a).div_ext(mkI(b), r, t); WF(r); if (s) WF(t);
	for (auto& p : pts(a, {x})) for (auto& q : pts(b, {y})) if (q != 0) H_CHECK(in(r, p / q) || (s && in(t, p / q)), p << " / " << q << " not in " << show(r) << " u " << (s ? show(t) : "-"));
	return ""; });
H_REG(reciprocal, "c01.reciprocal", [](const P& a, const Q& x) -> std::string {
	I r, t; bool s = mkI(a).reciprocal(r, t); WF(r); if (s) WF(t);
	for (auto& q : pts(a, {x})) if (q != 0) H_CHECK(in(r, 1 / q) || (s && in(t, 1 / q)), "1 / " << q << " not in " << show(r) << " u " << (s ? show(t) : "-"));
	return ""; });
H_REG(abs_, "c01.abs", [](const P& a, const Q& x) -> std::string {
	I r = mkI(a).abs(); WF(r);
	for (auto& q : pts(a, {x})) H_CHECK(in(r, abs(q)), "|" << q << "| not in " << show(r));
	for (auto& q : crit({a, rneg(a)}, {x, -x})) if (in(r, q)) H_CHECK(q >= 0 && (in(a, q) || in(a, -q)), q << " in " << show(r) << " is no absolute value");
	return ""; });
H_REG(pow_, "c01.pow", [](const P& a, const int& e, const Q& x) -> std::string {
	if (e < 0 || e > 64) H_SKIP;
	I r = carl::pow(mkI(a), (unsigned)e); WF(r);
	for (auto& q : pts(a, {x})) { Q p = 1; for (int i = 0; i < e; ++i) p *= q; H_CHECK(in(r, p), q << "^" << e << " not in " << show(r)); }
	return ""; });
// ---- C02
H_REG(ctor, "c02.ctor", [](const unsigned& lt, const unsigned& ut, const Q& l, const Q& u, const Q& x) -> std::string {
	if (lt > 2 || ut > 2) H_SKIP;
	I r(l, (B)lt, u, (B)ut); WF(r);
	P p{(int)lt, (int)ut, l, u};
	for (auto& q : crit({p}, {x})) H_CHECK(in(r, q) == in(p, q), "point " << q << " in " << show(r));
	if (l <= u) { I s(I::BoostInterval(l, u), (B)lt, (B)ut); WF(s); for (auto& q : crit({p}, {x})) H_CHECK(in(s, q) == in(p, q), "point " << q << " in " << show(s)); }
	return ""; });
H_REG(ctor_small, "c02.ctor_small", [](const Q& l, const Q& u, const Q& x) -> std::string {
	I r(l, u); WF(r); P p{1, 1, l, u};
	for (auto& q : crit({p}, {x})) H_CHECK(in(r, q) == (l <= q && q <= u), "closed: " << q);
	I s(l); WF(s); for (auto& q : crit({p}, {x})) H_CHECK(in(s, q) == (q == l), "point: " << q);
	I un = I::unboundedInterval(), em = I::emptyInterval(), de, ze = I::zeroInterval(); WF(un); WF(em); WF(de); WF(ze);
	for (auto& q : crit({p}, {x})) H_CHECK(in(un, q) && !in(em, q) && !in(de, q) && in(ze, q) == (q == 0), "special: " << q);
	return ""; });
static std::string two(const I& r1, const I& r2, bool s, const std::vector<Q>& c, const std::function<bool(const Q&)>& want) {
	WF(r1); if (s) WF(r2);
	for (auto& q : c) H_CHECK((in(r1, q) || (s && in(r2, q))) == want(q), "point " << q << " wrong in " << show(r1) << " u " << (s ? show(r2) : "-"));
	return "";
}
H_REG(hull, "c02.hull", [](const P& a, const P& b, const Q& x, const Q&, const Q&) -> std::string {
	I r = mkI(a).convexHull(mkI(b)); WF(r);
	for (auto& q : crit({a, b}, {x})) H_CHECK(!(in(a, q) || in(b, q)) || in(r, q), "point " << q << " not in " << show(r));
	return ""; });
H_REG(uni, "c02.union", [](const P& a, const P& b, const Q& x) -> std::string { I r(7), t(9); bool s = carl::set_union(mkI(a), mkI(b), r, t); return two(r, t, s, crit({a, b}, {x}), [&](const Q& q) { return in(a, q) || in(b, q); }); });
H_REG(diff, "c02.diff", [](const P& a, const P& b, const Q& x) -> std::string { I r(7), t(9); bool s = carl::set_difference(mkI(a), mkI(b), r, t); return two(r, t, s, crit({a, b}, {x}), [&](const Q& q) { return in(a, q) && !in(b, q); }); });
H_REG(symm, "c02.symm", [](const P& a, const P& b, const Q& x) -> std::string { I r(7), t(9); bool s = carl::set_symmetric_difference(mkI(a), mkI(b), r, t); return two(r, t, s, crit({a, b}, {x}), [&](const Q& q) { return in(a, q) != in(b, q); }); });
H_REG(compl_, "c02.compl", [](const P& a, const Q& x) -> std::string { I r(7), t(9); bool s = carl::set_complement(mkI(a), r, t); return two(r, t, s, crit({a}, {x}), [&](const Q& q) { return !in(a, q); }); });
H_REG(inter, "c02.inter", [](const P& a, const P& b, const Q& x) -> std::string { I r = carl::set_intersection(mkI(a), mkI(b)); return two(r, r, false, crit({a, b}, {x}), [&](const Q& q) { return in(a, q) && in(b, q); }); });
static bool below(const P& a, const P& b) { return a.ut != 2 && b.lt != 2 && (a.u < b.l || (a.u == b.l && !(a.ut == 1 && b.lt == 1))); }
static bool leb(const P& a, const P& b) { return a.ut != 2 && b.lt != 2 && a.u <= b.l; }
static bool subset(const P& a, const P& b) {
	if (!nonempty(a)) return true; if (!nonempty(b)) return false;
	bool l = b.lt == 2 || (a.lt != 2 && (b.l < a.l || (b.l == a.l && (b.lt == 1 || a.lt == 0))));
	bool u = b.ut == 2 || (a.ut != 2 && (b.u > a.u || (b.u == a.u && (b.ut == 1 || a.ut == 0))));
	return l && u;
}
#define ASK(e, w) H_CHECK((e) == (w), #e " gives " << (e))
H_REG(have, "c02.have", [](const P& a, const P& b) -> std::string { ASK(carl::set_have_intersection(mkI(a), mkI(b)), nonempty(a) && nonempty(b) && !below(a, b) && !below(b, a)); return ""; });
H_REG(psub, "c02.psub", [](const P& a, const P& b) -> std::string { ASK(carl::set_is_proper_subset(mkI(a), mkI(b)), subset(a, b) && !subset(b, a)); return ""; });
H_REG(subs, "c02.sub", [](const P& a, const P& b) -> std::string { ASK(carl::set_is_subset(mkI(a), mkI(b)), subset(a, b)); return ""; });
H_REG(containsI, "c02.containsI", [](const P& a, const P& b) -> std::string { ASK(mkI(a).contains(mkI(b)), subset(b, a)); return ""; });
H_REG(eq, "c02.eq", [](const P& a, const P& b) -> std::string { ASK(mkI(a) == mkI(b), same(a, b)); ASK(mkI(a) != mkI(b), !same(a, b)); return ""; });
H_REG(cmp, "c02.cmp", [](const P& a, const P& b) -> std::string {
	if (!nonempty(a) || !nonempty(b)) H_SKIP;
	ASK(mkI(a) < mkI(b), below(a, b)); ASK(mkI(a) > mkI(b), below(b, a)); ASK(mkI(a) <= mkI(b), leb(a, b)); ASK(mkI(a) >= mkI(b), leb(b, a)); return ""; });
H_REG(cmpn, "c02.cmpn", [](const P& a, const Q& n) -> std::string {
	ASK(mkI(a).contains(n), in(a, n)); ASK(mkI(a) == n, same(a, pointP(n))); ASK(n == mkI(a), same(a, pointP(n))); ASK(mkI(a) != n, !same(a, pointP(n))); ASK(n != mkI(a), !same(a, pointP(n)));
	if (!nonempty(a)) return "";
	P p = pointP(n);
	ASK(mkI(a) < n, below(a, p)); ASK(n > mkI(a), below(a, p)); ASK(mkI(a) > n, below(p, a)); ASK(n < mkI(a), below(p, a));
	ASK(mkI(a) <= n, leb(a, p)); ASK(n >= mkI(a), leb(a, p)); ASK(mkI(a) >= n, leb(p, a)); ASK(n <= mkI(a), leb(p, a));
	ASK(mkI(a).meets(n), in(a, n) || (a.lt != 2 && a.l == n) || (a.ut != 2 && a.u == n));
	return ""; });
H_REG(queries, "c02.queries", [](const P& a) -> std::string {
	I i = mkI(a); bool ne = nonempty(a);
	ASK(i.isEmpty(), !ne); ASK(i.isInfinite(), a.lt == 2 && a.ut == 2); ASK(i.isUnbounded(), a.lt == 2 || a.ut == 2); ASK(i.isHalfBounded(), (a.lt == 2) != (a.ut == 2));
	ASK(i.isPointInterval(), ne && a.lt != 2 && a.ut != 2 && a.l == a.u); ASK(i.isZero(), same(a, pointP(0))); ASK(carl::isZero(i), same(a, pointP(0))); ASK(i.isOne(), same(a, pointP(1))); ASK(carl::isOne(i), same(a, pointP(1)));
	if (!ne) return "";
	P z = pointP(0);
	ASK(i.isPositive(), below(z, a)); ASK(i.isNegative(), below(a, z)); ASK(i.isSemiPositive(), leb(z, a)); ASK(i.isSemiNegative(), leb(a, z));
	ASK((int)i.sgn(), below(z, a) ? 1 : below(a, z) ? -1 : 0);
	return ""; });
// ---- C03
#define SAMPLE(id, nm, call) H_REG(id, "c03." nm, [](const P& a) -> std::string { if (!nonempty(a)) H_SKIP; Q r = call; H_CHECK(in(a, r), r << " not in interval"); return ""; })
SAMPLE(center, "center", carl::center(mkI(a)));
SAMPLE(sleft, "sample_left", carl::sample_left(mkI(a)));
SAMPLE(sright, "sample_right", carl::sample_right(mkI(a)));
SAMPLE(szero, "sample_zero", carl::sample_zero(mkI(a)));
SAMPLE(sinfty, "sample_infty", carl::sample_infty(mkI(a)));
#define SAMPLEB(id, nm, call) H_REG(id, "c03." nm, [](const P& a, const bool& inc) -> std::string { if (!nonempty(a)) H_SKIP; bool pt = a.lt != 2 && a.ut != 2 && a.l == a.u; if (pt && !inc) H_SKIP; \
	if (!inc && a.lt != 2 && a.ut != 2 && a.u - a.l < Q(1, 100000)) H_SKIP; Q r = call; H_CHECK(in(a, r), r << " not in interval"); if (!inc) H_CHECK((a.lt == 2 || r != a.l) && (a.ut == 2 || r != a.u), r << " is an end point"); return ""; }, 4000)
SAMPLEB(sample, "sample", carl::sample(mkI(a), inc));
static bool sb_ok(const P& a) { return a.lt == 2 || a.ut == 2 || (a.u - a.l > Q(1, 1000) && abs(a.l) < 100000 && a.l.get_den() < 1000 && a.u.get_den() < 1000); }
H_REG(ssb, "c03.sample_sb", [](const P& a, const bool& inc) -> std::string { if (!nonempty(a) || !sb_ok(a)) H_SKIP; bool pt = a.lt != 2 && a.ut != 2 && a.l == a.u; if (pt && !inc) H_SKIP;
	Q r = carl::sample_stern_brocot(mkI(a), inc); H_CHECK(in(a, r), r << " not in interval"); if (!inc) H_CHECK((a.lt == 2 || r != a.l) && (a.ut == 2 || r != a.u), r << " is an end point"); return ""; }, 4000);
H_REG(split, "c03.split", [](const P& a, const Q& x) -> std::string {
	if (!nonempty(a) || (a.lt != 2 && a.ut != 2 && a.l == a.u)) H_SKIP;
	auto pr = mkI(a).split(); WF(pr.first); WF(pr.second);
	for (auto& q : crit({a, plain(pr.first), plain(pr.second)}, {x})) H_CHECK((int)in(pr.first, q) + (int)in(pr.second, q) == (int)in(a, q), "point " << q << " in " << show(pr.first) << " " << show(pr.second));
	return ""; });
H_REG(splitn, "c03.splitn", [](const P& a, const unsigned& n, const Q& x) -> std::string {
	if (!nonempty(a) || n < 1 || n > 20 || a.lt == 2 || a.ut == 2 || a.l == a.u) H_SKIP;
	auto l = mkI(a).split(n); H_CHECK(l.size() == n, "number of parts " << l.size()); std::vector<P> ps = {a};
	for (auto& i : l) { WF(i); ps.push_back(plain(i)); }
	for (auto& q : crit(ps, {x})) { int c = 0; for (auto& i : l) c += in(i, q); H_CHECK(c == (int)in(a, q), "point " << q << " in " << c << " parts"); }
	return ""; }, 4000, 20000);
H_REG(integralPart, "c03.integralPart", [](const P& a, const Z& k) -> std::string {
	I r = mkI(a).integralPart(); WF(r); std::vector<Z> c = {k};
	for (auto& e : {a.l, a.u}) { Z f; mpz_fdiv_q(f.get_mpz_t(), e.get_num_mpz_t(), e.get_den_mpz_t()); for (int d = -2; d <= 2; ++d) c.push_back(f + d); }
	for (auto& z : c) H_CHECK(in(r, Q(z)) == in(a, Q(z)), "integer " << z << " in " << show(r));
	P p = plain(r); if (nonempty(p)) H_CHECK((p.lt == 2 || p.l.get_den() == 1) && (p.ut == 2 || p.u.get_den() == 1), "bounds of " << show(r));
	return ""; });
H_REG(containsInteger, "c03.containsInteger", [](const P& a, const Z& k) -> std::string {
	if (!nonempty(a)) H_SKIP;
	bool w = in(a, Q(k)) || a.lt == 2 || a.ut == 2;
	for (auto& e : {a.l, a.u}) { Z f; mpz_fdiv_q(f.get_mpz_t(), e.get_num_mpz_t(), e.get_den_mpz_t()); for (int d = -2; d <= 2; ++d) w = w || in(a, Q(Z(f + d))); }
	ASK(mkI(a).containsInteger(), w); return ""; });
H_REG(isInteger, "c03.isInteger", [](const P& a) -> std::string { ASK(carl::isInteger(mkI(a)), nonempty(a) && a.lt != 2 && a.ut != 2 && a.l == a.u && a.l.get_den() == 1); return ""; });
H_REG(measures, "c03.measures", [](const P& a) -> std::string {
	if (!nonempty(a) || a.lt == 2 || a.ut == 2) H_SKIP;
	ASK(mkI(a).diameter(), Q(a.u - a.l)); Q m = abs(a.l); if (abs(a.u) > m) m = abs(a.u); ASK(mkI(a).magnitude(), m); return ""; });
H_REG(distance, "c03.distance", [](const P& a, const P& b) -> std::string {
	if (!nonempty(a) || !nonempty(b)) H_SKIP;
	I i = mkI(a); Q d = i.distance(mkI(b)); Q w = below(a, b) ? Q(b.l - a.u) : below(b, a) ? Q(a.l - b.u) : Q(0); H_CHECK(d == w, "distance " << d << " expected " << w); return ""; });
H_MAIN
