// Run-time oracles for numbers, signs, relations, finite fields, primes (bounded stand-in and replay target).
// links: carl/numbers/adaption_gmpxx/operations.cpp
#include "types.h"
#include <carl/numbers/numbers.h>
#include <carl/core/Relation.h>
#include <carl/core/Sign.h>
#include <carl/numbers/GFNumber.h>
#include <carl/numbers/PrimeFactory.h>
using Q = mpq_class; using Z = mpz_class; using carl::Sign; using carl::Relation;
using GF = carl::GFNumber<Z>; using Field = carl::GaloisField<Z>;
using Qs = std::vector<Q>; struct Signs { std::vector<int> v; };
namespace hh {
template<> struct Arg<Signs> {
	static std::vector<Signs> all() {
		std::vector<Signs> r; r.push_back({});
		for (std::size_t n = 1; n <= 5; ++n) { std::size_t m = 1; for (std::size_t i = 0; i < n; ++i) m *= 3;
			for (std::size_t k = 0; k < m; ++k) { Signs s; std::size_t x = k; for (std::size_t i = 0; i < n; ++i) { s.v.push_back((int)(x % 3) - 1); x /= 3; } r.push_back(s); } }
		return r;
	}
	static Signs gen(Rng& r) { Signs s; std::size_t n = r.below(14); for (std::size_t i = 0; i < n; ++i) s.v.push_back((int)r.in(-1, 1)); return s; }
	static std::string str(const Signs& s) { std::string o; for (int x : s.v) o += (o.empty() ? "" : ",") + std::to_string(x); return o.empty() ? "-" : o; }
	static Signs parse(const std::string& t) { Signs s; if (t == "-") return s; std::stringstream ss(t); std::string x; while (std::getline(ss, x, ',')) s.v.push_back(std::stoi(x)); return s; }
};
template<> struct Arg<Qs> {
	static std::vector<Qs> all() { std::vector<Qs> r; r.push_back({}); for (int a = -1; a < 2; ++a) { r.push_back({Q(a)}); for (int b = -1; b < 2; ++b) { r.push_back({Q(a), Q(b)}); for (int c = -1; c < 2; ++c) r.push_back({Q(a), Q(b), Q(c)}); } } return r; }
	static Qs gen(Rng& r) { Qs s; std::size_t n = r.below(10); for (std::size_t i = 0; i < n; ++i) s.push_back(r.below(3) == 0 ? Q(0) : Arg<Q>::gen(r)); return s; }
	static std::string str(const Qs& s) { std::string o; for (auto& x : s) o += (o.empty() ? "" : ",") + x.get_str(); return o.empty() ? "-" : o; }
	static Qs parse(const std::string& t) { Qs s; if (t == "-") return s; std::stringstream ss(t); std::string x; while (std::getline(ss, x, ',')) s.push_back(Arg<Q>::parse(x)); return s; }
};
struct Rel { int r; };
template<> struct Arg<Rel> {
	static std::vector<Rel> all() { std::vector<Rel> v; for (int i = 0; i < 6; ++i) v.push_back({i}); return v; }
	static Rel gen(Rng& r) { return {(int)r.below(6)}; }
	static std::string str(const Rel& r) { return std::to_string(r.r); }
	static Rel parse(const std::string& s) { return {std::stoi(s)}; }
};
// size of a field p^k (or any modulus from a counterexample)
struct FS { Z n; };
inline bool pp(const Z& n, unsigned& p, unsigned& k) {
	for (unsigned long q = 2; q < 70000; ++q) if (n % q == 0) { Z m = n; k = 0; while (m % q == 0) { m /= q; ++k; } p = (unsigned)q; return m == 1; }
	return false;
}
template<> struct Arg<FS> {
	static std::vector<FS> all() { std::vector<FS> v; for (int n : {2, 3, 5, 7, 11, 13, 4, 8, 9, 25}) v.push_back({Z(n)}); v.push_back({Z(65537) * 65537}); return v; }
	static FS gen(Rng& r) { static const int ps[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 101, 257, 997, 65537}; Z p = ps[r.below(13)]; Z n = p; for (auto k = r.below(4); k > 0; --k) if (r.below(2)) n *= p; return {n}; }
	static std::string str(const FS& f) { return f.n.get_str(); }
	static FS parse(const std::string& s) { return {Z(s)}; }
};
}
using hh::Rel; using hh::FS;
static int sg(const Q& q) { return q < 0 ? -1 : q > 0; }
static bool rel(int r, const Q& a, const Q& b) { switch (r) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a > b; case 4: return a <= b; default: return a >= b; } }
static std::size_t vars(const std::vector<int>& v) { std::size_t n = 0; int last = 0; for (int x : v) if (x) { if (last && x != last) ++n; last = x; } return n; }
static Z absz(const Z& z) { return z < 0 ? Z(-z) : z; }
// ---------------------------------------------------------------- C05
H_REG(r1, "c05.relation", [](Rel r, Q a, Q b) -> std::string {
	auto R = (Relation)r.r;
	H_CHECK(rel((int)carl::inverse(R), a, b) == !rel(r.r, a, b), "inverse(" << R << ") = " << carl::inverse(R) << " is not the negation");
	H_CHECK(rel((int)carl::turn_around(R), b, a) == rel(r.r, a, b), "turn_around(" << R << ") = " << carl::turn_around(R) << " is not the mirrored relation");
	H_CHECK(carl::isStrict(R) == !rel(r.r, 0, 0), "isStrict(" << R << ")"); H_CHECK(carl::isWeak(R) == rel(r.r, 0, 0), "isWeak(" << R << ")");
	return "";
});
H_REG(r2, "c05.evaluate", [](Rel r, Q a, Q b) -> std::string {
	auto R = (Relation)r.r;
	H_CHECK(carl::evaluate(a, R) == rel(r.r, a, 0), "evaluate(" << a << ", " << R << ") = " << carl::evaluate(a, R));
	H_CHECK(carl::evaluate(a, R, b) == rel(r.r, a, b), "evaluate(" << a << R << b << ") = " << carl::evaluate(a, R, b));
	return "";
});
H_REG(r3, "c05.evaluatez", [](Rel r, Z a, Z b) -> std::string {
	auto R = (Relation)r.r; H_CHECK(carl::evaluate(a, R, b) == rel(r.r, a, b), "evaluate(" << a << R << b << ")"); H_CHECK(carl::evaluate(a, R) == rel(r.r, a, 0), "evaluate(" << a << "," << R << ")"); return "";
});
H_REG(r4, "c05.evalsign", [](Rel r, int s) -> std::string { if (s < -1 || s > 1) H_SKIP; H_CHECK(carl::evaluate((Sign)s, (Relation)r.r) == rel(r.r, s, 0), "evaluate(sign " << s << ", " << (Relation)r.r << ")"); return ""; });
H_REG(s1, "c05.sgn", [](Q a) -> std::string { H_CHECK((int)carl::sgn(a) == sg(a), "sgn(" << a << ") = " << carl::sgn(a)); return ""; });
H_REG(s2, "c05.sgnz", [](Z a) -> std::string { H_CHECK((int)carl::sgn(a) == sg(a), "sgn(" << a << ") = " << carl::sgn(a)); return ""; });
H_REG(s3, "c05.variations", [](Signs v) -> std::string {
	// guarded buffer: an access beyond the end sees a sign that changes the count
	std::size_t want = vars(v.v);
	for (int guard = -1; guard <= 1; guard += 1) {
		std::vector<Sign> s; for (int x : v.v) s.push_back((Sign)x); s.push_back((Sign)guard); s.push_back((Sign)(guard == 0 ? 1 : -guard));
		auto r = carl::sign_variations(s.begin(), s.end() - 2); H_CHECK(r == want, "sign_variations = " << r << ", expected " << want);
	}
	return "";
});
H_REG(s4, "c05.variations_f", [](Qs v) -> std::string {
	std::vector<int> w; for (auto& q : v) w.push_back(sg(q));
	auto r = carl::sign_variations(v.begin(), v.end(), [](const Q& q) { return carl::sgn(q); }); H_CHECK(r == vars(w), "sign_variations = " << r << ", expected " << vars(w)); return "";
});
// ---------------------------------------------------------------- C07
H_REG(q1, "c07.q1", [](Q a) -> std::string {
	Z f = carl::floor(a), c = carl::ceil(a), r = carl::round(a);
	H_CHECK(f <= a && a < f + 1, "floor(" << a << ") = " << f); H_CHECK(c >= a && a > c - 1, "ceil(" << a << ") = " << c);
	H_CHECK(abs(Q(r) - a) <= Q(1, 2), "round(" << a << ") = " << r);
	H_CHECK(carl::abs(a) == (a < 0 ? Q(-a) : a), "abs(" << a << ")"); H_CHECK(carl::getNum(a) == a.get_num() && carl::getDenom(a) == a.get_den(), "numerator/denominator of " << a);
	H_CHECK(carl::isInteger(a) == (a.get_den() == 1), "isInteger(" << a << ")"); H_CHECK(carl::isZero(a) == (a == 0) && carl::is_zero(a) == (a == 0), "isZero(" << a << ")"); H_CHECK(carl::isOne(a) == (a == 1) && carl::is_one(a) == (a == 1), "isOne(" << a << ")");
	H_CHECK(carl::isPositive(a) == (a > 0) && carl::isNegative(a) == (a < 0), "sign tests of " << a);
	return "";
});
H_REG(z1, "c07.z1", [](Z a) -> std::string {
	H_CHECK(carl::floor(a) == a && carl::ceil(a) == a && carl::round(a) == a, "rounding of the integer " << a); H_CHECK(carl::abs(a) == absz(a), "abs(" << a << ")");
	H_CHECK(carl::getNum(a) == a, "getNum(" << a << ") = " << carl::getNum(a)); H_CHECK(carl::getDenom(a) == 1, "getDenom(" << a << ") = " << carl::getDenom(a));
	H_CHECK(carl::isInteger(a), "isInteger"); H_CHECK(carl::isZero(a) == (a == 0) && carl::is_zero(a) == (a == 0), "isZero(" << a << ")"); H_CHECK(carl::isOne(a) == (a == 1) && carl::is_one(a) == (a == 1), "isOne(" << a << ")");
	H_CHECK(carl::isPositive(a) == (a > 0) && carl::isNegative(a) == (a < 0), "sign tests of " << a);
	return "";
});
static bool trunc_ok(const Z& n, const Z& m, const Z& r) { return absz(r) < absz(m) && (n - r) % m == 0 && (r == 0 || (r < 0) == (n < 0)); }
H_REG(o1, "c07.mod", [](Z n, Z m) -> std::string { if (m == 0) H_SKIP; Z r = carl::mod(n, m); H_CHECK(trunc_ok(n, m, r), "mod(" << n << "," << m << ") = " << r); return ""; });
H_REG(o2, "c07.rem", [](Z n, Z m) -> std::string { if (m == 0) H_SKIP; Z r = carl::remainder(n, m); H_CHECK(trunc_ok(n, m, r), "remainder(" << n << "," << m << ") = " << r); return ""; });
H_REG(o3, "c07.quot", [](Z n, Z m) -> std::string { if (m == 0) H_SKIP; Z q = carl::quotient(n, m); H_CHECK(trunc_ok(n, m, n - q * m), "quotient(" << n << "," << m << ") = " << q); H_CHECK(carl::operator/(n, m) == q, "operator/"); return ""; });
H_REG(o4, "c07.divide", [](Z n, Z m) -> std::string { if (m == 0) H_SKIP; Z q, r; carl::divide(n, m, q, r); H_CHECK(n == q * m + r && absz(r) < absz(m), "divide(" << n << "," << m << ") = " << q << ", " << r); return ""; });
H_REG(o5, "c07.divq", [](Q a, Q b) -> std::string { if (b == 0) H_SKIP; Q w; mpq_div(w.get_mpq_t(), a.get_mpq_t(), b.get_mpq_t()); H_CHECK(carl::quotient(a, b) == w && carl::div(a, b) == w && carl::operator/(a, b) == w, "quotient of " << a << " and " << b); Q c = a; carl::div_assign(c, b); H_CHECK(c == w, "div_assign"); return ""; });
H_REG(o6, "c07.divz", [](Z b, Z k) -> std::string { if (b == 0) H_SKIP; Z a = b * k; H_CHECK(carl::div(a, b) == k, "div(" << a << "," << b << ") = " << carl::div(a, b)); Z c = a; carl::div_assign(c, b); H_CHECK(c == k, "div_assign"); return ""; });
H_REG(o7, "c07.recip", [](Q a) -> std::string { if (a == 0) H_SKIP; H_CHECK(Q(carl::reciprocal(a) * a) == 1, "reciprocal(" << a << ")"); return ""; });
H_REG(o8, "c07.timesq", [](Q a, Q b) -> std::string { Q w; mpq_mul(w.get_mpq_t(), a.get_mpq_t(), b.get_mpq_t()); H_CHECK(carl::operator*(a, b) == w, "product"); return ""; });
static Z euclid(Z a, Z b) { a = absz(a); b = absz(b); while (b != 0) { Z t = a % b; a = b; b = t; } return a; }
H_REG(g1, "c07.gcd", [](Z a, Z b) -> std::string {
	Z g = euclid(a, b); H_CHECK(carl::gcd(a, b) == g, "gcd(" << a << "," << b << ") = " << carl::gcd(a, b)); Z l = g == 0 ? Z(0) : absz(Z(a / g * b)); H_CHECK(carl::lcm(a, b) == l, "lcm(" << a << "," << b << ") = " << carl::lcm(a, b));
	Z c = a; carl::gcd_assign(c, b); H_CHECK(c == g, "gcd_assign"); return "";
});
H_REG(g2, "c07.gcdq", [](Q a, Q b) -> std::string {
	Q g = carl::gcd(a, b); if (a == 0 && b == 0) { H_CHECK(g == 0, "gcd(0,0)"); return ""; }
	H_CHECK(g > 0 && Q(a / g).get_den() == 1 && Q(b / g).get_den() == 1 && euclid(Q(a / g).get_num(), Q(b / g).get_num()) == 1, "gcd(" << a << "," << b << ") = " << g);
	Q c = a; carl::gcd_assign(c, b); H_CHECK(c == g, "gcd_assign");
	if (a != 0 && b != 0) { Q l = carl::lcm(a, b); H_CHECK(l > 0 && Q(l / a).get_den() == 1 && Q(l / b).get_den() == 1 && euclid(Q(l / a).get_num(), Q(l / b).get_num()) == 1, "lcm(" << a << "," << b << ") = " << l); }
	return "";
});
H_REG(p1, "c07.pow", [](Z b, unsigned e) -> std::string {
	Z w = 1; for (unsigned i = 0; i < e; ++i) w *= b;
	H_CHECK(carl::pow(b, e) == w, "pow(" << b << "," << e << ") = " << carl::pow(b, e)); Z c = b; carl::pow_assign(c, e); H_CHECK(c == w, "pow_assign(" << b << "," << e << ") = " << c);
	if (b >= 0 && b < 30 && e < 13) { carl::uint u = b.get_ui(); H_CHECK(carl::pow(u, e) == w.get_ui(), "pow<uint>(" << u << "," << e << ") = " << carl::pow(u, e)); }
	return "";
});
H_REG(p2, "c07.powq", [](Q b, unsigned e) -> std::string { Q w = 1; for (unsigned i = 0; i < e; ++i) w *= b; H_CHECK(carl::pow(b, e) == w, "pow(" << b << "," << e << ")"); Q c = b; carl::pow_assign(c, e); H_CHECK(c == w, "pow_assign"); return ""; });
static bool square(const Q& a) { return a >= 0 && mpz_perfect_square_p(a.get_num_mpz_t()) && mpz_perfect_square_p(a.get_den_mpz_t()); }
H_REG(w1, "c07.sqrt_exact", [](Q x, bool sq) -> std::string { Q a = sq ? Q(x * x) : x; Q b = -7; bool r = carl::sqrt_exact(a, b); H_CHECK(r == square(a), "sqrt_exact(" << a << ") reports " << r); if (r) H_CHECK(b >= 0 && b * b == a, "sqrt_exact(" << a << ") = " << b); return ""; });
H_REG(w2, "c07.sqrt_safe", [](Q a) -> std::string { if (a <= 0) H_SKIP; auto r = carl::sqrt_safe(a); H_CHECK(r.first >= 0 && r.first * r.first <= a && r.second * r.second >= a && r.second >= 0, "sqrt_safe(" << a << ") = [" << r.first << "," << r.second << "]"); Q b = a * a; auto s = carl::sqrt_safe(b); H_CHECK(s.first == a && s.second == a, "sqrt_safe of the square " << b << " is not exact"); return ""; });
H_REG(w3, "c07.sqrt_fast", [](Q a) -> std::string { if (a < 0) H_SKIP; auto r = carl::sqrt_fast(a); H_CHECK(r.first >= 0 && r.first * r.first <= a && r.second * r.second >= a && r.second >= 0, "sqrt_fast(" << a << ") = [" << r.first << "," << r.second << "]"); Q b = a * a; auto s = carl::sqrt_fast(b); H_CHECK(s.first == a && s.second == a, "sqrt_fast of the square " << b << " is not exact"); return ""; });
H_REG(w4, "c07.sqrt", [](Q a) -> std::string { if (a <= 0) H_SKIP; auto r = carl::sqrt_safe(a); Q s = carl::sqrt(a); H_CHECK(r.first <= s && s <= r.second, "sqrt(" << a << ") = " << s << " outside its enclosure"); Q b = a * a; H_CHECK(carl::sqrt(b) == a, "sqrt(" << b << ")"); return ""; });
H_REG(w5, "c07.root_safe", [](Q a, unsigned n) -> std::string {
	if (a <= 0 || n < 1) H_SKIP; auto pw = [n](const Q& x) { Q w = 1; for (unsigned i = 0; i < n; ++i) w *= x; return w; };
	auto r = carl::root_safe(a, n); H_CHECK(r.first >= 0 && pw(r.first) <= a && pw(r.second) >= a, "root_safe(" << a << "," << n << ") = [" << r.first << "," << r.second << "]");
	auto s = carl::root_safe(pw(a), n); H_CHECK(s.first == a && s.second == a, "root_safe of an exact power is not exact"); return "";
});
H_REG(cv, "c07.conv", [](Z a) -> std::string {
	if (a >= std::numeric_limits<long>::min() && a <= std::numeric_limits<long>::max()) { long l = a.get_si(); H_CHECK(carl::toInt<carl::sint>(a) == l && carl::toInt<carl::sint>(Q(a)) == l && carl::fromInt<Z>((carl::sint)l) == a && carl::fromInt<Q>((carl::sint)l) == a && carl::rationalize<Q>((carl::sint)l) == a, "conversion of " << a); }
	if (a >= 0 && a <= std::numeric_limits<unsigned long>::max()) { unsigned long l = a.get_ui(); H_CHECK(carl::toInt<carl::uint>(a) == l && carl::toInt<carl::uint>(Q(a)) == l && carl::fromInt<Z>((carl::uint)l) == a && carl::fromInt<Q>((carl::uint)l) == a && carl::rationalize<Q>((carl::uint)l) == a, "conversion of " << a); }
	if (a >= -2147483648L && a <= 2147483647L) H_CHECK(carl::rationalize<Q>((int)a.get_si()) == a, "rationalize(int)");
	H_CHECK(carl::toInt<Z>(Q(a)) == a, "toInt<mpz>"); H_CHECK(carl::rationalize<Q>(a.get_d()) == Q(a.get_d()), "rationalize(double)"); return "";
});
// ---------------------------------------------------------------- C06
static Z norm(const Z& n, const Z& m) { Z r = ((n % m) + m) % m; if (2 * r > m) r -= m; return r; }
static Field mkf(const FS& s) { unsigned p, k; if (!hh::pp(s.n, p, k)) H_SKIP; return Field(p, k); }
#define GFCHK(e, want, what) do { GF h_r = e; H_CHECK(h_r.representingInteger() == norm(want, s.n) && h_r.gf() == &f, what << " mod " << s.n << " gives " << h_r.representingInteger() << ", expected " << norm(want, s.n)); } while (0)
H_REG(f0, "c06.field", [](unsigned p, unsigned k) -> std::string { if (p < 2 || k < 1) H_SKIP; Field f(p, k); Z w = 1; for (unsigned i = 0; i < k; ++i) w *= p; H_CHECK(f.size() == w && f.p() == p && f.k() == k, "size of GF(" << p << "^" << k << ") is " << f.size()); Field g(65537, k); Z v = 1; for (unsigned i = 0; i < k; ++i) v *= 65537; H_CHECK(g.size() == v, "size of GF(65537^" << k << ") is " << g.size()); H_CHECK((f == g) == (w == v), "field equality"); return ""; });
H_REG(f1, "c06.symmod", [](FS s, Z n) -> std::string { Field f = mkf(s); H_CHECK(f.symmetricModulo(n) == norm(n, s.n) && f.modulo(n) == norm(n, s.n), n << " mod " << s.n << " gives " << f.symmetricModulo(n) << ", expected " << norm(n, s.n)); return ""; });
H_REG(f2, "c06.mk", [](FS s, Z n) -> std::string { Field f = mkf(s); GFCHK(GF(n, &f), n, "construction of " << n); GFCHK(GF(n).toGF(&f), n, "toGF of " << n); GFCHK(GF(GF(n), &f), n, "field change of " << n); return ""; });
#define BIN(id, nm, OP) \
H_REG(f_##id, "c06." nm, [](FS s, Z a, Z b) -> std::string { Field f = mkf(s); GFCHK(GF(a, &f) OP GF(b, &f), a OP b, a << #OP << b); return ""; }); \
H_REG(fz_##id, "c06." nm "z", [](FS s, Z a, Z b) -> std::string { Field f = mkf(s); GFCHK(GF(a, &f) OP b, a OP b, a << #OP << b); return ""; }); \
H_REG(zf_##id, "c06.z" nm, [](FS s, Z a, Z b) -> std::string { Field f = mkf(s); GFCHK(b OP GF(a, &f), b OP a, b << #OP << a); return ""; }); \
H_REG(fa_##id, "c06." nm "_assign", [](FS s, Z a, Z b) -> std::string { Field f = mkf(s); GF x(a, &f); x OP##= GF(b, &f); GFCHK(x, a OP b, a << #OP << "=" << b); return ""; }); \
H_REG(fb_##id, "c06." nm "_assignz", [](FS s, Z a, Z b) -> std::string { Field f = mkf(s); GF x(a, &f); x OP##= b; GFCHK(x, a OP b, a << #OP << "=" << b); return ""; }); \
H_REG(fl_##id, "c06.lit_" nm, [](FS s, Z a, Z b) -> std::string { Field f = mkf(s); GF x(a); x OP##= GF(b, &f); GFCHK(x, a OP b, a << #OP << "=" << b); GFCHK(GF(a) OP GF(b, &f), a OP b, a << #OP << b); GFCHK(GF(b, &f) OP GF(a), b OP a, b << #OP << a); return ""; });
BIN(add, "add", +)
BIN(sub, "sub", -)
BIN(mul, "mul", *)
H_REG(f3, "c06.neg", [](FS s, Z a) -> std::string { Field f = mkf(s); GFCHK(-GF(a, &f), -a, "negation of " << a); return ""; });
H_REG(f4, "c06.inc", [](FS s, Z a) -> std::string { Field f = mkf(s); GF x(a, &f); ++x; GFCHK(x, a + 1, "increment of " << a); return ""; });
H_REG(f5, "c06.dec", [](FS s, Z a) -> std::string { Field f = mkf(s); GF x(a, &f); --x; GFCHK(x, a - 1, "decrement of " << a); return ""; });
H_REG(f6, "c06.norm", [](FS s, Z a) -> std::string { Field f = mkf(s); GF x(a, &f); x.normalize(); GFCHK(x, a, "normalisation of " << a); return ""; });
static bool invertible(const Z& a, const Z& n) { return euclid(a, n) == 1; }
H_REG(f7, "c06.inv", [](FS s, Z a) -> std::string { Field f = mkf(s); if (!invertible(a, s.n)) H_SKIP; GF x(a, &f), i = x.inverse(); H_CHECK(norm(i.representingInteger() * a, s.n) == norm(1, s.n) && norm(i.representingInteger(), s.n) == i.representingInteger() && i.gf() == &f, "inverse of " << a << " mod " << s.n << " = " << i.representingInteger()); return ""; });
H_REG(f8, "c06.div", [](FS s, Z a, Z b) -> std::string { Field f = mkf(s); if (!invertible(b, s.n)) H_SKIP; GF i = GF(a, &f) / GF(b, &f); H_CHECK(norm(i.representingInteger() * b, s.n) == norm(a, s.n) && norm(i.representingInteger(), s.n) == i.representingInteger(), a << "/" << b << " mod " << s.n << " = " << i.representingInteger()); H_CHECK(carl::quotient(GF(a, &f), GF(b, &f)) == i, "quotient"); return ""; });
H_REG(f8q, "c06.quot", [](FS s, Z a, Z b) -> std::string { Field f = mkf(s); if (!invertible(b, s.n)) H_SKIP; GF i = carl::quotient(GF(a, &f), GF(b, &f)); H_CHECK(norm(i.representingInteger() * b, s.n) == norm(a, s.n), a << "/" << b << " mod " << s.n << " = " << i.representingInteger()); return ""; });
H_REG(f9, "c06.div_assign", [](FS s, Z a, Z b) -> std::string { Field f = mkf(s); if (!invertible(b, s.n)) H_SKIP; GF i(a, &f); i /= GF(b, &f); H_CHECK(norm(i.representingInteger() * b, s.n) == norm(a, s.n) && norm(i.representingInteger(), s.n) == i.representingInteger(), a << "/=" << b << " mod " << s.n << " = " << i.representingInteger()); return ""; });
H_REG(fa, "c06.tests", [](FS s, Z a) -> std::string { Field f = mkf(s); GF x(a, &f); H_CHECK(x.isZero() == (norm(a, s.n) == 0) && carl::isZero(x) == x.isZero(), "isZero of " << a << " mod " << s.n); H_CHECK(x.isOne() == (norm(a - 1, s.n) == 0) && carl::isOne(x) == x.isOne() && x.isUnit() == x.isOne(), "isOne of " << a << " mod " << s.n); return ""; });
H_REG(fe, "c06.eq", [](FS s, Z a, Z b) -> std::string { Field f = mkf(s), f2 = mkf(s); bool w = norm(a - b, s.n) == 0; GF x(a, &f), y(b, &f), z(b, &f2); H_CHECK((x == y) == w && (x != y) == !w && (x == z) == w, a << " == " << b << " mod " << s.n); return ""; });
H_REG(fez, "c06.eqz", [](FS s, Z a, Z b) -> std::string { Field f = mkf(s); bool w = norm(a - b, s.n) == 0; GF x(a, &f); H_CHECK((x == b) == w && (b == x) == w && (x != b) == !w && (b != x) == !w, a << " == " << b << " mod " << s.n); return ""; });
H_REG(fei, "c06.eqi", [](FS s, Z a, int b) -> std::string { Field f = mkf(s); bool w = norm(a - b, s.n) == 0; GF x(a, &f); H_CHECK((x == b) == w && (b == x) == w && (x != b) == !w && (b != x) == !w, a << " == " << b << " mod " << s.n); return ""; });
H_REG(ea, "c06.eea", [](Z a, Z b) -> std::string { auto r = carl::EEA<Z>::calculate(a, b); H_CHECK(a * r.first + b * r.second == euclid(a, b), "EEA(" << a << "," << b << ") = " << r.first << "," << r.second); if (a >= 0 && b >= 0) { Z s, t; carl::EEA<Z>::calculate_recursive(a, b, s, t); H_CHECK(a * s + b * t == euclid(a, b), "EEA recursion on " << a << "," << b); } return ""; });
// ---------------------------------------------------------------- C32
static bool isprime(unsigned long n) { if (n < 2) return false; for (unsigned long d = 2; d * d <= n; ++d) if (n % d == 0) return false; return true; }
static unsigned long nth(std::size_t i) { static std::vector<unsigned long> v; unsigned long c = v.empty() ? 2 : v.back() + 1; while (v.size() <= i) { if (isprime(c)) v.push_back(c); ++c; } return v[i]; }
// requests: a sequence of indices (0 = nextPrime)
H_REG(pr, "c32.seq", [](Signs req) -> std::string {
	carl::PrimeFactory<carl::uint> pf; carl::PrimeFactory<Z> pz; std::size_t nu = 0, nz = 0; // mNext is per object; [] advances it as a side effect of computing
	for (int x : req.v) {
		std::size_t i = (std::size_t)(x + 1) * 17 + req.v.size() * 9;
		auto before = pf.size(); (void)before;
		if (x < 0) { carl::uint a = pf.nextPrime(); H_CHECK(isprime(a), "nextPrime = " << a << " is no prime"); H_CHECK(nu == (std::size_t)-1 || a == nth(nu), "nextPrime = " << a << ", expected " << nth(nu)); ++nu; Z b = pz.nextPrime(); H_CHECK(b == nth(nz), "nextPrime<mpz> = " << b); ++nz; }
		else { while (i >= pf.size()) { carl::uint a = pf.nextPrime(); H_CHECK(a == nth(nu), "nextPrime = " << a << ", expected " << nth(nu)); ++nu; }
			while (i >= pz.size()) { Z a = pz.nextPrime(); H_CHECK(a == nth(nz), "nextPrime<mpz> = " << a << ", expected " << nth(nz)); ++nz; }
			carl::uint a = pf[i]; H_CHECK(a == nth(i), "prime[" << i << "] = " << a); Z b = pz[i]; H_CHECK(b == nth(i), "prime<mpz>[" << i << "] = " << b); }
	}
	return "";
}, 300, 300);
H_REG(pa, "c32.at", [](unsigned i) -> std::string { std::size_t k = (std::size_t)i * 211 + 3; carl::PrimeFactory<carl::uint> pf; carl::uint a = pf[k]; H_CHECK(a == nth(k), "prime[" << k << "] = " << a << ", expected " << nth(k)); carl::PrimeFactory<Z> pz; Z b = pz[k]; H_CHECK(b == nth(k), "prime<mpz>[" << k << "] = " << b); const auto& c = pf; for (std::size_t j = 0; j < c.size(); ++j) H_CHECK(c[j] == nth(j), "list entry " << j << " = " << c[j]); return ""; }, 20, 20);
H_REG(pn, "c32.next", [](unsigned i) -> std::string { carl::PrimeFactory<carl::uint> pf; for (std::size_t k = 0; k < 60 + 7 * i; ++k) { carl::uint a = pf.nextPrime(); H_CHECK(a == nth(k), "prime number " << k << " = " << a << ", expected " << nth(k)); } return ""; }, 10, 10);
H_MAIN
