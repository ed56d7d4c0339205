// Run-time oracles for the Diophantine helpers (bounded stand-in and replay target).
// links: carl/numbers/adaption_gmpxx/operations.cpp carl/core/VariablePool.cpp carl/core/Variable.cpp carl/util/Pool.cpp carl/core/MonomialPool.cpp carl/core/Monomial.cpp
#include "types.h"
#include <carl/core/VariablePool.h>
#include <carl/core/MultivariatePolynomial.h>
#include <carl/core/DiophantineEquation.h>
using Z = mpz_class; using P = carl::MultivariatePolynomial<Z>; using T = carl::Term<Z>;
struct Lin { std::vector<Z> c; };          // c[0] the constant, then the coefficients of the terms in order
namespace hh {
template<> struct Arg<Lin> {
	static std::vector<Lin> all() { std::vector<Lin> r; for (int c = -3; c <= 3; ++c) for (int a = -3; a <= 3; ++a) if (a) { r.push_back(Lin{{c, a}}); for (int b = -4; b <= 4; ++b) if (b) { r.push_back(Lin{{c, a, b}}); for (int d : {-6, -5, 4, 9}) r.push_back(Lin{{7 * c, 2 * a, 3 * b, d}}); } } return r; }
	static Lin gen(Rng& r) { Lin l; l.c.push_back(r.coin() ? Z((long)r.in(-60, 60)) : rnd_mpz(r)); std::size_t n = r.below(6) + 1; Z f = r.coin() ? Z(1) : Z((long)r.in(1, 12)); for (std::size_t i = 0; i < n; ++i) { Z z = r.below(4) ? Z((long)r.in(-30, 30)) : rnd_mpz(r, 50); z *= f; l.c.push_back(z == 0 ? Z(1) : z); } if (r.coin()) l.c[0] *= f; return l; }
	static std::string str(const Lin& l) { std::string s; for (auto& z : l.c) s += (s.empty() ? "" : ",") + z.get_str(); return s; }
	static Lin parse(const std::string& s) { Lin l; std::stringstream ss(s); std::string t; while (std::getline(ss, t, ',')) l.c.push_back(Z(t)); return l; }
};
}
H_REG(gcd, "c27.gcd", [](const Z& a, const Z& b) -> std::string {
	Z s, t, g = carl::extended_gcd_integer(Z(a), Z(b), s, t), e; mpz_gcd(e.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t());
	H_CHECK(g == e, "gcd " << g << " instead of " << e); H_CHECK(a * s + b * t == g, "Bezout identity: " << s << ", " << t); return ""; });
H_REG(solve, "c27.solve", [](const Lin& l) -> std::string {
	if (l.c.size() < 2 || l.c.size() > 9) H_SKIP;
	static std::vector<carl::Variable> vs; while (vs.size() < 9) vs.push_back(carl::freshIntegerVariable());
	Z g = 0; for (std::size_t i = 1; i < l.c.size(); ++i) { if (l.c[i] == 0) H_SKIP; mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), l.c[i].get_mpz_t()); }
	if (l.c[0] % g != 0) H_SKIP;
	P p(l.c[0]); for (std::size_t i = l.c.size() - 1; i >= 1; --i) p += T(l.c[i], vs[i - 1], 1);
	for (int k = 0; k < 2; ++k) {
		std::vector<Z> x = k ? carl::solveLinearDiophantine(p) : carl::solveDiophantine(p), c; for (auto& t : p.getTerms()) if (!t.isConstant()) c.push_back(t.coeff());
		H_CHECK(x.size() == c.size(), "number of values"); Z v = l.c[0]; for (std::size_t i = 0; i < c.size(); ++i) v += c[i] * x[i]; H_CHECK(v == 0, "the values do not satisfy the equation: " << v);
	}
	return ""; });
H_MAIN
