// Entry points into carl's Diophantine helpers for extraction (no logic of its own).
#include <carl/numbers/numbers.h>
#include <carl/core/VariablePool.h>
#include <carl/core/MultivariatePolynomial.h>
#include <carl/core/polynomialfunctions/Degree.h>
#include <carl/core/DiophantineEquation.h>
#include <gmpxx.h>
namespace vp {
using Z = mpz_class; using P = carl::MultivariatePolynomial<Z>;
Z d_gcd(Z a, Z b, Z& s, Z& t) { return carl::extended_gcd_integer(a, b, s, t); }
std::vector<Z> d_lin(P& p) { return carl::solveLinearDiophantine(p); }
std::vector<Z> d_solve(P& p) { return carl::solveDiophantine(p); }
}
