// Entry points into the order and hash of carl's multivariate polynomials for extraction (no logic of its own).
#include <carl/numbers/numbers.h>
#include <carl/core/VariablePool.h>
#include <carl/core/MultivariatePolynomial.h>
#include <gmpxx.h>
namespace vp {
using Q = mpq_class; using T = carl::Term<Q>; using P = carl::MultivariatePolynomial<Q>;
void p_order(const P& p) { p.makeOrdered(); }
std::size_t p_hash(const P& p) { return std::hash<P>()(p); }
bool p_eq(const P& p, const P& q) { return p == q; }
bool p_self(const P& p) { return p == p; }
bool p_neq(const P& p, const P& q) { return p != q; }
bool p_less(const P& p, const P& q) { return p < q; }
bool p_greater(const P& p, const P& q) { return p > q; }
}
