// Entry points into carl's square root expressions for extraction (no logic of its own).
#include <carl/numbers/numbers.h>
#include <carl/core/MultivariatePolynomial.h>
#define private public
#include <carl/vs/SqrtEx.h>
#undef private
namespace vp {
using Q = mpq_class;
using P = carl::MultivariatePolynomial<Q>;
using S = carl::SqrtEx<P>;
S x_create(P&& q, P&& r, P&& d, P&& t) { return S(std::move(q), std::move(r), std::move(d), std::move(t)); }
S x_create_copy(const P& q, const P& r, const P& d, const P& t) { return S(q, r, d, t); }
S x_poly(P&& q) { return S(std::move(q)); }
S x_zero() { return S(); }
void x_normalize(S& s) { s.normalize(); }
S x_add(const S& a, const S& b) { return a + b; }
S x_sub(const S& a, const S& b) { return a - b; }
S x_mul(const S& a, const S& b) { return a * b; }
S x_div(const S& a, const S& b) { return a / b; }
bool x_eq(const S& a, const S& b) { return a == b; }
void x_assign(S& a, const S& b) { a = b; }
void x_assign_poly(S& a, const P& b) { a = b; }
bool x_is_poly(const S& a) { return a.isPolynomial(); }
P x_as_poly(const S& a) { return a.asPolynomial(); }
bool x_is_rational(const S& a) { return a.isRational(); }
Q x_as_rational(const S& a) { return a.asRational(); }
bool x_is_integer(const S& a) { return a.isInteger(); }
bool x_evaluate(const S& a, Q& r, const std::map<carl::Variable, Q>& m, int rounding) { return a.evaluate(r, m, rounding); }
S x_substitute(const S& a, const std::map<carl::Variable, Q>& m) { return a.substitute(m); }
S x_sub_by(const P& p, const carl::Variable& v, const S& a) { return S::subBySqrtEx(p, v, a); }
}
