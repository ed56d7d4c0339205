// Entry points into carl's content, primitive part and coprime scaling for extraction (no logic of its own).
#include <carl/core/MultivariatePolynomial.h>
#include <carl/core/UnivariatePolynomial.h>
#include <carl/core/polynomialfunctions/Content.h>
#include <carl/core/polynomialfunctions/PrimitivePart.h>
namespace vp {
using Q = mpq_class; using Z = mpz_class;
using P = carl::UnivariatePolynomial<Q>; using PZ = carl::UnivariatePolynomial<Z>; using M = carl::MultivariatePolynomial<Q>;
Q u_cf(const P& a) { return a.coprimeFactor(); }
PZ u_cc(const P& a) { return a.coprimeCoefficients(); }
PZ u_ccs(const P& a) { return a.coprimeCoefficientsSignPreserving(); }
Z u_den(const P& a) { return a.mainDenom(); }
Q u_num(const P& a) { return a.numericContent(); }
Z u_cont(const PZ& a) { return carl::content(a); }
PZ u_pp(const PZ& a) { return carl::primitive_part(a); }
Q u_syn(P& a, const Q& r) { return a.syntheticDivision(r); }
carl::uint u_deg(const P& a) { return a.degree(); }
carl::uint z_deg(const PZ& a) { return a.degree(); }
Q m_cf(const M& a) { return a.coprimeFactor(); }
Q m_cfw(const M& a) { return a.coprimeFactorWithoutConstant(); }
M m_cc(const M& a) { return a.coprimeCoefficients(); }
M m_ccs(const M& a) { return a.coprimeCoefficientsSignPreserving(); }
M m_norm(const M& a) { return a.normalize(); }
}
