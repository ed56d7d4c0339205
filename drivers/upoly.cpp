// Entry points into carl's univariate polynomials over the rationals and integers for extraction (no logic of its own).
#include <carl/core/UnivariatePolynomial.h>
#include <carl/core/polynomialfunctions/Derivative.h>
#include <carl/core/polynomialfunctions/Division.h>
#include <carl/core/polynomialfunctions/Evaluation.h>
#include <carl/core/polynomialfunctions/GCD_univariate.h>
#include <carl/core/polynomialfunctions/Power.h>
#include <carl/core/polynomialfunctions/Remainder.h>
#include <carl/core/polynomialfunctions/Degree.h>
#include <carl/core/polynomialfunctions/SignVariations.h>
#include <carl/core/polynomialfunctions/RootBounds.h>
#include <carl/core/polynomialfunctions/RootCounting.h>
#include <carl/core/polynomialfunctions/SturmSequence.h>
#include <carl/core/polynomialfunctions/Chebyshev.h>
namespace vp {
using V = carl::Variable; using Q = mpq_class; using Z = mpz_class;
using P = carl::UnivariatePolynomial<Q>; using PZ = carl::UnivariatePolynomial<Z>;
P u_new(V v) { return P(v); }
P u_newc(V v, const Q& c, std::size_t d) { return P(v, c, d); }
P u_newv(V v, const std::vector<Q>& c) { return P(v, c); }
P u_newm(V v, std::vector<Q>& c) { return P(v, std::move(c)); }
P u_newl(V v, std::initializer_list<Q> c) { return P(v, c); }
P u_map(V v, const std::map<carl::uint, Q>& c) { return P(v, c); }
P u_copy(const P& a) { return P(a); }
P u_move(P& a) { return P(std::move(a)); }
void u_set(P& a, const P& b) { a = b; }
void u_setm(P& a, P& b) { a = std::move(b); }
bool u_zero(const P& a) { return carl::isZero(a); }
bool u_one(const P& a) { return carl::isOne(a); }
bool u_const(const P& a) { return carl::is_constant(a); }
bool u_lin(const P& a) { return a.isLinearInMainVar(); }
bool u_num(const P& a) { return a.isNumber(); }
P u_mkone(const P& a) { return a.one(); }
Q u_lc(const P& a) { return a.lcoeff(); }
Q u_tc(const P& a) { return a.tcoeff(); }
Q u_cp(const P& a) { return a.constantPart(); }
carl::uint u_deg(const P& a) { return a.degree(); }
std::size_t u_tdeg(const P& a) { return carl::total_degree(a); }
bool u_zroot(const P& a) { return a.zeroIsRoot(); }
void u_trunc(P& a) { a.truncate(); }
void u_strip(P& a) { a.stripLeadingZeroes(); }
P u_negv(const P& a) { return a.negateVariable(); }
P u_rev(const P& a) { return a.reverseCoefficients(); }
P u_norm(const P& a) { return a.normalized(); }
Q u_unit(const P& a) { return a.unitPart(); }
bool u_isnorm(const P& a) { return a.isNormal(); }
P u_neg(const P& a) { return -a; }
void u_iadd(P& a, const P& b) { a += b; }
void u_iaddc(P& a, const Q& b) { a += b; }
void u_isub(P& a, const P& b) { a -= b; }
void u_isubc(P& a, const Q& b) { a -= b; }
void u_imul(P& a, const P& b) { a *= b; }
void u_imulc(P& a, const Q& b) { a *= b; }
void u_imulv(P& a, V v) { a *= v; }
void u_idivc(P& a, const Q& b) { a /= b; }
P u_add(const P& a, const P& b) { return a + b; }
P u_addc(const P& a, const Q& b) { return a + b; }
P u_cadd(const Q& a, const P& b) { return a + b; }
P u_sub(const P& a, const P& b) { return a - b; }
P u_subc(const P& a, const Q& b) { return a - b; }
P u_csub(const Q& a, const P& b) { return a - b; }
P u_mul(const P& a, const P& b) { return a * b; }
P u_mulc(const P& a, const Q& b) { return a * b; }
P u_cmul(const Q& a, const P& b) { return a * b; }
P u_mulv(const P& a, V v) { return a * v; }
P u_vmul(V v, const P& a) { return v * a; }
P u_divc(const P& a, const Q& b) { return a / b; }
bool u_eq(const P& a, const P& b) { return a == b; }
bool u_ne(const P& a, const P& b) { return a != b; }
bool u_eqc(const P& a, const Q& b) { return a == b; }
bool u_ceq(const Q& a, const P& b) { return a == b; }
bool u_lt(const P& a, const P& b) { return a < b; }
bool u_less(const P& a, const P& b) { return a.less(b); }
P u_pow(const P& a, std::size_t e) { return carl::pow(a, e); }
P u_der(const P& a) { return carl::derivative(a); }
P u_dern(const P& a, std::size_t n) { return carl::derivative(a, n); }
P u_derv(const P& a, V v, std::size_t n) { return carl::derivative(a, v, n); }
Q u_eval(const P& a, const Q& x) { return carl::evaluate(a, x); }
bool u_root(const P& a, const Q& x) { return carl::is_root_of(a, x); }
void u_zmod(PZ& a, const Z& m) { a.mod(m); }
// division and gcd
carl::DivisionResult<P> u_div(const P& a, const P& b) { return carl::divide(a, b); }
P u_rem(const P& a, const P& b) { return carl::remainder(a, b); }
P u_remp(const P& a, const P& b, const Q& f) { return carl::remainder(a, b, f); }
P u_prem(const P& a, const P& b) { return carl::pseudo_remainder(a, b); }
P u_sprem(const P& a, const P& b) { return carl::signed_pseudo_remainder(a, b); }
PZ u_zprem(const PZ& a, const PZ& b) { return carl::pseudo_remainder(a, b); }
PZ u_zsprem(const PZ& a, const PZ& b) { return carl::signed_pseudo_remainder(a, b); }
carl::DivisionResult<PZ> u_zdiv(const PZ& a, const PZ& b) { return carl::divide(a, b); }
P u_gcd(const P& a, const P& b) { return carl::gcd(a, b); }
P u_egcd(const P& a, const P& b, P& s, P& t) { return carl::extended_gcd(a, b, s, t); }
Q u_syn(P& a, const Q& z) { return a.syntheticDivision(z); }
// roots
Q u_cauchy(const P& a) { return carl::cauchyBound(a); }
Q u_hirst(const P& a) { return carl::hirstMaceyBound(a); }
Q u_lagr(const P& a) { return carl::lagrangeBound(a); }
Q u_lagrpu(const P& a) { return carl::lagrangePositiveUpperBound(a); }
Q u_lagrpl(const P& a) { return carl::lagrangePositiveLowerBound(a); }
Q u_lagrnu(const P& a) { return carl::lagrangeNegativeUpperBound(a); }
std::vector<P> u_sturm(const P& a) { return carl::sturm_sequence(a); }
std::vector<P> u_sturm2(const P& a, const P& b) { return carl::sturm_sequence(a, b); }
int u_count(const std::vector<P>& s, const carl::Interval<Q>& i) { return carl::count_real_roots(s, i); }
int u_countp(const P& a, const carl::Interval<Q>& i) { return carl::count_real_roots(a, i); }
carl::uint u_sv(const P& a, const carl::Interval<Q>& i) { return carl::sign_variations(a, i); }
P u_shift(const P& a, const Q& b) { return carl::detail_sign_variations::shift(a, b); }
P u_scale(P& a, const Q& b) { return carl::detail_sign_variations::scale(std::move(a), b); }
P u_reverse(P& a) { return carl::detail_sign_variations::reverse(std::move(a)); }
P u_cheb(V v, std::size_t n) { return carl::Chebyshev<Q>(v)(n); }
}
