// Entry points into carl's multivariate polynomials for extraction (no logic of its own).
#include <carl/numbers/numbers.h>
#include <carl/core/VariablePool.h>
#include <carl/core/MultivariatePolynomial.h>
#include <carl/core/UnivariatePolynomial.h>
#include <carl/core/polynomialfunctions/Power.h>
#include <carl/core/polynomialfunctions/Derivative.h>
#include <carl/core/polynomialfunctions/Degree.h>
#include <carl/core/polynomialfunctions/Evaluation.h>
#include <carl/core/polynomialfunctions/to_univariate_polynomial.h>
#include <carl/core/polynomialfunctions/Substitution.h>
#include <gmpxx.h>
namespace vp {
using A = carl::Monomial::Arg; using V = carl::Variable; using Q = mpq_class; using T = carl::Term<Q>; using P = carl::MultivariatePolynomial<Q>; using TS = P::TermsType; using U = carl::UnivariatePolynomial<Q>; using UP = carl::UnivariatePolynomial<P>;
using TAM = carl::TermAdditionManager<P, carl::GrLexOrdering>;
P p_new() { return P(); }
P p_copy(const P& p) { return P(p); }
P p_c(const Q& c) { return P(c); }
P p_v(V v) { return P(v); }
P p_m(const A& m) { return P(m); }
P p_t(const T& t) { return P(t); }
P p_ts(const TS& t, bool d, bool o) { return P(t, d, o); }
P p_tsm(TS& t, bool d, bool o) { return P(std::move(t), d, o); }
void p_adda(P& p, const P& q) { p += q; }
void p_addat(P& p, const T& t) { p += t; }
void p_addam(P& p, const A& m) { p += m; }
void p_addav(P& p, V v) { p += v; }
void p_addac(P& p, const Q& c) { p += c; }
void p_suba(P& p, const P& q) { p -= q; }
void p_subat(P& p, const T& t) { p -= t; }
void p_subam(P& p, const A& m) { p -= m; }
void p_subav(P& p, V v) { p -= v; }
void p_subac(P& p, const Q& c) { p -= c; }
void p_mula(P& p, const P& q) { p *= q; }
void p_mulat(P& p, const T& t) { p *= t; }
void p_mulam(P& p, const A& m) { p *= m; }
void p_mulav(P& p, V v) { p *= v; }
void p_mulac(P& p, const Q& c) { p *= c; }
void p_divac(P& p, const Q& c) { p /= c; }
P p_neg(const P& p) { return -p; }
P p_add(const P& p, const P& q) { return p + q; }
P p_addt(const P& p, const T& q) { return p + q; }
P p_addm(const P& p, const A& q) { return p + q; }
P p_addv(const P& p, V q) { return p + q; }
P p_addc(const P& p, const Q& q) { return p + q; }
P p_tadd(const T& q, const P& p) { return q + p; }
P p_madd(const A& q, const P& p) { return q + p; }
P p_vadd(V q, const P& p) { return q + p; }
P p_cadd(const Q& q, const P& p) { return q + p; }
P p_sub(const P& p, const P& q) { return p - q; }
P p_subt(const P& p, const T& q) { return p - q; }
P p_subm(const P& p, const A& q) { return p - q; }
P p_subv(const P& p, V q) { return p - q; }
P p_subc(const P& p, const Q& q) { return p - q; }
P p_tsub(const T& q, const P& p) { return q - p; }
P p_msub(const A& q, const P& p) { return q - p; }
P p_vsub(V q, const P& p) { return q - p; }
P p_csub(const Q& q, const P& p) { return q - p; }
P p_mul(const P& p, const P& q) { return p * q; }
P p_mult(const P& p, const T& q) { return p * q; }
P p_mulm(const P& p, const A& q) { return p * q; }
P p_mulv(const P& p, V q) { return p * q; }
P p_mulc(const P& p, const Q& q) { return p * q; }
P p_tmul(const T& q, const P& p) { return q * p; }
P p_mmul(const A& q, const P& p) { return q * p; }
P p_vmul(V q, const P& p) { return q * p; }
P p_cmul(const Q& q, const P& p) { return q * p; }
P p_divc(const P& p, const Q& q) { return p / q; }
P p_divn(const P& p, unsigned long q) { return p / q; }
P t_addt(const T& s, const T& t) { return s + t; }
P t_addm(const T& s, const A& t) { return s + t; }
P t_addv(const T& s, V t) { return s + t; }
P t_addc(const T& s, const Q& t) { return s + t; }
P t_subt(const T& s, const T& t) { return s - t; }
P t_subm(const T& s, const A& t) { return s - t; }
P t_subv(const T& s, V t) { return s - t; }
P t_subc(const T& s, const Q& t) { return s - t; }
P m_addt(const A& s, const T& t) { return s + t; }
P m_addc(const A& s, const Q& t) { return s + t; }
P m_subc(const A& s, const Q& t) { return s - t; }
P v_addt(V s, const T& t) { return s + t; }
P v_addc(V s, const Q& t) { return s + t; }
P v_subc(V s, const Q& t) { return s - t; }
P c_addt(const Q& s, const T& t) { return s + t; }
P c_addm(const Q& s, const A& t) { return s + t; }
P c_addv(const Q& s, V t) { return s + t; }
P c_subm(const Q& s, const A& t) { return s - t; }
P c_subv(const Q& s, V t) { return s - t; }
void p_subprod(P& p, const T& t, const P& q) { p.subtractProduct(t, q); }
void p_addterm(P& p, const T& t) { p.addTerm(t); }
void p_min(P& p) { p.makeMinimallyOrdered<false, true>(); }
void p_minc(P& p) { p.makeMinimallyOrdered<true, true>(); }
P p_tail(const P& p, bool f) { return p.tail(f); }
void p_strip(P& p) { p.stripLT(); }
P p_norm(const P& p) { return p.normalize(); }
P p_pow(const P& p, std::size_t n) { return carl::pow(p, n); }
P p_pown(const P& p, std::size_t n) { return carl::pow_naive(p, n); }
bool p_eq(const P& p, const P& q) { return p == q; }
bool p_eqt(const P& p, const T& q) { return p == q; }
bool p_eqm(const P& p, const A& q) { return p == q; }
bool p_eqc(const P& p, const Q& q) { return p == q; }
TAM::TAMId tam_get(TAM& t, std::size_t n) { return t.getId(n); }
void tam_add00(TAM& m, TAM::TAMId i, const T& t) { m.addTerm<false, false>(i, t); }
void tam_add01(TAM& m, TAM::TAMId i, const T& t) { m.addTerm<false, true>(i, t); }
void tam_add11(TAM& m, TAM::TAMId i, const T& t) { m.addTerm<true, true>(i, t); }
void tam_read(TAM& m, TAM::TAMId i, TS& t) { m.readTerms(i, t); }
void tam_drop(TAM& m, TAM::TAMId i) { m.dropTerms(i); }
// queries
std::size_t q_deg(const P& p, V v) { return p.degree(v); }
std::size_t q_tdeg(const P& p) { return p.totalDegree(); }
std::size_t q_tdegf(const P& p) { return carl::total_degree(p); }
P q_coeff(const P& p, V v, std::size_t e) { return p.coeff(v, e); }
P q_lcoeff(const P& p, V v) { return p.lcoeff(v); }
bool q_thas(const T& t, V v) { return t.has(v); }
bool q_has(const P& p, V v) { return p.has(v); }
Q q_const(const P& p) { return p.constantPart(); }
bool q_hasc(const P& p) { return p.hasConstantTerm(); }
bool q_isconst(const P& p) { return p.isConstant(); }
bool q_isconstf(const P& p) { return carl::is_constant(p); }
bool q_zero(const P& p) { return carl::isZero(p); }
bool q_one(const P& p) { return carl::isOne(p); }
bool q_onef(const P& p) { return carl::is_one(p); }
bool q_lin(const P& p) { return p.isLinear(); }
bool q_linf(const P& p) { return carl::is_linear(p); }
bool q_uni(const P& p) { return p.isUnivariate(); }
bool q_var(const P& p) { return p.isVariable(); }
Q q_eval(const P& p, const std::map<V, Q>& m) { return carl::evaluate(p, m); }
Q q_evalt(const T& p, const std::map<V, Q>& m) { return carl::evaluate(p, m); }
Q q_evalm(const carl::Monomial& p, const std::map<V, Q>& m) { return carl::evaluate(p, m); }
T q_substt(const T& p, const std::map<V, Q>& m) { return carl::substitute(p, m); }
P q_substq(const P& p, const std::map<V, Q>& m) { return carl::substitute(p, m); }
void q_subst(P& p, V v, const P& q) { carl::substitute_inplace(p, v, q); }
P q_substf(const P& p, V v, const P& q) { return carl::substitute(p, v, q); }
P q_substterm(const P& p, const std::map<V, T>& m) { return carl::substitute(p, m); }
T q_dert(const T& t, V v, std::size_t n) { return carl::derivative(t, v, n); }
P q_der(const P& p, V v, std::size_t n) { return carl::derivative(p, v, n); }
U q_touni(const P& p) { return carl::to_univariate_polynomial(p); }
UP q_tounip(const P& p, V v) { return carl::to_univariate_polynomial(p, v); }
P q_fromu(const U& u) { return P(u); }
P q_fromup(const UP& u) { return P(u); }
}
