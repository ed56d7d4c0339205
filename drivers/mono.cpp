// Entry points into carl's monomials for extraction (no logic of its own).
#include <carl/core/VariablePool.h>
#include <carl/core/Monomial.h>
#include <carl/core/MonomialPool.h>
#include <carl/core/Monomial.cpp>
#include <carl/core/MonomialPool.cpp>
#include <carl/core/MonomialOrdering.h>
#include <carl/core/polynomialfunctions/GCD_Monomial.cpp>
#include <carl/core/polynomialfunctions/SeparablePart.h>
#include <carl/core/polynomialfunctions/Power.h>
#include <carl/core/polynomialfunctions/Derivative.h>
#include <carl/core/polynomialfunctions/Degree.h>
#include <carl/core/Term.h>
#include <gmpxx.h>
namespace vp {
using M = carl::Monomial; using A = carl::Monomial::Arg; using V = carl::Variable; using Q = mpq_class; using T = carl::Term<Q>;
A m_mul(const A& a, const A& b) { return a * b; }
A m_mulv(const A& a, V v) { return a * v; }
A m_vmul(V v, const A& a) { return v * a; }
A m_vv(V v, V w) { return v * w; }
bool m_divv(const M& m, V v, A& r) { return m.divide(v, r); }
bool m_div(const M& m, const A& n, A& r) { return m.divide(n, r); }
bool m_divisible(const M& m, const A& n) { return m.divisible(n); }
A m_sqrt(const M& m) { return m.sqrt(); }
bool m_square(const M& m) { return m.isSquare(); }
A m_lcm(const A& a, const A& b) { return M::lcm(a, b); }
A m_lcmdiv(const A& a, const A& b) { return M::calcLcmAndDivideBy(a, b); }
A m_gcd(const A& a, const A& b) { return carl::gcd(a, b); }
A m_drop(const M& m, V v) { return m.dropVariable(v); }
std::size_t m_exp(const M& m, V v) { return m.exponentOfVariable(v); }
bool m_has(const M& m, V v) { return m.has(v); }
std::size_t m_tdeg(const M& m) { return m.tdeg(); }
bool m_const(const M& m) { return m.isConstant(); }
bool m_lin(const M& m) { return m.isLinear(); }
bool m_alin(const M& m) { return m.isAtMostLinear(); }
std::size_t m_nvars(const M& m) { return m.nrVariables(); }
V m_single(const M& m) { return m.getSingleVariable(); }
bool m_noother(const M& m, V v) { return m.hasNoOtherVariable(v); }
bool m_intval(const M& m) { return m.integerValued(); }
A m_vpow(V v, std::size_t e) { return carl::pow(v, e); }
A m_pow(const A& m, std::size_t e) { return carl::pow(m, e); }
A m_sep(const M& m) { return carl::separable_part(m); }
std::pair<std::size_t, A> m_der(const A& m, V v, std::size_t n) { return carl::derivative(m, v, n); }
bool m_consistent(const M& m) { return m.isConsistent(); }
bool m_islin(const M& m) { return carl::is_linear(m); }
bool m_isconst(const M& m) { return carl::is_constant(m); }
A m_create(M::Content& c, std::size_t d) { return carl::createMonomial(std::move(c), d); }
// orders
carl::CompareResult o_lex(const A& a, const A& b) { return M::compareLexical(a, b); }
carl::CompareResult o_gr(const A& a, const A& b) { return M::compareGradedLexical(a, b); }
carl::CompareResult o_lexv(const A& a, V v) { return M::compareLexical(a, v); }
carl::CompareResult o_grv(const A& a, V v) { return M::compareGradedLexical(a, v); }
bool o_eq(const A& a, const A& b) { return a == b; }
bool o_ne(const A& a, const A& b) { return a != b; }
bool o_lt(const A& a, const A& b) { return a < b; }
bool o_le(const A& a, const A& b) { return a <= b; }
bool o_gt(const A& a, const A& b) { return a > b; }
bool o_ge(const A& a, const A& b) { return a >= b; }
bool o_eqv(const A& a, V v) { return a == v; }
bool o_veq(V v, const A& a) { return v == a; }
bool o_nev(const A& a, V v) { return a != v; }
bool o_vne(V v, const A& a) { return v != a; }
bool o_ltv(const A& a, V v) { return a < v; }
bool o_vlt(V v, const A& a) { return v < a; }
bool o_lev(const A& a, V v) { return a <= v; }
bool o_vle(V v, const A& a) { return v <= a; }
bool o_gtv(const A& a, V v) { return a > v; }
bool o_vgt(V v, const A& a) { return v > a; }
bool o_gev(const A& a, V v) { return a >= v; }
bool o_vge(V v, const A& a) { return v >= a; }
bool o_meq(const M& a, const M& b) { return a == b; }
bool o_sless(const A& a, const A& b) { return std::less<A>()(a, b); }
bool o_seq(const A& a, const A& b) { return std::equal_to<A>()(a, b); }
bool o_grless(const A& a, const A& b) { return carl::GrLexOrdering::less(a, b); }
bool o_grequal(const A& a, const A& b) { return carl::GrLexOrdering::equal(a, b); }
bool o_grlesst(const T& a, const T& b) { return carl::GrLexOrdering::less(a, b); }
bool o_grequalt(const T& a, const T& b) { return carl::GrLexOrdering::equal(a, b); }
bool o_lexless(const A& a, const A& b) { return carl::LexOrdering::less(a, b); }
// terms
bool t_eq(const T& a, const T& b) { return a == b; }
bool t_ne(const T& a, const T& b) { return a != b; }
bool t_lt(const T& a, const T& b) { return a < b; }
bool t_le(const T& a, const T& b) { return a <= b; }
bool t_gt(const T& a, const T& b) { return a > b; }
bool t_ge(const T& a, const T& b) { return a >= b; }
bool t_ltm(const T& a, const A& b) { return a < b; }
bool t_mlt(const A& a, const T& b) { return a < b; }
bool t_ltv(const T& a, V b) { return a < b; }
bool t_vlt(V a, const T& b) { return a < b; }
bool t_ltc(const T& a, const Q& b) { return a < b; }
bool t_clt(const Q& a, const T& b) { return a < b; }
bool t_eqv(const T& a, V b) { return a == b; }
bool t_eqm(const T& a, const A& b) { return b == a; }
bool t_eqc(const T& a, const Q& b) { return a == b; }
bool t_moneq(const T& a, const T& b) { return T::monomialEqual(a, b); }
bool t_monless(const T& a, const T& b) { return T::monomialLess(a, b); }
// term division
bool t_divv(const T& a, V v, T& r) { return a.divide(v, r); }
bool t_divm(const T& a, const A& m, T& r) { return a.divide(m, r); }
bool t_divt(const T& a, const T& b, T& r) { return a.divide(b, r); }
bool t_divisible(const T& a, const T& b) { return a.divisible(b); }
bool t_sqrt(const T& a, T& r) { return a.sqrt(r); }
T t_lcmdiv(const T& a, const A& m) { return a.calcLcmAndDivideBy(m); }
T t_mul(const T& a, const T& b) { return a * b; }
T t_mulv(const T& a, V b) { return a * b; }
T t_mulm(const T& a, const A& b) { return a * b; }
T t_mulc(const T& a, const Q& b) { return a * b; }
T t_pow(const T& a, std::size_t n) { return carl::pow(a, n); }
T t_neg(const T& a) { return -a; }
T t_divc(const T& a, const Q& b) { return a / b; }
T t_der(const T& a, V v, std::size_t n) { return carl::derivative(a, v, n); }
}
