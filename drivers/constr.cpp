// Entry points into carl's constraint normalisation for extraction (no logic of its own).
#include <carl/numbers/numbers.h>
#include <carl/core/MultivariatePolynomial.h>
#include <carl/core/SimpleConstraint.h>
#include <carl/core/polynomialfunctions/Definiteness.h>
#include <carl/core/polynomialfunctions/SoSDecomposition.h>
#define private public
#include <carl/formula/Constraint.h>
#undef private
namespace vp {
using Q = mpq_class;
using P = carl::MultivariatePolynomial<Q>;
using RC = carl::RawConstraint<P>;
using carl::Relation;
RC r_trivial(bool b) { return RC(b); }
RC r_bound(carl::Variable v, Relation r, const Q& b) { return RC(v, r, b); }
RC r_create(const P& p, Relation r) { return RC(p, r); }
void r_set_bound(RC& c, carl::Variable v, Relation r, const Q& b) { c.set_bound(v, r, b); }
void r_set_constraint(RC& c, const P& p, Relation r) { c.set_constraint(p, r); }
void r_initialize(RC& c) { c.initialize(); }
unsigned r_consistent(const RC& c) { return c.is_consistent(); }
void r_simplify(RC& c) { c.simplify(); }
bool r_monomial(RC& c) { return c.simplify_nonlinear_univariate_monomial(); }
bool r_integer(RC& c) { return c.simplify_integer(); }
carl::Definiteness d_term(const carl::Term<Q>& t) { return carl::definiteness(t); }
carl::Definiteness d_poly(const P& p, bool full) { return carl::definiteness(p, full); }
bool d_sos(const P& p) { return !carl::sos_decomposition(p, true).empty(); }
bool d_sos0(const P& p) { return !carl::sos_decomposition(p).empty(); }
bool s_true(const carl::SimpleConstraint<P>& c) { return c.isTrivialTrue(); }
bool s_false(const carl::SimpleConstraint<P>& c) { return c.isTrivialFalse(); }
Relation l_inverse(Relation r) { return carl::inverse(r); }
Relation l_turn(Relation r) { return carl::turn_around(r); }
bool l_eval(const Q& q, Relation r) { return carl::evaluate(q, r); }
bool l_eval2(const Q& a, Relation r, const Q& b) { return carl::evaluate(a, r, b); }
bool l_strict(Relation r) { return carl::isStrict(r); }
bool l_weak(Relation r) { return carl::isWeak(r); }
carl::Constraint<P> c_negation(const carl::Constraint<P>& c) { return c.negation(); }
}
