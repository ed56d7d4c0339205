// Entry points into carl's interval evaluation for extraction (no logic of its own).
#include <carl/numbers/numbers.h>
#include <carl/core/MultivariatePolynomial.h>
#include <carl/core/UnivariatePolynomial.h>
#include <carl/interval/Interval.h>
#include <carl/interval/IntervalEvaluation.h>
namespace vp {
using Q = mpq_class;
using I = carl::Interval<Q>;
using P = carl::MultivariatePolynomial<Q>;
using Map = std::map<carl::Variable, I>;
I e_mono(const carl::Monomial& m, const Map& b) { return carl::IntervalEvaluation::evaluate(m, b); }
I e_term(const carl::Term<Q>& t, const Map& b) { return carl::IntervalEvaluation::evaluate(t, b); }
I e_poly(const P& p, const Map& b) { return carl::IntervalEvaluation::evaluate(p, b); }
I e_upoly(const carl::UnivariatePolynomial<Q>& p, const Map& b) { return carl::IntervalEvaluation::evaluate(p, b); }
I e_mupoly(const carl::UnivariatePolynomial<P>& p, const Map& b) { return carl::IntervalEvaluation::evaluate(p, b); }
}
