// Entry points into carl's interval code for extraction (no logic of its own).
#include <carl/numbers/numbers.h>
#include <carl/interval/Interval.h>
#include <carl/interval/set_theory.h>
#include <carl/interval/sampling.h>
#include <carl/interval/power.h>
namespace vp {
using Q = mpq_class;
using I = carl::Interval<mpq_class>;
using B = carl::BoundType;
// construction
I ctor4(const Q& l, B lt, const Q& u, B ut) { return I(l, lt, u, ut); }
I ctor2(const Q& l, const Q& u) { return I(l, u); }
I ctor1(const Q& n) { return I(n); }
I ctorB(const Q& l, const Q& u, B lt, B ut) { return I(I::BoostInterval(l, u), lt, ut); }
I c_unbounded() { return I::unboundedInterval(); }
I c_empty() { return I::emptyInterval(); }
I c_zero() { return I::zeroInterval(); }
I c_default() { return I(); }
// arithmetic
I add(const I& a, const I& b) { return a + b; }
I addn(const I& a, const Q& n) { return a + n; }
I naddi(const I& a, const Q& n) { return n + a; }
void add_assign(I& a, const I& b) { a += b; }
void add_assignn(I& a, const Q& n) { a += n; }
I sub(const I& a, const I& b) { return a - b; }
I subn(const I& a, const Q& n) { return a - n; }
I nsubi(const I& a, const Q& n) { return n - a; }
void sub_assign(I& a, const I& b) { a -= b; }
void sub_assignn(I& a, const Q& n) { a -= n; }
I neg(const I& a) { return -a; }
I mul(const I& a, const I& b) { return a * b; }
I muln(const I& a, const Q& n) { return a * n; }
I nmuli(const I& a, const Q& n) { return n * a; }
void mul_assign(I& a, const I& b) { a *= b; }
void mul_assignn(I& a, const Q& n) { a *= n; }
I divn(const I& a, const Q& n) { return a / n; }
void div_assignn(I& a, const Q& n) { a /= n; }
I div(const I& a, const I& b) { return a.div(b); }
bool div_ext(const I& a, const I& b, I& r1, I& r2) { return a.div_ext(b, r1, r2); }
bool reciprocal(const I& a, I& r1, I& r2) { return a.reciprocal(r1, r2); }
I abs(const I& a) { return a.abs(); }
I pow(const I& a, unsigned e) { return carl::pow(a, e); }
I hull(const I& a, const I& b) { return a.convexHull(b); }
// sets
bool s_compl(const I& a, I& r1, I& r2) { return carl::set_complement(a, r1, r2); }
bool s_diff(const I& a, const I& b, I& r1, I& r2) { return carl::set_difference(a, b, r1, r2); }
I s_inter(const I& a, const I& b) { return carl::set_intersection(a, b); }
bool s_have(const I& a, const I& b) { return carl::set_have_intersection(a, b); }
bool s_psub(const I& a, const I& b) { return carl::set_is_proper_subset(a, b); }
bool s_sub(const I& a, const I& b) { return carl::set_is_subset(a, b); }
bool s_symm(const I& a, const I& b, I& r1, I& r2) { return carl::set_symmetric_difference(a, b, r1, r2); }
bool s_union(const I& a, const I& b, I& r1, I& r2) { return carl::set_union(a, b, r1, r2); }
bool contains(const I& a, const Q& n) { return a.contains(n); }
bool containsI(const I& a, const I& b) { return a.contains(b); }
bool meets(const I& a, const Q& n) { return a.meets(n); }
bool isEmpty(const I& a) { return a.isEmpty(); }
bool isInfinite(const I& a) { return a.isInfinite(); }
bool isUnbounded(const I& a) { return a.isUnbounded(); }
bool isHalfBounded(const I& a) { return a.isHalfBounded(); }
bool isPoint(const I& a) { return a.isPointInterval(); }
bool isZero(const I& a) { return a.isZero() && carl::isZero(a); }
bool isZeroN(const I& a) { return a.isZero() || carl::isZero(a); }
bool isOne(const I& a) { return a.isOne() && carl::isOne(a); }
bool isPositive(const I& a) { return a.isPositive(); }
bool isNegative(const I& a) { return a.isNegative(); }
bool isSemiPositive(const I& a) { return a.isSemiPositive(); }
bool isSemiNegative(const I& a) { return a.isSemiNegative(); }
int sgn(const I& a) { return int(a.sgn()); }
bool eq(const I& a, const I& b) { return a == b; }
bool ne(const I& a, const I& b) { return a != b; }
bool lt(const I& a, const I& b) { return a < b; }
bool gt(const I& a, const I& b) { return a > b; }
bool le(const I& a, const I& b) { return a <= b; }
bool ge(const I& a, const I& b) { return a >= b; }
bool ltn(const I& a, const Q& n) { return a < n; }
bool nlt(const I& a, const Q& n) { return n < a; }
bool gtn(const I& a, const Q& n) { return a > n; }
bool ngt(const I& a, const Q& n) { return n > a; }
bool len(const I& a, const Q& n) { return a <= n; }
bool nle(const I& a, const Q& n) { return n <= a; }
bool gen(const I& a, const Q& n) { return a >= n; }
bool nge(const I& a, const Q& n) { return n >= a; }
bool eqn(const I& a, const Q& n) { return a == n; }
bool neqi(const I& a, const Q& n) { return n == a; }
bool nen(const I& a, const Q& n) { return a != n; }
// sampling, splitting, measures
Q center(const I& a) { return carl::center(a); }
Q sample(const I& a, bool inc) { return carl::sample(a, inc); }
Q sample_sb(const I& a, bool inc) { return carl::sample_stern_brocot(a, inc); }
Q sample_left(const I& a) { return carl::sample_left(a); }
Q sample_right(const I& a) { return carl::sample_right(a); }
Q sample_zero(const I& a) { return carl::sample_zero(a); }
Q sample_infty(const I& a) { return carl::sample_infty(a); }
std::pair<I, I> split(const I& a) { return a.split(); }
std::list<I> splitn(const I& a, unsigned n) { return a.split(n); }
I integralPart(const I& a) { return a.integralPart(); }
bool containsInteger(const I& a) { return a.containsInteger(); }
Q diameter(const I& a) { return a.diameter(); }
Q magnitude(const I& a) { return a.magnitude(); }
Q distance(I& a, const I& b) { return a.distance(b); }
void bloat(I& a, const Q& n) { a.bloat_by(n); }
bool isInteger(const I& a) { return carl::isInteger(a); }
}
