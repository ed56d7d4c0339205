// Entry points into carl's number code for extraction (no logic of its own).
#include <carl/numbers/numbers.h>
#include <carl/core/Relation.h>
#include <carl/core/Sign.h>
#include <carl/numbers/GFNumber.h>
#include <carl/numbers/GaloisField.h>
#include <carl/numbers/PrimeFactory.h>
#include <carl/numbers/adaption_gmpxx/operations.cpp>
#include <vector>
namespace vp {
using Q = mpq_class; using Z = mpz_class; using carl::Sign; using carl::Relation;
using GF = carl::GFNumber<mpz_class>; using Field = carl::GaloisField<mpz_class>;
// signs, relations
Relation rel_inverse(Relation r) { return carl::inverse(r); }
Relation rel_turn(Relation r) { return carl::turn_around(r); }
bool rel_strict(Relation r) { return carl::isStrict(r); }
bool rel_weak(Relation r) { return carl::isWeak(r); }
bool rel_eval_sign(Sign s, Relation r) { return carl::evaluate(s, r); }
bool rel_eval_num(const Q& n, Relation r) { return carl::evaluate(n, r); }
bool rel_eval_cmp(const Q& a, Relation r, const Q& b) { return carl::evaluate(a, r, b); }
bool rel_eval_cmpz(const Z& a, Relation r, const Z& b) { return carl::evaluate(a, r, b); }
Sign sgn_q(const Q& n) { return carl::sgn(n); }
Sign sgn_z(const Z& n) { return carl::sgn(n); }
std::size_t sv(const std::vector<Sign>& v) { return carl::sign_variations(v.begin(), v.end()); }
std::size_t sv_f(const std::vector<Q>& v) { return carl::sign_variations(v.begin(), v.end(), [](const Q& q) { return carl::sgn(q); }); }
// integer and rational operations
Z op_round(const Q& n) { return carl::round(n); }
Z op_floor(const Q& n) { return carl::floor(n); }
Z op_ceil(const Q& n) { return carl::ceil(n); }
Z op_roundz(const Z& n) { return carl::round(n); }
Z op_floorz(const Z& n) { return carl::floor(n); }
Z op_ceilz(const Z& n) { return carl::ceil(n); }
Z op_absz(const Z& n) { return carl::abs(n); }
Q op_absq(const Q& n) { return carl::abs(n); }
Z op_num(const Q& n) { return carl::getNum(n); }
Z op_den(const Q& n) { return carl::getDenom(n); }
Z op_numz(const Z& n) { return carl::getNum(n); }
Z op_denz(const Z& n) { return carl::getDenom(n); }
bool op_isint(const Q& n) { return carl::isInteger(n); }
bool op_isintz(const Z& n) { return carl::isInteger(n); }
bool op_iszero(const Q& n) { return carl::isZero(n); }
bool op_iszeroz(const Z& n) { return carl::isZero(n); }
bool op_is_zero(const Q& n) { return carl::is_zero(n); }
bool op_is_zeroz(const Z& n) { return carl::is_zero(n); }
bool op_isone(const Q& n) { return carl::isOne(n); }
bool op_isonez(const Z& n) { return carl::isOne(n); }
bool op_is_one(const Q& n) { return carl::is_one(n); }
bool op_is_onez(const Z& n) { return carl::is_one(n); }
bool op_ispos(const Q& n) { return carl::isPositive(n); }
bool op_isposz(const Z& n) { return carl::isPositive(n); }
bool op_isneg(const Q& n) { return carl::isNegative(n); }
bool op_isnegz(const Z& n) { return carl::isNegative(n); }
Z op_mod(const Z& n, const Z& m) { return carl::mod(n, m); }
Z op_rem(const Z& n, const Z& m) { return carl::remainder(n, m); }
Z op_quot(const Z& n, const Z& m) { return carl::quotient(n, m); }
Z op_slash(const Z& n, const Z& m) { return carl::operator/(n, m); }
Q op_slashq(const Q& n, const Q& m) { return carl::operator/(n, m); }
Q op_timesq(const Q& n, const Q& m) { return carl::operator*(n, m); }
Q op_quotq(const Q& n, const Q& m) { return carl::quotient(n, m); }
Q op_divq(const Q& n, const Q& m) { return carl::div(n, m); }
Z op_divz(const Z& n, const Z& m) { return carl::div(n, m); }
void op_div_assignz(Z& n, const Z& m) { carl::div_assign(n, m); }
void op_div_assignq(Q& n, const Q& m) { carl::div_assign(n, m); }
void op_divide(const Z& n, const Z& m, Z& q, Z& r) { carl::divide(n, m, q, r); }
Q op_recip(const Q& n) { return carl::reciprocal(n); }
Z op_gcd(const Z& a, const Z& b) { return carl::gcd(a, b); }
Z op_lcm(const Z& a, const Z& b) { return carl::lcm(a, b); }
Q op_gcdq(const Q& a, const Q& b) { return carl::gcd(a, b); }
Q op_lcmq(const Q& a, const Q& b) { return carl::lcm(a, b); }
void op_gcd_assign(Z& a, const Z& b) { carl::gcd_assign(a, b); }
void op_gcd_assignq(Q& a, const Q& b) { carl::gcd_assign(a, b); }
Z op_powz(const Z& a, std::size_t e) { return carl::pow(a, e); }
Q op_powq(const Q& a, std::size_t e) { return carl::pow(a, e); }
carl::uint op_powu(carl::uint a, std::size_t e) { return carl::pow(a, e); }
void op_pow_assign(Z& a, std::size_t e) { carl::pow_assign(a, e); }
void op_pow_assignq(Q& a, std::size_t e) { carl::pow_assign(a, e); }
bool op_sqrt_exact(const Q& a, Q& b) { return carl::sqrt_exact(a, b); }
Q op_sqrt(const Q& a) { return carl::sqrt(a); }
std::pair<Q, Q> op_sqrt_safe(const Q& a) { return carl::sqrt_safe(a); }
std::pair<Q, Q> op_sqrt_fast(const Q& a) { return carl::sqrt_fast(a); }
std::pair<Q, Q> op_root_safe(const Q& a, carl::uint n) { return carl::root_safe(a, n); }
carl::sint op_toint(const Z& n) { return carl::toInt<carl::sint>(n); }
carl::uint op_touint(const Z& n) { return carl::toInt<carl::uint>(n); }
Z op_qtoint(const Q& n) { return carl::toInt<Z>(n); }
carl::sint op_qtosint(const Q& n) { return carl::toInt<carl::sint>(n); }
Z op_fromint(carl::sint n) { return carl::fromInt<Z>(n); }
Z op_fromuint(carl::uint n) { return carl::fromInt<Z>(n); }
Q op_qfromint(carl::sint n) { return carl::fromInt<Q>(n); }
Q op_rationalize(int n) { return carl::rationalize<Q>(n); }
Q op_rationalizes(carl::sint n) { return carl::rationalize<Q>(n); }
Q op_rationalizeu(carl::uint n) { return carl::rationalize<Q>(n); }
// finite fields
Field gf_field(unsigned p, unsigned k) { return Field(p, k); }
Z gf_symmod(const Field& f, const Z& n) { return f.symmetricModulo(n); }
Z gf_mod(const Field& f, const Z& n) { return f.modulo(n); }
bool gf_feq(const Field& f, const Field& g) { return f == g; }
GF gf_mk(const Z& n, const Field* f) { return GF(n, f); }
GF gf_toGF(const GF& a, const Field* f) { return a.toGF(f); }
GF gf_ctor2(const GF& a, const Field* f) { return GF(a, f); }
void gf_norm(GF& a) { a.normalize(); }
bool gf_iszero(const GF& a) { return a.isZero(); }
bool gf_isone(const GF& a) { return a.isOne() && carl::isOne(a) && a.isUnit(); }
GF gf_add(const GF& a, const GF& b) { return a + b; }
GF gf_addz(const GF& a, const Z& b) { return a + b; }
GF gf_zadd(const Z& a, const GF& b) { return a + b; }
GF gf_sub(const GF& a, const GF& b) { return a - b; }
GF gf_subz(const GF& a, const Z& b) { return a - b; }
GF gf_zsub(const Z& a, const GF& b) { return a - b; }
GF gf_mul(const GF& a, const GF& b) { return a * b; }
GF gf_mulz(const GF& a, const Z& b) { return a * b; }
GF gf_zmul(const Z& a, const GF& b) { return a * b; }
GF gf_neg(const GF& a) { return -a; }
GF gf_div(const GF& a, const GF& b) { return a / b; }
GF gf_quot(const GF& a, const GF& b) { return carl::quotient(a, b); }
GF gf_inv(const GF& a) { return a.inverse(); }
void gf_inc(GF& a) { ++a; }
void gf_dec(GF& a) { --a; }
void gf_add_assign(GF& a, const GF& b) { a += b; }
void gf_add_assignz(GF& a, const Z& b) { a += b; }
void gf_sub_assign(GF& a, const GF& b) { a -= b; }
void gf_sub_assignz(GF& a, const Z& b) { a -= b; }
void gf_mul_assign(GF& a, const GF& b) { a *= b; }
void gf_mul_assignz(GF& a, const Z& b) { a *= b; }
void gf_div_assign(GF& a, const GF& b) { a /= b; }
bool gf_eq(const GF& a, const GF& b) { return a == b; }
bool gf_ne(const GF& a, const GF& b) { return a != b; }
bool gf_eqz(const GF& a, const Z& b) { return a == b; }
bool gf_zeq(const GF& a, const Z& b) { return b == a; }
bool gf_nez(const GF& a, const Z& b) { return a != b; }
bool gf_eqi(const GF& a, int b) { return a == b; }
bool gf_ieq(const GF& a, int b) { return b == a; }
void eea_rec(const Z& a, const Z& b, Z& s, Z& t) { carl::EEA<Z>::calculate_recursive(a, b, s, t); }
std::pair<Z, Z> eea(const Z& a, const Z& b) { return carl::EEA<Z>::calculate(a, b); }
// primes
carl::uint pf_next(const carl::uint& n, const carl::PrimeFactory<carl::uint>& pf) { return carl::detail::next_prime(n, pf); }
const carl::uint& pf_nextPrime(carl::PrimeFactory<carl::uint>& pf) { return pf.nextPrime(); }
carl::uint pf_at(carl::PrimeFactory<carl::uint>& pf, std::size_t i) { return pf[i]; }
carl::uint pf_cat(const carl::PrimeFactory<carl::uint>& pf, std::size_t i) { return pf[i]; }
const Z& pfz_nextPrime(carl::PrimeFactory<Z>& pf) { return pf.nextPrime(); }
Z pfz_at(carl::PrimeFactory<Z>& pf, std::size_t i) { return pf[i]; }
}
