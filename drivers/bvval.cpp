// Entry points into carl's bit-vector constants for extraction (no logic of its own).
#include <carl/formula/bitvector/BVValue.h>
#include <carl/formula/bitvector/BVValue.cpp>
namespace vp {
using B = carl::BVValue; using Z = std::size_t;
B b_new(Z w, uint v) { return B(w, v); }
B b_zero(Z w) { return B(w); }
Z b_width(const B& a) { return a.width(); }
bool b_iszero(const B& a) { return a.isZero(); }
bool b_at(const B& a, Z i) { return a[i]; }
B b_add(const B& a, const B& b) { return a + b; }
B b_mul(const B& a, const B& b) { return a * b; }
B b_neg(const B& a) { return -a; }
B b_sub(const B& a, const B& b) { return a - b; }
B b_not(const B& a) { return ~a; }
B b_and(const B& a, const B& b) { return a & b; }
B b_or(const B& a, const B& b) { return a | b; }
B b_xor(const B& a, const B& b) { return a ^ b; }
B b_concat(const B& a, const B& b) { return a.concat(b); }
B b_extract(const B& a, Z h, Z l) { return a.extract(h, l); }
B b_extu(const B& a, Z n) { return a.extendUnsignedBy(n); }
B b_exts(const B& a, Z n) { return a.extendSignedBy(n); }
B b_repeat(const B& a, Z n) { return a.repeat(n); }
B b_rotl(const B& a, Z n) { return a.rotateLeft(n); }
B b_rotr(const B& a, Z n) { return a.rotateRight(n); }
B b_shl(const B& a, const B& b) { return a << b; }
B b_shr(const B& a, const B& b) { return a >> b; }
B b_sar(const B& a, const B& b) { return a.rightShiftArithmetic(b); }
B b_div(const B& a, const B& b) { return a / b; }
B b_rem(const B& a, const B& b) { return a % b; }
B b_sdiv(const B& a, const B& b) { return a.divideSigned(b); }
B b_srem(const B& a, const B& b) { return a.remSigned(b); }
B b_smod(const B& a, const B& b) { return a.modSigned(b); }
bool b_eq(const B& a, const B& b) { return a == b; }
bool b_lt(const B& a, const B& b) { return a < b; }
}
