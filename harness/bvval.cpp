// Run-time oracles for bit-vector constants (bounded stand-in and replay target): strings of bits, lowest first.
// links: carl/formula/bitvector/BVValue.cpp
#include "types.h"
#include <carl/formula/bitvector/BVValue.h>
using carl::BVValue;
struct Bi { std::string b = "0"; };
struct Nat { unsigned long n = 0; };
namespace hh {
template<> struct Arg<Bi> {
	static std::vector<Bi> all() { std::vector<Bi> r; for (int w = 1; w <= 4; ++w) for (int v = 0; v < (1 << w); ++v) { Bi x; x.b = ""; for (int i = 0; i < w; ++i) x.b += (v >> i & 1) ? '1' : '0'; r.push_back(x); } return r; }
	static Bi gen(Rng& r) { Bi x; x.b = ""; std::size_t n = 1 + (r.below(3) ? r.below(9) : r.below(4) ? r.below(70) : r.below(140)); auto p = 1 + r.below(6); bool inv = r.coin(); for (std::size_t i = 0; i < n; ++i) x.b += (r.below(p) == 0) != inv ? '1' : '0'; return x; }
	static std::string str(const Bi& x) { return x.b.empty() ? "-" : x.b; }
	static Bi parse(const std::string& s) { return {s == "-" ? "" : s}; }
};
template<> struct Arg<Nat> {
	static std::vector<Nat> all() { std::vector<Nat> r; for (unsigned long n : {0, 1, 2, 3, 4, 5, 7, 8, 31, 32, 64, 65}) r.push_back({n}); return r; }
	static Nat gen(Rng& r) { return {r.below(r.below(2) ? 12 : 150)}; }
	static std::string str(const Nat& n) { return std::to_string(n.n); }
	static Nat parse(const std::string& s) { return {std::stoul(s)}; }
};
}
static mpz_class p2(std::size_t n) { mpz_class r = 1; r <<= n; return r; }
static mpz_class val(const std::string& b) { mpz_class r = 0; for (std::size_t i = b.size(); i-- > 0;) r = 2 * r + (b[i] == '1' ? 1 : 0); return r; }
static mpz_class sval(const std::string& b) { mpz_class v = val(b); return !b.empty() && b.back() == '1' ? mpz_class(v - p2(b.size())) : v; }
static std::string ofval(mpz_class v, std::size_t w) { mpz_class m = p2(w), r; mpz_fdiv_r(r.get_mpz_t(), v.get_mpz_t(), m.get_mpz_t()); std::string b; for (std::size_t i = 0; i < w; ++i) b += mpz_tstbit(r.get_mpz_t(), i) ? '1' : '0'; return b; }
static BVValue mk(const std::string& b) { BVValue::Base x(b.size()); for (std::size_t i = 0; i < b.size(); ++i) x[i] = b[i] == '1'; return BVValue(std::move(x)); }
static std::string of(const BVValue& v) { std::string b; for (std::size_t i = 0; i < v.width(); ++i) b += v[i] ? '1' : '0'; return b; }
#define SAME(r, w, what) do { std::string h_r = of(r), h_w = (w); H_CHECK(h_r == h_w, what << " gives " << h_r << " instead of " << h_w); } while (0)
// second operand brought to the width of the first
static Bi fit(const Bi& a, Bi b) { b.b.resize(a.b.size(), '0'); return b; }
#define NZW if (a.b.empty()) H_SKIP
#define BIN(id, nm, code, want) H_REG(id, "c16." nm, [](Bi a, Bi b) -> std::string { NZW; b = fit(a, b); std::size_t w = a.b.size(); (void)w; BVValue x = mk(a.b), y = mk(b.b); SAME(code, want, nm); H_CHECK(of(x) == a.b && of(y) == b.b, "operand changed"); return ""; })
BIN(a1, "add", x + y, ofval(val(a.b) + val(b.b), w));
BIN(a2, "mul", x * y, ofval(val(a.b) * val(b.b), w));
BIN(a3, "sub", x - y, ofval(val(a.b) - val(b.b), w));
static std::string zip(const std::string& a, const std::string& b, int op) { std::string r; for (std::size_t i = 0; i < a.size(); ++i) { bool x = a[i] == '1', y = b[i] == '1'; r += (op == 0 ? x && y : op == 1 ? x || y : x != y) ? '1' : '0'; } return r; }
H_REG(a4, "c16.bitwise", [](Bi a, Bi b) -> std::string { b = fit(a, b); BVValue x = mk(a.b), y = mk(b.b); SAME(x & y, zip(a.b, b.b, 0), "&"); SAME(x | y, zip(a.b, b.b, 1), "|"); SAME(x ^ y, zip(a.b, b.b, 2), "^"); return ""; });
H_REG(a5, "c16.not", [](Bi a) -> std::string { std::string w; for (char c : a.b) w += c == '1' ? '0' : '1'; SAME(~mk(a.b), w, "~"); return ""; });
H_REG(a6, "c16.neg", [](Bi a) -> std::string { NZW; SAME(-mk(a.b), ofval(-val(a.b), a.b.size()), "-"); return ""; });
H_REG(a7, "c16.cmp", [](Bi a, Bi b, bool f) -> std::string { if (f) b = fit(a, b); BVValue x = mk(a.b), y = mk(b.b); H_CHECK((x == y) == (a.b == b.b), "equality"); if (a.b.size() == b.b.size()) H_CHECK((x < y) == (val(a.b) < val(b.b)), "unsigned order"); return ""; });
H_REG(a8, "c16.zero", [](Bi a) -> std::string { BVValue x = mk(a.b); H_CHECK(x.isZero() == (a.b.find('1') == std::string::npos), "isZero"); H_CHECK(x.width() == a.b.size(), "width"); return ""; });
H_REG(a9, "c16.new", [](Nat w, Nat v) -> std::string { if (w.n > 100000) H_SKIP; SAME(BVValue(w.n, carl::uint(v.n)), ofval(mpz_class(v.n), w.n), "construction"); return ""; });
H_REG(b0, "c16.new0", [](Nat w) -> std::string { if (w.n > 100000) H_SKIP; SAME(BVValue(w.n), std::string(w.n, '0'), "construction"); return ""; });
H_REG(b1, "c16.newz", [](Nat w, Bi v) -> std::string { mpz_class z = sval(v.b); SAME(BVValue(w.n, z), ofval(z, w.n), "construction from " << z); return ""; });
H_REG(b2, "c16.concat", [](Bi a, Bi b) -> std::string { SAME(mk(a.b).concat(mk(b.b)), b.b + a.b, "concat"); return ""; });
H_REG(b3, "c16.extract", [](Bi a, Nat h, Nat l) -> std::string { if (!a.b.empty() && h.n >= a.b.size()) { h.n %= a.b.size(); l.n %= h.n + 1; } if (h.n >= a.b.size() || l.n > h.n) H_SKIP; SAME(mk(a.b).extract(h.n, l.n), a.b.substr(l.n, h.n - l.n + 1), "extract"); return ""; });
H_REG(b4, "c16.extu", [](Bi a, Nat n) -> std::string { NZW; if (n.n > 5000) H_SKIP; SAME(mk(a.b).extendUnsignedBy(n.n), a.b + std::string(n.n, '0'), "zero extension"); return ""; });
H_REG(b5, "c16.exts", [](Bi a, Nat n) -> std::string { NZW; if (n.n > 5000) H_SKIP; SAME(mk(a.b).extendSignedBy(n.n), a.b + std::string(n.n, a.b.back()), "sign extension"); return ""; });
H_REG(b6, "c16.repeat", [](Bi a, Nat n) -> std::string { NZW; if (n.n == 0 || n.n > 500) H_SKIP; std::string w; for (unsigned long i = 0; i < n.n; ++i) w += a.b; SAME(mk(a.b).repeat(n.n), w, "repeat"); return ""; });
static std::string rot(const std::string& a, std::size_t n) { std::size_t w = a.size(); std::string r(w, '0'); for (std::size_t i = 0; i < w; ++i) r[(i + n) % w] = a[i]; return r; }
H_REG(b7, "c16.rotl", [](Bi a, Nat n) -> std::string { NZW; SAME(mk(a.b).rotateLeft(n.n), rot(a.b, n.n), "rotate left by " << n.n); return ""; });
H_REG(b8, "c16.rotr", [](Bi a, Nat n) -> std::string { NZW; SAME(mk(a.b).rotateRight(n.n), rot(a.b, a.b.size() - n.n % a.b.size()), "rotate right by " << n.n); return ""; });
static std::string shf(const std::string& a, const mpz_class& s, bool left, char fill) { std::string r; for (std::size_t g = 0; g < a.size(); ++g) { mpz_class i = left ? mpz_class(mpz_class((unsigned long)g) - s) : mpz_class(mpz_class((unsigned long)g) + s); r += i < 0 || i >= (unsigned long)a.size() ? fill : a[i.get_ui()]; } return r; }
#define SH(id, nm, code, want) H_REG(id, "c16." nm, [](Bi a, Bi b, bool small) -> std::string { NZW; if (small) for (std::size_t i = 0; i < b.b.size(); ++i) if ((std::size_t(1) << std::min<std::size_t>(i, 20)) > a.b.size()) b.b[i] = '0'; BVValue x = mk(a.b), y = mk(b.b); SAME(code, want, nm << " by " << val(b.b)); return ""; })
SH(c1, "shl", x << y, shf(a.b, val(b.b), true, '0'));
SH(c2, "shr", x >> y, shf(a.b, val(b.b), false, '0'));
SH(c3, "sar", x.rightShiftArithmetic(y), shf(a.b, val(b.b), false, a.b.back()));
#define DIV(id, nm, code, want) H_REG(id, "c16." nm, [](Bi a, Bi b) -> std::string { NZW; b = fit(a, b); std::size_t w = a.b.size(); if (val(b.b) == 0) H_SKIP; BVValue x = mk(a.b), y = mk(b.b); mpz_class s = sval(a.b), t = sval(b.b), u = val(a.b), v = val(b.b), q, r; SAME(code, (want, ofval(r, w)), nm); return ""; })
DIV(d1, "div", x / y, r = u / v);
DIV(d2, "rem", x % y, r = u % v);
DIV(d3, "sdiv", x.divideSigned(y), mpz_tdiv_q(r.get_mpz_t(), s.get_mpz_t(), t.get_mpz_t()));
DIV(d4, "srem", x.remSigned(y), mpz_tdiv_r(r.get_mpz_t(), s.get_mpz_t(), t.get_mpz_t()));
DIV(d5, "smod", x.modSigned(y), mpz_fdiv_r(r.get_mpz_t(), s.get_mpz_t(), t.get_mpz_t()));
H_MAIN
