// Run-time oracles for bit sets, packed bit vectors, identifier pools (bounded stand-in and replay target).
// links: carl/util/BitVector.cpp
#include "types.h"
#include <carl/util/Bitset.h>
#include <carl/util/BitVector.h>
#include <carl/util/IDPool.h>
#include <carl/util/IDGenerator.h>
struct Bs { std::string b; bool d = false; };
struct Bw { std::vector<unsigned> w; };
struct Hist { std::vector<int> v; };
struct Nat { unsigned long n = 0; };
namespace hh {
template<> struct Arg<Nat> {
	static std::vector<Nat> all() { std::vector<Nat> r; for (unsigned long n : {0, 1, 2, 3, 5, 31, 32, 63, 64, 65, 128}) r.push_back({n}); return r; }
	static Nat gen(Rng& r) { return {r.below(r.below(2) ? 12 : 200)}; }
	static std::string str(const Nat& n) { return std::to_string(n.n); }
	static Nat parse(const std::string& s) { return {std::stoul(s)}; }
};
template<> struct Arg<Bs> {
	static std::vector<Bs> all() { std::vector<Bs> r; for (int d = 0; d < 2; ++d) for (const char* b : {"", "0", "1", "00", "01", "10", "11", "010", "101", "0000", "1111"}) r.push_back({b, d != 0}); return r; }
	static Bs gen(Rng& r) { Bs x; x.d = r.coin(); std::size_t n = r.below(2) ? r.below(8) : r.below(150); auto p = 1 + r.below(8); for (std::size_t i = 0; i < n; ++i) x.b += r.below(p) == 0 ? '1' : '0'; return x; }
	static std::string str(const Bs& x) { return x.b + "|" + (x.d ? "1" : "0"); }
	static Bs parse(const std::string& s) { auto i = s.find('|'); return {s.substr(0, i), s[i + 1] == '1'}; }
};
template<> struct Arg<Bw> {
	static std::vector<Bw> all() { return {{{}}, {{0u}}, {{1u}}, {{0x80000000u}}, {{0u, 1u}}, {{1u, 0u}}, {{0u, 0u, 0u}}, {{0xffffffffu, 0x7fffffffu}}}; }
	static Bw gen(Rng& r) { Bw x; for (auto n = r.below(5); n > 0; --n) { unsigned w = 0; switch (r.below(5)) { case 0: break; case 1: w = 1u << r.below(32); break; case 2: w = ~(1u << r.below(32)); break; default: w = (unsigned)r.next(); } x.w.push_back(w); } return x; }
	static std::string str(const Bw& x) { std::string o; for (auto w : x.w) o += (o.empty() ? "" : ",") + std::to_string(w); return o.empty() ? "-" : o; }
	static Bw parse(const std::string& s) { Bw x; if (s == "-") return x; std::stringstream ss(s); std::string t; while (std::getline(ss, t, ',')) x.w.push_back((unsigned)std::stoul(t)); return x; }
};
// history of operations, one number per operation
template<> struct Arg<Hist> {
	static std::vector<Hist> all() { std::vector<Hist> r; r.push_back({}); for (int n = 1; n <= 6; ++n) { int m = 1; for (int i = 0; i < n; ++i) m *= 4; for (int k = 0; k < m; ++k) { Hist h; int x = k; for (int i = 0; i < n; ++i) { h.v.push_back(x % 4); x /= 4; } r.push_back(h); } } return r; }
	static Hist gen(Rng& r) { Hist h; bool lng = r.below(5) == 0; int style = (int)r.below(3); for (auto n = r.below(lng ? 300 : 40); n > 0; --n) h.v.push_back(style == 0 ? (r.below(3) ? 0 : (int)r.below(40)) : (int)r.below(style == 1 ? 8 : 40)); return h; }
	static std::string str(const Hist& h) { std::string o; for (int x : h.v) o += (o.empty() ? "" : ",") + std::to_string(x); return o.empty() ? "-" : o; }
	static Hist parse(const std::string& s) { Hist h; if (s == "-") return h; std::stringstream ss(s); std::string t; while (std::getline(ss, t, ',')) h.v.push_back(std::stoi(t)); return h; }
};
}
using carl::Bitset;
static bool M(const Bs& x, std::size_t g) { return g < x.b.size() ? x.b[g] == '1' : x.d; }
static Bitset mk(const Bs& x) { Bitset::BaseType b(x.b.size()); for (std::size_t i = 0; i < x.b.size(); ++i) b[i] = x.b[i] == '1'; return Bitset(std::move(b), x.d); }
static std::size_t top(const Bs& a) { return a.b.size() + 70; }
#define ALL(r, hi, want, what) for (std::size_t g = 0; g < (hi); ++g) { bool h_w = (want); H_CHECK((r).test(g) == h_w, what << ": number " << g << " is " << ((r).test(g) ? "a member" : "no member")); }
#define SAME(r, x, what) ALL(r, top(x), M(x, g), what)
H_REG(a1, "c17.new", [](bool d) -> std::string { Bitset b(d); ALL(b, 200, d, "new bit set"); return ""; });
H_REG(a2, "c17.base", [](Bs x) -> std::string { Bitset b = mk(x); SAME(b, x, "bit set from bits"); return ""; });
H_REG(a3, "c17.list", [](bool d) -> std::string { Bitset b({3, 0, 70, 3}, d); ALL(b, 200, d || g == 3 || g == 0 || g == 70, "bit set from list"); return ""; });
H_REG(a4, "c17.set", [](Bs x, Nat n, bool v) -> std::string { if (n.n > 100000) H_SKIP; Bitset b = mk(x); b.set(n.n, v); ALL(b, std::max(top(x), n.n + 70), g == n.n ? v : M(x, g), "set(" << n.n << "," << v << ")"); if (v) { Bitset c = mk(x); c.set(n.n); ALL(c, std::max(top(x), n.n + 70), g == n.n || M(x, g), "set(" << n.n << ")"); } return ""; });
H_REG(a5, "c17.reset", [](Bs x, Nat n) -> std::string { if (n.n > 100000) H_SKIP; Bitset b = mk(x); b.reset(n.n); ALL(b, std::max(top(x), n.n + 70), g != n.n && M(x, g), "reset(" << n.n << ")"); return ""; });
H_REG(a6, "c17.interval", [](Bs x, Nat s, Nat e, bool v) -> std::string { if (std::max(s.n, e.n) > 100000) H_SKIP; Bitset b = mk(x); b.set_interval(s.n, e.n, v); ALL(b, std::max(top(x), std::max(s.n, e.n) + 70), g >= s.n && g <= e.n ? v : M(x, g), "set_interval(" << s.n << "," << e.n << ")"); return ""; });
H_REG(a7, "c17.test", [](Bs x, Nat n) -> std::string { Bitset b = mk(x); H_CHECK(b.test(n.n) == M(x, n.n), "test(" << n.n << ")"); return ""; });
H_REG(a8, "c17.resize", [](Bs x, Nat n) -> std::string { if (n.n > 100000) H_SKIP; Bitset b = mk(x); auto m = std::max(n.n, (unsigned long)x.b.size()); b.resize(m); ALL(b, m + 70, M(x, g), "resize"); H_CHECK(b.size() == m, "stored size"); return ""; });
H_REG(a9, "c17.resizev", [](Bs x, Nat n, bool v) -> std::string { if (n.n > 100000) H_SKIP; Bitset b = mk(x); auto m = std::max(n.n, (unsigned long)x.b.size()); b.resize(m, v); ALL(b, m + 70, g >= x.b.size() && g < m ? v : M(x, g), "resize with value"); return ""; });
#define TWO(id, nm, code, want) H_REG(id, "c17." nm, [](Bs x, Bs y) -> std::string { Bitset a = mk(x), b = mk(y); std::size_t hi = std::max(top(x), top(y)); code; ALL(r, hi, want, nm); SAME(b, y, "right operand of " nm); return ""; })
TWO(b1, "minus", if (x.d != y.d) H_SKIP; Bitset r = a; r -= b, M(x, g) && !M(y, g));
TWO(b2, "anda", Bitset r = a; r &= b, M(x, g) && M(y, g));
TWO(b3, "ora", Bitset r = a; r |= b, M(x, g) || M(y, g));
TWO(b4, "and", Bitset r = a & b; SAME(a, x, "left operand"), M(x, g) && M(y, g));
TWO(b5, "or", Bitset r = a | b; SAME(a, x, "left operand"), M(x, g) || M(y, g));
H_REG(b6, "c17.self", [](Bs x) -> std::string { Bitset a = mk(x); a &= a; SAME(a, x, "a &= a"); a |= a; SAME(a, x, "a |= a"); a -= a; ALL(a, top(x), false, "a -= a"); return ""; });
H_REG(b7, "c17.not", [](Bs x) -> std::string { Bitset a = mk(x), r = ~a; ALL(r, top(x), !M(x, g), "complement"); SAME(a, x, "operand of complement"); return ""; });
H_REG(b8, "c17.eq", [](Bs x, Bs y, bool grown) -> std::string {
	if (grown) { y = x; while (y.b.size() < x.b.size() + 67) y.b += x.d ? '1' : '0'; }
	Bitset a = mk(x), b = mk(y); bool w = true; for (std::size_t g = 0; g < std::max(top(x), top(y)); ++g) w = w && M(x, g) == M(y, g);
	H_CHECK((a == b) == w, "equality gives " << !w); SAME(a, x, "left operand"); SAME(b, y, "right operand"); return "";
});
H_REG(b9, "c17.subset", [](Bs x, Bs y, bool sub) -> std::string {
	if (sub) { Bs z = x; for (std::size_t i = 0; i < z.b.size(); ++i) if (!M(y, i)) z.b[i] = '0'; x = z; x.d = x.d && y.d; }
	Bitset a = mk(x), b = mk(y); bool w = true; for (std::size_t g = 0; g < std::max(top(x), top(y)); ++g) w = w && (!M(x, g) || M(y, g));
	H_CHECK(a.is_subset_of(b) == w, "subset test gives " << !w); SAME(a, x, "left operand"); SAME(b, y, "right operand"); return "";
});
H_REG(c1, "c17.any", [](Bs x) -> std::string { x.d = false; Bitset a = mk(x); bool w = x.b.find('1') != std::string::npos; H_CHECK(a.any() == w && a.none() == !w, "any/none"); return ""; });
H_REG(c2, "c17.count", [](Bs x) -> std::string { x.d = false; Bitset a = mk(x); std::size_t w = 0; for (char c : x.b) w += c == '1'; H_CHECK(a.count() == w, "count = " << a.count()); return ""; });
H_REG(c3, "c17.iter", [](Bs x) -> std::string {
	Bitset a = mk(x); std::vector<std::size_t> w, r, q; for (std::size_t i = 0; i < x.b.size(); ++i) if (x.b[i] == '1') w.push_back(i);
	for (auto i : a) { r.push_back(i); if (r.size() > w.size()) break; } H_CHECK(r == w, "iteration visits other numbers");
	for (std::size_t i = a.find_first(); i != Bitset::npos; i = a.find_next(i)) { q.push_back(i); if (q.size() > w.size()) break; } H_CHECK(q == w, "search visits other numbers");
	auto it = a.begin(); std::size_t n = 0; while (it != a.end() && n <= w.size()) { auto old = it++; H_CHECK(n < w.size() && *old == w[n], "post-increment"); ++n; } H_CHECK(n == w.size() && it == a.end(), "number of steps");
	for (std::size_t p = 0; p < x.b.size(); ++p) { std::size_t e = Bitset::npos; for (auto i : w) if (i > p) { e = i; break; } H_CHECK(a.find_next(p) == e, "find_next(" << p << ") = " << a.find_next(p)); }
	return "";
});
// ---------------------------------------------------------------- C18
using carl::BitVector;
static bool W(const Bw& x, std::size_t p) { return p / 32 < x.w.size() && (x.w[p / 32] >> (p % 32) & 1); }
static BitVector mkv(const Bw& x) { BitVector v; if (!x.w.empty()) v.setBit((unsigned)x.w.size() * 32 - 1, false); for (std::size_t p = 0; p < x.w.size() * 32; ++p) if (W(x, p)) v.setBit((unsigned)p); return v; }
#define VALL(v, hi, want, what) for (unsigned g = 0; g < (hi); ++g) { bool h_w = (want); H_CHECK((v).getBit(g) == h_w, what << ": position " << g << " reads " << (v).getBit(g)); }
static unsigned vt(const Bw& x) { return (unsigned)x.w.size() * 32 + 70; }
H_REG(v1, "c18.one", [](Nat p) -> std::string { if (p.n > 100000) H_SKIP; BitVector e; VALL(e, 100, false, "new vector"); BitVector v((unsigned)p.n); VALL(v, p.n + 70, g == p.n, "vector of one position"); return ""; });
H_REG(v2, "c18.clear", [](Bw x) -> std::string { BitVector v = mkv(x); v.clear(); VALL(v, vt(x), false, "clear"); H_CHECK(v.empty(), "not empty after clear"); return ""; });
H_REG(v3, "c18.reserve", [](Bw x, Nat n) -> std::string { if (n.n > 1000000) H_SKIP; BitVector v = mkv(x); v.reserve(n.n); VALL(v, vt(x), W(x, g), "reserve(" << n.n << ")"); return ""; });
H_REG(v4, "c18.set", [](Bw x, Nat p, bool b) -> std::string { if (p.n > 1000000) H_SKIP; BitVector v = mkv(x); v.setBit((unsigned)p.n, b); VALL(v, std::max(vt(x), (unsigned)p.n + 70), g == p.n ? b : W(x, g), "setBit(" << p.n << "," << b << ")"); return ""; });
H_REG(v5, "c18.get", [](Bw x, Nat p) -> std::string { BitVector v = mkv(x); if (p.n < (1UL << 32)) H_CHECK(v.getBit((unsigned)p.n) == W(x, p.n), "getBit(" << p.n << ")"); H_CHECK(v.size() == x.w.size() * 32, "size " << v.size()); VALL(v, vt(x), W(x, g), "getBit"); return ""; });
H_REG(v6, "c18.empty", [](Bw x) -> std::string { BitVector v = mkv(x); bool w = true; for (auto u : x.w) w = w && !u; H_CHECK(v.empty() == w, "empty() = " << !w); return ""; });
H_REG(v7, "c18.first", [](Bw x) -> std::string { BitVector v = mkv(x); std::size_t w = x.w.size() * 32; for (std::size_t p = 0; p < x.w.size() * 32; ++p) if (W(x, p)) { w = p; break; } H_CHECK(v.findFirstSetBit() == w, "findFirstSetBit() = " << v.findFirstSetBit() << ", expected " << w); return ""; });
H_REG(v8, "c18.or", [](Bw x, Bw y) -> std::string { BitVector a = mkv(x), b = mkv(y), r = a | b, s = a, t = a; s |= b; t.calculateUnion(b); unsigned hi = std::max(vt(x), vt(y)); VALL(r, hi, W(x, g) || W(y, g), "union"); VALL(s, hi, W(x, g) || W(y, g), "in-place union"); VALL(t, hi, W(x, g) || W(y, g), "calculateUnion"); VALL(b, hi, W(y, g), "right operand"); s |= s; VALL(s, hi, W(x, g) || W(y, g), "union with itself"); return ""; });
H_REG(v9, "c18.subset", [](Bw x, Bw y, bool sub) -> std::string { if (sub) for (std::size_t i = 0; i < x.w.size(); ++i) x.w[i] &= i < y.w.size() ? y.w[i] : 0; BitVector a = mkv(x), b = mkv(y); bool w = true; for (std::size_t p = 0; p < x.w.size() * 32; ++p) w = w && (!W(x, p) || W(y, p)); H_CHECK(a.subsetOf(b) == w, "subsetOf() = " << !w); return ""; });
H_REG(va, "c18.eq", [](Bw x, Bw y) -> std::string { BitVector a = mkv(x), b = mkv(y), c = mkv(x); H_CHECK(a == c, "copy differs"); if (a == b) VALL(b, std::max(vt(x), vt(y)), W(x, g), "equal vector"); return ""; });
H_REG(vb, "c18.iter", [](Bw x) -> std::string { BitVector v = mkv(x); std::size_t p = 0; for (auto it = v.begin(); !it.isEnd(); it++) { H_CHECK(p < x.w.size() * 32 && it.get() == W(x, p), "iteration at position " << p); ++p; } H_CHECK(p == x.w.size() * 32, "iteration visits " << p << " positions"); std::ostringstream o; o << v; std::string w; for (p = 0; p < x.w.size() * 32; ++p) w += W(x, p) ? '1' : '0'; H_CHECK(o.str() == w, "printed as " << o.str()); return ""; });
// ---------------------------------------------------------------- C19
template<typename P> static std::string drive(P& p, const Hist& h) {
	std::set<std::size_t> used; std::size_t peak = 0;
	for (int x : h.v) {
		if (x == 0 || (x % 3 && x != 39)) { auto i = p.get(); H_CHECK(used.insert(i).second, "identifier " << i << " issued twice"); peak = std::max(peak, used.size()); }
		else if (x == 39) { p.clear(); used.clear(); }
		else if (!used.empty()) { auto it = used.begin(); std::advance(it, (std::size_t)(x * 7) % used.size()); if (x % 2) it = std::prev(used.end()); auto i = *it; used.erase(it); p.free(i); }
	}
	return "";
}
H_REG(i1, "c19.pool", [](Hist h) -> std::string { carl::IDPool p; auto m = drive(p, h); if (!m.empty()) return m; carl::IDPool q; std::set<std::size_t> s; for (int i = 0; i < 300; ++i) H_CHECK(s.insert(q.get()).second, "identifier issued twice"); return ""; }, 4000, 6000);
H_REG(i2, "c19.gen", [](Hist h) -> std::string { carl::IDGenerator p; auto m = drive(p, h); if (!m.empty()) return m; return ""; });
H_MAIN
