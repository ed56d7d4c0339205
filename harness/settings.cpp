// Run-time oracles for quantities and durations (bounded stand-in and replay target).
// libs: -lboost_program_options
#include "types.h"
#include <carl-settings/settings_utils.h>
#include <carl-settings/settings_utils.cpp>
#include <boost/any.hpp>
#include <boost/program_options.hpp>
#include <set>
#include <sstream>
// Oracle for C23: texts are compared with 128-bit arithmetic over the documented tables.
using namespace hh; using namespace carl::settings;
using I = __int128;
struct Num { I v = 0; };
static std::string str(I v) { if (v < 0) return "-" + str(-v); std::string s; do { s.insert(s.begin(), char('0' + int(v % 10))); v /= 10; } while (v); return s; }
static I parse128(const std::string& s) { I r = 0; bool neg = false; for (char c : s) { if (c == '-') neg = true; else r = r * 10 + (c - '0'); } return neg ? -r : r; }
template<> struct hh::Arg<Num> {
	static std::vector<Num> all() { std::vector<Num> r; std::set<std::string> seen; auto put = [&](I v) { for (I w : {v, -v}) if (seen.insert(::str(w)).second) { Num n; n.v = w; r.push_back(n); } };
		for (I b : {(I)1000, (I)1024}) { I p = 1; for (int i = 0; i < 7; ++i) { for (I k : {(I)1, (I)2, (I)3, (I)15, (I)59, (I)60, (I)61, (I)999, (I)1023}) for (I d : {(I)-1, (I)0, (I)1}) put(k * p + d); p *= b; } }
		for (I u : {(I)60000000000, (I)3600000000000}) for (I k : {(I)1, (I)2, (I)59, (I)60, (I)100}) for (I d : {(I)-1, (I)0, (I)1}) put(k * u + d);
		put(((I)1 << 63) - 1); put((I)1 << 63); put(((I)1 << 63) + 5); put(((I)1 << 64) - 1); return r; }
	static Num gen(Rng& r) { Num n; n.v = (I)(r.next() >> r.below(64)); if (r.coin()) n.v = -n.v; return n; }
	static std::string str(const Num& n) { return ::str(n.v); }
	static Num parse(const std::string& s) { Num n; n.v = parse128(s); return n; }
};
static const I MAXU = ((I)1 << 64) - 1, MAXI = ((I)1 << 63) - 1;
using Table = std::vector<std::pair<std::string, I>>;
static Table tb() { Table t{{"", 1}}; I p = 1; for (const char* s : {"K", "M", "G", "T", "P", "E"}) { p *= 1024; t.emplace_back(std::string(s) + "i", p); t.emplace_back(s, p); } return t; }
static Table tm() { Table t{{"", 1}}; I p = 1; for (const char* s : {"K", "M", "G", "T", "P", "E"}) { p *= 1000; t.emplace_back(s, p); } return t; }
static Table td() { return {{"ns", 1}, {"µs", 1000}, {"us", 1000}, {"ms", 1000000}, {"s", 1000000000}, {"m", 60000000000}, {"h", 3600000000000}}; }
template<typename Q> static std::string print_ok(const Q& q, I n, const Table& t) {
	std::stringstream ss; ss << q; I best = -1; std::string want;
	for (const auto& e : t) if ((n / e.second != 0 || best < 0) && e.second > best) { best = e.second; want = e.first; }
	H_CHECK(ss.str() == str(n / best) + want, "printed as " + ss.str() + ", expected " + str(n / best) + want);
	return "";
}
template<typename Q> static bool read(const std::string& s, Q& q) { boost::any v; try { validate(v, std::vector<std::string>{s}, (Q*)nullptr, 0); } catch (const boost::program_options::validation_error&) { return false; } q = boost::any_cast<Q>(v); return true; }
template<typename Q, typename F> static std::string read_ok(I n, const Table& t, bool sign, F&& val, I lo, I hi) {
	if (n < 0 && !sign) { Q q; H_CHECK(!read(str(n), q), "negative number accepted"); return ""; }
	if (n < lo || n > hi) H_SKIP;
	for (const auto& e : t) { if (n * e.second < lo || n * e.second > hi) continue; Q q; std::string s = str(n) + e.first; H_CHECK(read(s, q), s + " rejected"); H_CHECK(val(q) == n * e.second, s + " read as " + str(val(q))); }
	for (const char* bad : {"k", "ki", "KiB", "B", "Y", "Z", "D", "min", "d", "hs", "msn", " ", " s", "xs", "KK", "Mm", "nanos"}) { Q q; H_CHECK(!read(str(n) + bad, q), str(n) + bad + " accepted"); }
	for (const auto& e : t) { Q q; H_CHECK(!read(str(n) + e.first + "x", q), "trailing text accepted"); H_CHECK(!read(e.first, q), "text without number accepted"); }
	return "";
}
H_REG(pb, "c23.print_b", [](Num n) -> std::string { if (n.v < 0 || n.v > MAXU) H_SKIP; return print_ok(binary_quantity((std::size_t)n.v), n.v, tb()); });
H_REG(pm, "c23.print_m", [](Num n) -> std::string { if (n.v < 0 || n.v > MAXU) H_SKIP; return print_ok(metric_quantity((std::size_t)n.v), n.v, tm()); });
H_REG(pd, "c23.print_d", [](Num n) -> std::string { if (n.v < -MAXI || n.v > MAXI) H_SKIP; return print_ok(duration(std::chrono::nanoseconds((long)n.v)), n.v, td()); });
H_REG(sb, "c23.scaled_b", [](Num n) -> std::string { if (n.v < 0 || n.v > MAXU) H_SKIP; binary_quantity q((std::size_t)n.v); I p = 1; for (std::size_t x : {q.n(), q.kibi(), q.mebi(), q.gibi(), q.tebi(), q.pebi(), q.exbi()}) { H_CHECK((I)x == n.v / p, "quotient by " + str(p) + " is " + str((I)x)); p *= 1024; } return ""; });
H_REG(sm, "c23.scaled_m", [](Num n) -> std::string { if (n.v < 0 || n.v > MAXU) H_SKIP; metric_quantity q((std::size_t)n.v); I p = 1; for (std::size_t x : {q.n(), q.kilo(), q.mega(), q.giga(), q.tera(), q.peta(), q.exa()}) { H_CHECK((I)x == n.v / p, "quotient by " + str(p) + " is " + str((I)x)); p *= 1000; } return ""; });
H_REG(cb, "c23.compare_b", [](Num a, Num b) -> std::string { if (a.v < 0 || a.v > MAXU || b.v < 0 || b.v > MAXU) H_SKIP; binary_quantity x((std::size_t)a.v), y((std::size_t)b.v); H_CHECK((x == y) == (a.v == b.v), "equality"); H_CHECK((x < y) == (a.v < b.v), "order"); return ""; });
H_REG(cm, "c23.compare_m", [](Num a, Num b) -> std::string { if (a.v < 0 || a.v > MAXU || b.v < 0 || b.v > MAXU) H_SKIP; metric_quantity x((std::size_t)a.v), y((std::size_t)b.v); H_CHECK((x == y) == (a.v == b.v), "equality"); H_CHECK((x < y) == (a.v < b.v), "order"); return ""; });
H_REG(rb, "c23.read_b", [](Num n) -> std::string { return read_ok<binary_quantity>(n.v, tb(), false, [](const binary_quantity& q) { return (I)q.n(); }, 0, MAXU); });
H_REG(rm, "c23.read_m", [](Num n) -> std::string { return read_ok<metric_quantity>(n.v, tm(), false, [](const metric_quantity& q) { return (I)q.n(); }, 0, MAXU); });
H_REG(rdu, "c23.read_d", [](Num n) -> std::string { return read_ok<duration>(n.v, td(), true, [](const duration& q) { return (I)q.count(); }, -MAXI, MAXI); });
H_MAIN
