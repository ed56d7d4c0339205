// Run-time oracles for set covers (bounded stand-in and replay target).
// links: carl-covering/SetCover.cpp carl-covering/heuristics/exact.cpp carl-covering/heuristics/greedy.cpp carl-covering/heuristics/remove_duplicates.cpp carl-covering/heuristics/select_essential.cpp carl-covering/heuristics/trivial.cpp carl/util/Bitset.cpp
#include "types.h"
#include <carl/util/Bitset.h>
#include <carl-covering/carl-covering.h>
#include <set>
using namespace hh; using namespace carl; using namespace carl::covering;
// An instance: list of sets of small numbers, written like {0,3};{};{64}
struct Inst { std::vector<std::set<std::size_t>> s; };
template<> struct hh::Arg<Inst> {
	static std::vector<Inst> all() {
		std::vector<Inst> r; r.push_back({}); const std::vector<std::size_t> el{0, 1, 2};
		auto of = [&](unsigned m) { std::set<std::size_t> x; for (unsigned i = 0; i < 3; ++i) if (m >> i & 1) x.insert(el[i]); return x; };
		for (unsigned a = 0; a < 8; ++a) { r.push_back({{of(a)}}); for (unsigned b = 0; b < 8; ++b) { r.push_back({{of(a), of(b)}}); for (unsigned c = 0; c < 8; ++c) r.push_back({{of(a), of(b), of(c)}}); } }
		return r;
	}
	static Inst gen(Rng& r) {
		Inst v; std::size_t n = r.below(8), m = 1 + r.below(9); bool wide = r.below(4) == 0; unsigned dens = (unsigned)r.in(15, 60);
		for (std::size_t i = 0; i < n; ++i) { std::set<std::size_t> x; for (std::size_t e = 0; e < m; ++e) if (r.below(100) < dens) x.insert(wide ? e * 17 : e); v.s.push_back(x); }
		if (n > 1 && r.below(6) == 0) v.s[r.below(n)].clear();
		return v;
	}
	static std::string str(const Inst& v) { std::string o; for (std::size_t i = 0; i < v.s.size(); ++i) { o += i ? ";{" : "{"; bool f = true; for (auto e : v.s[i]) { o += (f ? "" : ",") + std::to_string(e); f = false; } o += "}"; } return o.empty() ? "none" : o; }
	static Inst parse(const std::string& t) { Inst v; if (t == "none") return v; std::size_t p = 0; while ((p = t.find('{', p)) != std::string::npos) { auto q = t.find('}', p); std::set<std::size_t> x; std::stringstream ss(t.substr(p + 1, q - p - 1)); std::string k; while (std::getline(ss, k, ',')) x.insert(std::stoul(k)); v.s.push_back(x); p = q; } return v; }
};
static SetCover make(const Inst& v) { SetCover c; for (std::size_t i = 0; i < v.s.size(); ++i) { c.set(i, Bitset()); std::size_t k = 0; Bitset b; for (auto e : v.s[i]) { if (k++ % 2) c.set(i, e); else b.set(e); } c.set(i, b); } return c; }
static std::set<std::size_t> content(const Bitset& b) { std::set<std::size_t> r; for (std::size_t i = 0; i < b.size(); ++i) if (b.test(i)) r.insert(i); return r; }
static std::set<std::size_t> all(const Inst& v) { std::set<std::size_t> r; for (const auto& s : v.s) r.insert(s.begin(), s.end()); return r; }
static std::set<std::size_t> un(const Inst& v, const std::set<std::size_t>& ids) { std::set<std::size_t> r; for (auto i : ids) if (i < v.s.size()) r.insert(v.s[i].begin(), v.s[i].end()); return r; }
static bool ids_ok(const Inst& v, const Bitset& b) { for (auto i : content(b)) if (i >= v.s.size()) return false; return true; }
static std::string covers(const Inst& v, const Bitset& b) { H_CHECK(ids_ok(v, b), "selects a set that is not there"); H_CHECK(un(v, content(b)) == all(v), "selection does not cover all elements"); return ""; }
static std::size_t minimum(const Inst& v) { std::size_t best = v.s.size(); for (unsigned m = 0; m < (1u << v.s.size()); ++m) { std::set<std::size_t> ids; for (unsigned i = 0; i < v.s.size(); ++i) if (m >> i & 1) ids.insert(i); if (ids.size() < best && un(v, ids) == all(v)) best = ids.size(); } return best; }
// what a partial heuristic must leave: every set without the elements covered by the selection
static std::string left(const Inst& v, const SetCover& c, const Bitset& b) {
	H_CHECK(ids_ok(v, b), "selects a set that is not there"); H_CHECK(c.set_count() == v.s.size(), "number of sets changed"); auto gone = un(v, content(b));
	for (std::size_t i = 0; i < v.s.size(); ++i) { std::set<std::size_t> want; for (auto e : v.s[i]) if (!gone.count(e)) want.insert(e); H_CHECK(content(c.get_set(i)) == want, "set " << i << " is not the part left uncovered"); }
	return "";
}
H_REG(setting, "c22.set", [](const Inst& v) -> std::string { SetCover c = make(v); H_CHECK(c.set_count() == v.s.size(), "number of sets"); for (std::size_t i = 0; i < v.s.size(); ++i) H_CHECK(content(c.get_set(i)) == v.s[i], "set " << i << " has other elements");
	SetCover d; for (std::size_t i = v.s.size(); i-- > 0;) for (auto e : v.s[i]) d.set(i, e); for (std::size_t i = 0; i < d.set_count(); ++i) H_CHECK(content(d.get_set(i)) == v.s[i], "set " << i << " has other elements (backwards)"); return ""; });
H_REG(queries, "c22.queries", [](const Inst& v) -> std::string {
	SetCover c = make(v); H_CHECK(content(c.get_uncovered()) == all(v), "uncovered elements"); std::size_t act = 0; for (const auto& s : v.s) act += !s.empty(); H_CHECK(c.active_set_count() == act, "active sets"); for (auto e : all(v)) H_CHECK(e < c.element_count(), "element count");
	if (v.s.empty()) return "";
	std::size_t g = c.largest_set(); H_CHECK(g < v.s.size(), "largest set"); for (const auto& s : v.s) H_CHECK(s.size() <= v.s[g].size(), "a set is larger than the largest");
	std::vector<double> w; for (std::size_t i = 0; i < v.s.size(); ++i) w.push_back(1 + double((i * 5 + 3) % 7) / 2); g = c.largest_set(w); H_CHECK(g < v.s.size(), "largest weighted set"); for (std::size_t i = 0; i < v.s.size(); ++i) H_CHECK(double(v.s[i].size()) * w[i] <= double(v.s[g].size()) * w[g], "a set is heavier than the heaviest");
	SetCover p = c; p.prune_sets(); H_CHECK(p.set_count() == c.set_count(), "pruning changes the number of sets"); for (std::size_t i = 0; i < v.s.size(); ++i) H_CHECK(content(p.get_set(i)) == v.s[i], "pruning changes a set");
	for (std::size_t s = 0; s < v.s.size(); ++s) { SetCover d = c; d.select_set(s); Bitset b; b.set(s); auto m = left(v, d, b); if (!m.empty()) return "after selecting: " + m; }
	return ""; });
H_REG(greedy, "c22.greedy", [](const Inst& v) -> std::string { SetCover c = make(v); return covers(v, heuristic::greedy(c)); });
H_REG(bounded, "c22.greedy_bounded", [](const Inst& v) -> std::string { for (std::size_t b : {0, 1, 2, 3, 12}) { SetCover c = make(v); Bitset r = heuristic::greedy_bounded(c, b); auto m = left(v, c, r); if (!m.empty()) return m; H_CHECK(c.active_set_count() <= b, "more than the bound left"); if (b == 0) { m = covers(v, r); if (!m.empty()) return m; } } return ""; });
H_REG(weighted, "c22.greedy_weighted", [](const Inst& v) -> std::string { std::vector<double> w; for (std::size_t i = 0; i < v.s.size(); ++i) w.push_back(1 + double((i * 3 + 2) % 5)); for (std::size_t b : {0, 1, 2, 12}) { SetCover c = make(v); Bitset r = heuristic::greedy_weighted(c, w, b); auto m = left(v, c, r); if (!m.empty()) return m; H_CHECK(c.active_set_count() <= b, "more than the bound left"); if (b == 0) { m = covers(v, r); if (!m.empty()) return m; } } return ""; });
H_REG(essential, "c22.select_essential", [](const Inst& v) -> std::string { SetCover c = make(v); Bitset r = heuristic::select_essential(c); auto m = left(v, c, r); if (!m.empty()) return m;
	for (auto e : all(v)) { std::size_t k = 0; for (std::size_t i = 0; i < v.s.size(); ++i) k += c.get_set(i).test(e); H_CHECK(k != 1, "an element is left in one set only"); }
	Inst rest; for (std::size_t i = 0; i < v.s.size(); ++i) rest.s.push_back(content(c.get_set(i))); H_CHECK(minimum(rest) + content(r).size() == minimum(v), "selection is not part of a minimum cover"); return ""; });
H_REG(dup, "c22.remove_duplicates", [](const Inst& v) -> std::string { SetCover c = make(v); Bitset r = heuristic::remove_duplicates(c); H_CHECK(r.none(), "selects a set"); H_CHECK(c.set_count() <= v.s.size(), "more sets");
	for (unsigned m = 0; m < (1u << v.s.size()); ++m) { std::set<std::size_t> ids, u; for (unsigned i = 0; i < v.s.size(); ++i) if (m >> i & 1) { ids.insert(i); if (i < c.set_count()) { auto x = content(c.get_set(i)); u.insert(x.begin(), x.end()); } } H_CHECK((un(v, ids) == all(v)) == (u == content(c.get_uncovered())), "a selection covers before but not after, or the other way round"); }
	return ""; });
H_REG(exact, "c22.exact", [](const Inst& v) -> std::string { SetCover c = make(v); Bitset r = heuristic::exact(c); auto m = covers(v, r); if (!m.empty()) return m; H_CHECK(content(r).size() == minimum(v), "cover of size " << content(r).size() << ", minimum is " << minimum(v)); return ""; });
H_REG(trivial, "c22.trivial", [](const Inst& v) -> std::string { SetCover c = make(v); Bitset r = heuristic::trivial(c); for (std::size_t i = 0; i < v.s.size(); ++i) H_CHECK(r.test(i), "set " << i << " not selected"); return covers(v, r); });
H_REG(typed, "c22.typed", [](const Inst& v) -> std::string { TypedSetCover<std::string> t; for (std::size_t i = v.s.size(); i-- > 0;) for (auto e : v.s[i]) t.set("s" + std::to_string(i), e); if (all(v).empty()) H_SKIP;
	for (int k = 0; k < 2; ++k) { TypedSetCover<std::string> u = t; auto r = k ? u.get_cover(heuristic::exact) : u.get_cover(heuristic::greedy); std::set<std::size_t> ids; for (const auto& n : r) ids.insert(std::stoul(n.substr(1))); H_CHECK(un(v, ids) == all(v), "typed selection does not cover"); if (k) H_CHECK(ids.size() == minimum(v), "typed exact selection is not minimum"); } return ""; });
H_MAIN
