// Run-time oracles for the heap based priority queue (bounded stand-in and replay target).
#include "types.h"
#include <algorithm>
#include <iostream>
#include <set>
#include <vector>
#include <carl/util/Heap.h>
using namespace hh;
struct E { int key; int id; };
struct Base { using Entry = E; using CompareResult = int; static int compare(E a, E b) { return a.key < b.key ? -1 : a.key > b.key; } static bool cmpLessThan(int r) { return r < 0; } static bool cmpEqual(int r) { return r == 0; } static const bool supportDeduplicationWhileOrdering = false; };
struct Fast : Base { static const bool fastIndex = true; };
struct Slow : Base { static const bool fastIndex = false; };
// history: +k insert key k, - remove, dk replace the top by key k, xk remove the entry at position k (modulo size), c go on with a copy
struct Hist { std::vector<std::pair<char, int>> h; };
template<> struct hh::Arg<Hist> {
	static std::vector<Hist> all() { std::vector<Hist> r{{}}; // all insertion orders of up to five keys, drained
		for (int n = 1; n <= 5; ++n) { std::vector<int> p; for (int i = 0; i < n; ++i) p.push_back(i); do { Hist h; for (int k : p) h.h.emplace_back('+', k); r.push_back(h); Hist g = h; g.h.emplace_back('d', -1); r.push_back(g); for (int x = 0; x < n; ++x) { Hist q = h; q.h.emplace_back('x', x); r.push_back(q); } } while (std::next_permutation(p.begin(), p.end())); }
		return r; }
	static Hist gen(Rng& r) { Hist h; std::size_t n = r.below(r.coin() ? 12 : 90); int range = r.coin() ? 5 : 100; for (std::size_t i = 0; i < n; ++i) { auto k = r.below(10); h.h.emplace_back(k < 6 ? '+' : k < 7 ? '-' : k < 8 ? 'd' : k < 9 ? 'x' : 'c', (int)r.in(0, range)); } return h; }
	static std::string str(const Hist& h) { std::string s; for (auto& p : h.h) s += (s.empty() ? "" : ",") + std::string(1, p.first) + std::to_string(p.second); return s.empty() ? "none" : s; }
	static Hist parse(const std::string& s) { Hist h; if (s == "none") return h; std::stringstream ss(s); std::string t; while (std::getline(ss, t, ',')) h.h.emplace_back(t[0], std::stoi(t.substr(1))); return h; }
};
using Set = std::multiset<std::pair<int, int>>;
template<typename H> static std::string same(const H& h, const Set& m) {
	H_CHECK(h.size() == m.size(), "size " << h.size() << ", expected " << m.size()); H_CHECK(h.empty() == m.empty(), "empty"); Set s; std::size_t n = 0; for (auto it = h.begin(); it != h.end(); it.next()) { s.insert({it.get().key, it.get().id}); if (++n > m.size()) break; } H_CHECK(s == m, "holds other entries than those inserted and not removed");
	if (!m.empty()) H_CHECK(h.top().key == m.rbegin()->first, "top is not maximal"); return "";
}
template<typename C> static std::string run(const Hist& h, bool positions) {
	using H = carl::Heap<C>; std::vector<H> hs; hs.reserve(200); hs.emplace_back(C()); Set m; int id = 0;
	for (auto& p : h.h) {
		H& q = hs.back();
		if (p.first == '+') { E e{p.second, ++id}; if (id % 3) q.push(e); else q.push(&e, &e + 1); m.insert({e.key, e.id}); }
		else if (p.first == 'c') { hs.emplace_back(q); }
		else if (m.empty()) continue;
		else if (p.first == '-') { E e = q.pop(); H_CHECK(e.key == m.rbegin()->first, "removed entry is not maximal"); auto it = m.find({e.key, e.id}); H_CHECK(it != m.end(), "removed entry was not in the queue"); m.erase(it); }
		else if (p.first == 'd') { E t = q.top(); auto it = m.find({t.key, t.id}); H_CHECK(it != m.end(), "top is not in the queue"); m.erase(it); E e{std::min(t.key, p.second), ++id}; q.decreaseTop(e); m.insert({e.key, e.id}); }
		else if (p.first == 'x' && positions) { auto it = q.begin(); for (std::size_t k = (std::size_t)p.second % m.size(); k > 0; --k) it.next(); E t = it.get(); q.popPosition(it); auto f = m.find({t.key, t.id}); H_CHECK(f != m.end(), "entry is not in the queue"); m.erase(f); }
		auto r = same(hs.back(), m); if (!r.empty()) return r;
	}
	H& q = hs.back(); int prev = 1 << 30; while (!q.empty()) { E e = q.pop(); H_CHECK(e.key <= prev, "not removed in order"); prev = e.key; auto f = m.find({e.key, e.id}); H_CHECK(f != m.end(), "removed entry was not in the queue"); m.erase(f); } H_CHECK(m.empty(), "entries lost");
	return "";
}
H_REG(queue, "c28.queue", [](const Hist& h) -> std::string { auto r = run<Fast>(h, false); if (!r.empty()) return "byte offsets: " + r; r = run<Slow>(h, false); return r.empty() ? r : "indices: " + r; });
H_REG(positions, "c28.positions", [](const Hist& h) -> std::string { auto r = run<Fast>(h, true); if (!r.empty()) return "byte offsets: " + r; r = run<Slow>(h, true); return r.empty() ? r : "indices: " + r; });
H_REG(copy, "c28.copy", [](const Hist& h) -> std::string { carl::Heap<Fast> q{Fast()}; Set m; int id = 0; for (auto& p : h.h) if (p.first == '+') { E e{p.second, ++id}; q.push(e); m.insert({e.key, e.id}); } Set s; for (const E& e : q.getCopy()) s.insert({e.key, e.id}); H_CHECK(s == m, "the copied entries are not those of the queue"); return ""; });
H_MAIN
