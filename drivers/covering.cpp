// Entry points into carl's set covers for extraction (no logic of its own).
#include <algorithm>
#include <carl/util/Bitset.h>
#include <carl-covering/SetCover.cpp>
#include <carl-covering/heuristics/exact.cpp>
#include <carl-covering/heuristics/greedy.cpp>
#include <carl-covering/heuristics/remove_duplicates.cpp>
#include <carl-covering/heuristics/select_essential.cpp>
#include <carl-covering/heuristics/trivial.cpp>
namespace vp {
using namespace carl; using namespace carl::covering;
using SC = SetCover;
void c_set(SC& c, std::size_t s, std::size_t e) { c.set(s, e); }
void c_sets(SC& c, std::size_t s, const Bitset& e) { c.set(s, e); }
std::size_t c_elements(const SC& c) { return c.element_count(); }
void c_prune(SC& c) { c.prune_sets(); }
std::size_t c_active(const SC& c) { return c.active_set_count(); }
std::size_t c_largest(const SC& c) { return c.largest_set(); }
std::size_t c_largest_w(const SC& c, const std::vector<double>& w) { return c.largest_set(w); }
Bitset c_uncovered(const SC& c) { return c.get_uncovered(); }
void c_select(SC& c, std::size_t s) { c.select_set(s); }
Bitset h_greedy(SC& c) { return heuristic::greedy(c); }
Bitset h_bounded(SC& c, std::size_t b) { return heuristic::greedy_bounded(c, b); }
Bitset h_weighted(SC& c, const std::vector<double>& w, std::size_t b) { return heuristic::greedy_weighted(c, w, b); }
Bitset h_essential(SC& c) { return heuristic::select_essential(c); }
Bitset h_trivial(SC& c) { return heuristic::trivial(c); }
std::optional<Bitset> h_of_size(const SC& c, const Bitset& u, const std::vector<std::size_t>& m, std::size_t k) { return heuristic::exact_of_size(c, u, m, k); }
}
