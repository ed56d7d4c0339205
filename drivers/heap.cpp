// Entry points into carl's heap for extraction (no logic of its own).
#include <vector>
#include <iostream>
#include <carl/util/Heap.h>
namespace vp {
struct ConfBase { using Entry = long; using CompareResult = long; static CompareResult compare(Entry a, Entry b); static bool cmpLessThan(CompareResult r) { return r < 0; } static bool cmpEqual(CompareResult r) { return r == 0; } static const bool supportDeduplicationWhileOrdering = false; };
struct Fast : ConfBase { static const bool fastIndex = true; };
struct Slow : ConfBase { static const bool fastIndex = false; };
using F = carl::Heap<Fast>; using G = carl::Heap<Slow>;
void f_push(F& h, long x) { h.push(x); }
long f_pop(F& h) { return h.pop(); }
long f_top(const F& h) { return h.top(); }
bool f_empty(const F& h) { return h.empty(); }
std::size_t f_size(const F& h) { return h.size(); }
void f_decrease(F& h, long x) { h.decreaseTop(x); }
void f_popat(F& h, F::c_iterator p) { h.popPosition(p); }
void g_push(G& h, long x) { h.push(x); }
long g_pop(G& h) { return h.pop(); }
long g_top(const G& h) { return h.top(); }
bool g_empty(const G& h) { return h.empty(); }
std::size_t g_size(const G& h) { return h.size(); }
void g_decrease(G& h, long x) { h.decreaseTop(x); }
void g_popat(G& h, G::c_iterator p) { h.popPosition(p); }
}
