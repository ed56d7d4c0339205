// Entry points into carl's bit sets, packed bit vectors and identifier pools for extraction (no logic of its own).
#include <carl/util/Bitset.h>
#include <carl/util/BitVector.h>
#include <carl/util/BitVector.cpp>
#include <carl/util/IDPool.h>
#include <carl/util/IDGenerator.h>
namespace vp {
using B = carl::Bitset; using V = carl::BitVector;
B bs_new(bool d) { return B(d); }
B bs_list(const std::initializer_list<std::size_t>& l, bool d) { return B(l, d); }
B bs_base(boost::dynamic_bitset<>&& b, bool d) { return B(std::move(b), d); }
void bs_set(B& b, std::size_t n, bool v) { b.set(n, v); }
void bs_set1(B& b, std::size_t n) { b.set(n); }
void bs_interval(B& b, std::size_t s, std::size_t e, bool v) { b.set_interval(s, e, v); }
void bs_reset(B& b, std::size_t n) { b.reset(n); }
bool bs_test(const B& b, std::size_t n) { return b.test(n); }
bool bs_any(const B& b) { return b.any(); }
bool bs_none(const B& b) { return b.none(); }
std::size_t bs_count(const B& b) { return b.count(); }
std::size_t bs_size(const B& b) { return b.size(); }
void bs_resize(B& b, std::size_t n) { b.resize(n); }
void bs_resizev(B& b, std::size_t n, bool v) { b.resize(n, v); }
void bs_minus(B& a, const B& b) { a -= b; }
void bs_anda(B& a, const B& b) { a &= b; }
void bs_ora(B& a, const B& b) { a |= b; }
B bs_and(const B& a, const B& b) { return a & b; }
B bs_or(const B& a, const B& b) { return a | b; }
B bs_not(const B& a) { return ~a; }
bool bs_eq(const B& a, const B& b) { return a == b; }
bool bs_subset(const B& a, const B& b) { return a.is_subset_of(b); }
std::size_t bs_first(const B& a) { return a.find_first(); }
std::size_t bs_next(const B& a, std::size_t p) { return a.find_next(p); }
std::size_t bs_begin(const B& a) { return *a.begin(); }
std::size_t bs_end(const B& a) { return *a.end(); }
std::size_t bs_step(const B& a, std::size_t p) { B::iterator it(a, p); ++it; return *it; }
std::size_t bs_post(const B& a, std::size_t p) { B::iterator it(a, p); return *(it++); }
std::size_t bs_post2(const B& a, std::size_t p) { B::iterator it(a, p); it++; return it; }
bool bs_iteq(const B& a, std::size_t p, std::size_t q) { return B::iterator(a, p) == B::iterator(a, q); }
bool bs_itne(const B& a, std::size_t p, std::size_t q) { return B::iterator(a, p) != B::iterator(a, q); }
void bs_align(const B& a, const B& b) { alignSize(a, b); }
// packed bit vectors
V bv_new() { return V(); }
V bv_one(unsigned p) { return V(p); }
void bv_clear(V& v) { v.clear(); }
void bv_reserve(V& v, std::size_t n) { v.reserve(n); }
bool bv_empty(const V& v) { return v.empty(); }
std::size_t bv_size(const V& v) { return v.size(); }
std::size_t bv_first(const V& v) { return v.findFirstSetBit(); }
void bv_set(V& v, unsigned p, bool b) { v.setBit(p, b); }
bool bv_get(const V& v, unsigned p) { return v.getBit(p); }
bool bv_subset(V& a, const V& b) { return a.subsetOf(b); }
void bv_ora(V& a, const V& b) { a |= b; }
void bv_union(V& a, const V& b) { a.calculateUnion(b); }
V bv_or(const V& a, const V& b) { return a | b; }
bool bv_eq(const V& a, const V& b) { return a == b; }
V::forward_iterator bv_begin(const V& v) { return v.begin(); }
bool bv_it_get(V::forward_iterator& i) { return i.get(); }
void bv_it_next(V::forward_iterator& i) { i.next(); }
void bv_it_inc(V::forward_iterator& i) { i++; }
bool bv_it_end(V::forward_iterator& i) { return i.isEnd(); }
// identifiers
carl::IDPool* ip_new() { return new carl::IDPool(); }
std::size_t ip_get(carl::IDPool& p) { return p.get(); }
void ip_free(carl::IDPool& p, std::size_t i) { p.free(i); }
void ip_clear(carl::IDPool& p) { p.clear(); }
carl::IDGenerator* ig_new() { return new carl::IDGenerator(); }
std::size_t ig_get(carl::IDGenerator& p) { return p.get(); }
void ig_free(carl::IDGenerator& p, std::size_t i) { p.free(i); }
void ig_clear(carl::IDGenerator& p) { p.clear(); }
std::size_t ig_next(const carl::IDGenerator& p) { return p.nextID(); }
}
