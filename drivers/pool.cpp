// Entry points into carl's monomial pool for extraction (no logic of its own).
#include <carl/core/VariablePool.h>
#include <carl/core/Monomial.h>
#include <carl/util/IDPool.h>
#include <carl/util/Singleton.h>
#include <carl/util/Pool.h>
#include <boost/intrusive/unordered_set.hpp>
#include <memory>
#include <mutex>
// the comparison and hash objects handed to the hash table are private members: made visible for extraction only
#define class struct
#define private public
#include <carl/core/MonomialPool.h>
#undef private
#undef class
#include <carl/core/Monomial.cpp>
#include <carl/core/MonomialPool.cpp>
namespace vp {
using M = carl::Monomial; using A = carl::Monomial::Arg; using V = carl::Variable; using MP = carl::MonomialPool;
A p_create(MP& p, M::Content& c, std::size_t d) { return p.create(std::move(c), d); }
A p_create0(MP& p, M::Content& c) { return p.create(std::move(c)); }
A p_var(MP& p, V v, std::size_t e) { return p.create(v, e); }
bool e_cm(const M::Content& c, const M& m) { return MP::content_equal()(c, m); }
bool e_mc(const M& m, const M::Content& c) { return MP::content_equal()(m, c); }
std::size_t e_hash(const M::Content& c) { return MP::content_hash()(c); }
void p_free(MP& p, const M* m) { p.free(m); }
std::size_t m_id(const M& m) { return m.id(); }
std::size_t m_hash(const M& m) { return m.hash(); }
std::size_t m_hashv(const M& m) { return carl::hash_value(m); }
bool m_eq(const M& a, const M& b) { return a == b; }
bool a_eq(const A& a, const A& b) { return a == b; }
}
