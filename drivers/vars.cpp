// Entry points into carl's variables and variable pool for extraction (no logic of its own).
#include <carl/core/VariablePool.h>
#include <carl/core/VariablePool.cpp>
#include <carl/core/Variable.cpp>
namespace vp {
using V = carl::Variable; using T = carl::VariableType; using P = carl::VariablePool;
std::size_t v_id(const V& v) { return v.id(); }
T v_type(const V& v) { return v.type(); }
std::size_t v_rank(const V& v) { return v.rank(); }
bool v_eq(const V& a, const V& b) { return a == b; }
bool v_ne(const V& a, const V& b) { return a != b; }
bool v_lt(const V& a, const V& b) { return a < b; }
bool v_le(const V& a, const V& b) { return a <= b; }
bool v_gt(const V& a, const V& b) { return a > b; }
bool v_ge(const V& a, const V& b) { return a >= b; }
std::size_t v_hash(const V& a) { return std::hash<V>()(a); }
V v_none() { return V(); }
V v_fresh(T t) { return carl::freshVariable(t); }
V v_freshn(const std::string& n, T t) { return carl::freshVariable(n, t); }
V v_bool() { return carl::freshBooleanVariable(); }
V v_real() { return carl::freshRealVariable(); }
V v_int() { return carl::freshIntegerVariable(); }
V v_bv() { return carl::freshBitvectorVariable(); }
V v_un() { return carl::freshUninterpretedVariable(); }
V v_booln(const std::string& n) { return carl::freshBooleanVariable(n); }
V v_realn(const std::string& n) { return carl::freshRealVariable(n); }
V v_intn(const std::string& n) { return carl::freshIntegerVariable(n); }
V v_bvn(const std::string& n) { return carl::freshBitvectorVariable(n); }
V v_unn(const std::string& n) { return carl::freshUninterpretedVariable(n); }
V p_pers(P& p, T t) { return p.getFreshPersistentVariable(t); }
V p_persn(P& p, const std::string& n, T t) { return p.getFreshPersistentVariable(n, t); }
void p_clear(P& p) { p.clear(); }
V p_find(const P& p, const std::string& n) { return p.findVariableWithName(n); }
std::string p_name(const P& p, V v) { return p.getName(v, true); }
void p_set(P& p, V v, const std::string& n) { p.setName(v, n); }
std::size_t p_nr(const P& p, T t) { return p.nrVariables(t); }
}
