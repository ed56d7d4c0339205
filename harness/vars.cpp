// Run-time oracles for variables and the variable pool (bounded stand-in and replay target).
// links: carl/core/VariablePool.cpp carl/core/Variable.cpp carl/util/Pool.cpp carl/core/MonomialPool.cpp carl/core/Monomial.cpp
#include "types.h"
#include <array>
#include <climits>
#include <map>
#include <mutex>
#include <type_traits>
#define private public
#define protected public
#include <carl/core/VariablePool.h>
#undef private
#undef protected
using carl::Variable; using carl::VariableType; using carl::VariablePool;
struct Cv { unsigned long c = 8; };
struct Nat { unsigned long n = 0; };
struct Hist { std::vector<int> v; };
namespace hh {
static const unsigned long MAXID = (1UL << 57) - 1;
static unsigned long pk(unsigned long r, unsigned long i, unsigned long t) { return (r << 60) | (i << 3) | t; }
template<> struct Arg<Cv> {
	static std::vector<Cv> all() { std::vector<Cv> v; for (unsigned long r : {0UL, 1UL, 8UL, 15UL}) for (unsigned long i : {1UL, 2UL, 1UL << 31, 1UL << 32, 1UL << 56, MAXID}) for (unsigned long t = 0; t < 5; ++t) v.push_back({pk(r, i, t)}); return v; }
	static Cv gen(Rng& r) { unsigned long i = r.below(3) ? 1 + r.below(6) : (r.next() & MAXID); if (!i) i = 1; return {pk(r.below(3) ? 0 : r.below(16), i, r.below(5))}; }
	static std::string str(const Cv& x) { return std::to_string(x.c); }
	static Cv parse(const std::string& s) { return {std::stoul(s)}; }
};
template<> struct Arg<Nat> {
	static std::vector<Nat> all() { std::vector<Nat> r; for (unsigned long n : {0UL, 1UL, 2UL, 3UL, 4UL, 7UL, 15UL, 1UL << 20, 1UL << 32, (1UL << 32) - 1, 1UL << 56, MAXID}) r.push_back({n}); return r; }
	static Nat gen(Rng& r) { return {r.below(2) ? r.below(16) : (r.next() & MAXID)}; }
	static std::string str(const Nat& n) { return std::to_string(n.n); }
	static Nat parse(const std::string& s) { return {std::stoul(s)}; }
};
template<> struct Arg<Hist> {
	static std::vector<Hist> all() { std::vector<Hist> r; r.push_back({}); for (int a = 0; a < 27; ++a) { r.push_back({{a}}); for (int b = 0; b < 27; ++b) { r.push_back({{a, b}}); for (int c = 0; c < 27; ++c) r.push_back({{a, b, c}}); } } return r; }
	static Hist gen(Rng& r) { Hist h; for (auto n = r.below(r.below(4) ? 12 : 60); n > 0; --n) h.v.push_back((int)r.below(27)); return h; }
	static std::string str(const Hist& h) { std::string o; for (int x : h.v) o += (o.empty() ? "" : ",") + std::to_string(x); return o.empty() ? "-" : o; }
	static Hist parse(const std::string& s) { Hist h; if (s == "-") return h; std::stringstream ss(s); std::string t; while (std::getline(ss, t, ',')) h.v.push_back(std::stoi(t)); return h; }
};
}
static Variable mk(Cv x) { unsigned long i = (x.c >> 3) & hh::MAXID, t = x.c & 7; if (i == 0 || t > 4) H_SKIP; return Variable(i, VariableType(t), x.c >> 60); }
H_REG(a1, "c20.make", [](Nat i, Nat r, Nat t) -> std::string {
	if (i.n == 0 || i.n > hh::MAXID || r.n > 15 || t.n > 4) H_SKIP;
	Variable v(i.n, VariableType(t.n), r.n);
	H_CHECK(v.id() == i.n, "identifier reads as " << v.id()); H_CHECK((unsigned long)v.type() == t.n, "type reads as " << (unsigned long)v.type()); H_CHECK(v.rank() == r.n, "rank reads as " << v.rank());
	Variable w(i.n, VariableType(t.n)); H_CHECK(w.rank() == 0 && w.id() == i.n && w.type() == v.type(), "default rank");
	return "";
});
H_REG(a2, "c20.cmp", [](Cv x, Cv y) -> std::string {
	Variable a = mk(x), b = mk(y); bool same = a.id() == b.id() && a.type() == b.type() && a.rank() == b.rank();
	H_CHECK((a == b) == same, "equality"); H_CHECK((a != b) == !same, "inequality");
	H_CHECK((a < b) + (b < a) + (a == b) == 1, "not exactly one of less, equal, greater"); H_CHECK((a > b) == (b < a), "greater"); H_CHECK((a <= b) == ((a < b) || (a == b)), "less or equal"); H_CHECK((a >= b) == ((b < a) || (a == b)), "greater or equal");
	H_CHECK(!same || std::hash<Variable>()(a) == std::hash<Variable>()(b), "hash"); H_CHECK(!(a.rank() < b.rank()) || a < b, "rank decides first");
	H_CHECK(a.id() == ((x.c >> 3) & hh::MAXID) && (unsigned long)a.type() == (x.c & 7) && a.rank() == x.c >> 60, "fields");
	return "";
});
H_REG(a3, "c20.none", [](Cv x) -> std::string { Variable a = mk(x); H_CHECK(Variable().id() == 0 && !(a == Variable()) && Variable() == Variable::NO_VARIABLE, "invalid variable"); return ""; });
H_REG(a4, "c20.trans", [](Cv x, Cv y, Cv z) -> std::string { Variable a = mk(x), b = mk(y), c = mk(z); H_CHECK(!(a < b && b < c) || a < c, "order not transitive"); H_CHECK(!(a < a), "order not irreflexive"); return ""; });
static Variable fresh(int t) { switch (t) { case 0: return carl::freshBooleanVariable(); case 1: return carl::freshRealVariable(); case 2: return carl::freshIntegerVariable(); case 3: return carl::freshUninterpretedVariable(); default: return carl::freshBitvectorVariable(); } }
static Variable freshn(int t, const std::string& n) { switch (t) { case 0: return carl::freshBooleanVariable(n); case 1: return carl::freshRealVariable(n); case 2: return carl::freshIntegerVariable(n); case 3: return carl::freshUninterpretedVariable(n); default: return carl::freshBitvectorVariable(n); } }
// 0-4 fresh, 5-9 fresh named, 10-14 persistent, 15-19 persistent named, 20-23 rename an earlier variable, 24 clear, 25-26 many fresh ones
static std::string history(const Hist& h) {
	auto& pool = VariablePool::getInstance(); pool.mPersistentVariables.clear(); pool.clear();
	std::vector<Variable> alive, pers; std::map<unsigned long, std::string> names, pnames; int serial = 0;
	auto add = [&](Variable v, int t) -> std::string {
		H_CHECK((int)v.type() == t, "type of a new variable"); H_CHECK(v.id() > 0 && v.rank() == 0, "identifier of a new variable");
		for (auto w : alive) H_CHECK(!(v == w), "new variable equals an earlier one"); alive.push_back(v); return "";
	};
	for (int o : h.v) {
		std::string e; o %= 27;
		std::string n = "n" + std::to_string(++serial);
		if (o < 5) e = add(o % 2 ? carl::freshVariable(VariableType(o)) : fresh(o), o);
		else if (o < 10) { Variable v = o % 2 ? carl::freshVariable(n, VariableType(o - 5)) : freshn(o - 5, n); e = add(v, o - 5); names[v.mContent] = n; }
		else if (o < 15) { Variable v = pool.getFreshPersistentVariable(VariableType(o - 10)); e = add(v, o - 10); pers.push_back(v); }
		else if (o < 20) { Variable v = pool.getFreshPersistentVariable(n, VariableType(o - 15)); e = add(v, o - 15); pers.push_back(v); names[v.mContent] = pnames[v.mContent] = n; }
		else if (o < 24) { if (!alive.empty()) { Variable v = alive[(serial * 7 + o) % alive.size()]; pool.setName(v, n); names[v.mContent] = n; } }
		else if (o == 24) { pool.clear(); alive = pers; names = pnames; }
		else for (int i = 0; i < 5 && e.empty(); ++i) e = add(fresh(o == 25 ? i : 1), o == 25 ? i : 1);
		if (!e.empty()) return e;
		for (auto v : alive) { auto it = names.find(v.mContent); if (it == names.end()) continue; H_CHECK(pool.getName(v) == it->second && v.name() == it->second, "name " << it->second << " of a variable reads as " << pool.getName(v)); H_CHECK(pool.findVariableWithName(it->second) == v, "variable not found by its name " << it->second); }
	}
	H_CHECK(pool.findVariableWithName("no such name") == Variable::NO_VARIABLE, "unknown name");
	return "";
}
H_REG(b1, "c20.fresh", [](Hist h) -> std::string { return history(h); }, 4000);
H_MAIN
