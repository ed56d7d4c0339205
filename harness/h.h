// Small registry for run-time oracles: every oracle is a function of typed arguments which can be
// generated (enumeration + seeded random), printed and parsed back, so that each failing case can be replayed.
#pragma once
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>

namespace hh {
struct Rng {
	std::uint64_t s;
	explicit Rng(std::uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567ULL) { for (int i = 0; i < 4; ++i) next(); }
	std::uint64_t next() { s ^= s >> 12; s ^= s << 25; s ^= s >> 27; return s * 2685821657736338717ULL; }
	std::uint64_t below(std::uint64_t n) { return next() % n; }
	long in(long a, long b) { return a + (long)below((std::uint64_t)(b - a + 1)); }
	bool coin() { return below(2) == 0; }
};
template<typename T, typename E = void> struct Arg;
// sentinel: case outside the precondition
struct Skip {};
#define H_SKIP throw hh::Skip{}
#define H_CHECK(c, msg) do { if (!(c)) { std::ostringstream h_o; h_o << msg; return h_o.str(); } } while (0)

struct Op {
	std::string name;
	std::function<std::size_t()> n_enum;                       // size of the enumeration (capped)
	std::function<std::string(std::size_t, bool, std::uint64_t, bool, std::string&)> run; // index, random?, seed, only-print, out args -> failure text
	std::function<std::string(const std::vector<std::string>&)> replay;
	std::size_t n_random;
};
inline std::vector<Op>& ops() { static std::vector<Op> o; return o; }

template<typename T> const std::vector<T>& pool() { static std::vector<T> v = Arg<T>::all(); return v; }

template<typename F> struct sig;
template<typename R, typename C, typename... A> struct sig<R (C::*)(A...) const> { using args = std::tuple<std::decay_t<A>...>; };

template<typename Tup, std::size_t... I>
Tup pick_enum(std::size_t idx, std::index_sequence<I...>) {
	Tup t;
	((std::get<I>(t) = pool<std::tuple_element_t<I, Tup>>()[idx % pool<std::tuple_element_t<I, Tup>>().size()], idx /= pool<std::tuple_element_t<I, Tup>>().size()), ...);
	return t;
}
template<typename Tup, std::size_t... I>
std::size_t enum_size(std::index_sequence<I...>) {
	double d = 1; std::size_t n = 1;
	((d *= (double)pool<std::tuple_element_t<I, Tup>>().size(), n *= pool<std::tuple_element_t<I, Tup>>().size()), ...);
	if (d > 1e15) return (std::size_t)1e15;
	return n;
}
template<typename Tup, std::size_t... I>
Tup pick_rnd(Rng& r, std::index_sequence<I...>) {
	Tup t;
	((std::get<I>(t) = (r.below(3) == 0 && !pool<std::tuple_element_t<I, Tup>>().empty()) ? pool<std::tuple_element_t<I, Tup>>()[r.below(pool<std::tuple_element_t<I, Tup>>().size())] : Arg<std::tuple_element_t<I, Tup>>::gen(r)), ...);
	return t;
}
template<typename Tup, std::size_t... I>
std::string print(const Tup& t, std::index_sequence<I...>) {
	std::string s;
	((s += (I ? " " : ""), s += Arg<std::tuple_element_t<I, Tup>>::str(std::get<I>(t))), ...);
	return s;
}
template<typename Tup, std::size_t... I>
Tup parse(const std::vector<std::string>& v, Rng& r, std::index_sequence<I...> s) {
	Tup t;
	if (v.size() < sizeof...(I)) t = pick_rnd<Tup>(r, s); // inputs the obligation does not determine
	((I < v.size() ? void(std::get<I>(t) = Arg<std::tuple_element_t<I, Tup>>::parse(v[I])) : void()), ...);
	return t;
}
static const std::size_t ENUM_CAP = 400000;
template<typename F>
bool reg(const std::string& name, F f, std::size_t n_random = 20000, std::size_t enum_cap = ENUM_CAP) {
	using Tup = typename sig<decltype(&F::operator())>::args;
	using Seq = std::make_index_sequence<std::tuple_size<Tup>::value>;
	Op o;
	o.name = name;
	o.n_random = n_random;
	o.n_enum = [enum_cap]() { return std::min(enum_size<Tup>(Seq{}), enum_cap); };
	o.run = [f, enum_cap](std::size_t idx, bool rnd, std::uint64_t seed, bool only, std::string& out) -> std::string {
		Tup t;
		if (rnd) { Rng r(seed * 1000003ULL + idx); t = pick_rnd<Tup>(r, Seq{}); }
		else {
			std::size_t full = enum_size<Tup>(Seq{});
			if (full > enum_cap) { // sample the enumeration uniformly instead of taking a prefix
				Rng r(seed * 77003ULL + idx * 31 + 7); idx = r.below(full);
			}
			t = pick_enum<Tup>(idx, Seq{});
		}
		if (only) { out = print(t, Seq{}); return ""; }
		try { std::string m = std::apply(f, t); if (!m.empty()) out = print(t, Seq{}); return m; }
		catch (const Skip&) { out = "skip"; return ""; }
	};
	o.replay = [f](const std::vector<std::string>& v) -> std::string {
		Rng r(12345); int n = v.size() < std::tuple_size<Tup>::value ? 500 : 1;
		while (n--) {
			try { Tup t = parse<Tup>(v, r, Seq{}); std::string m = std::apply(f, t); if (!m.empty()) return m + " [" + print(t, Seq{}) + "]"; } catch (const Skip&) {}
		}
		return "";
	};
	ops().push_back(o);
	return true;
}
struct Shared { volatile std::size_t idx; volatile int rnd; volatile std::size_t done, skipped; volatile int failed; char msg[8192]; };

inline int main_(int argc, char** argv) {
	std::string mode = argc > 1 ? argv[1] : "run";
	if (mode == "list") { for (auto& o : ops()) std::cout << o.name << "\n"; return 0; }
	if (mode == "case") {
		for (auto& o : ops()) if (o.name == argv[2]) {
			std::vector<std::string> v(argv + 3, argv + argc);
			std::string m = o.replay(v);
			if (m.empty()) { std::cout << "OK " << o.name << "\n"; return 0; }
			std::cout << "FAIL " << o.name << " :: " << m << "\n"; return 1;
		}
		std::cout << "no such op\n"; return 2;
	}
	// run SEED SCALE op,op,... TIMEPEROP
	std::uint64_t seed = argc > 2 ? std::strtoull(argv[2], nullptr, 10) : 1;
	double scale = argc > 3 ? std::atof(argv[3]) : 1.0;
	std::string only = argc > 4 ? argv[4] : "";
	int tlimit = argc > 5 ? std::atoi(argv[5]) : 60;
	int shard = argc > 6 ? std::atoi(argv[6]) : 0, nshards = argc > 7 ? std::atoi(argv[7]) : 1;
	auto* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	int bad = 0; int k = 0;
	for (auto& o : ops()) {
		if (!only.empty() && only != "-") {
			bool hit = false; std::stringstream ss(only); std::string t;
			while (std::getline(ss, t, ',')) if (t == o.name || (!t.empty() && t.back() == '*' && o.name.compare(0, t.size() - 1, t, 0, t.size() - 1) == 0)) hit = true;
			if (!hit) continue;
		}
		if ((k++) % nshards != shard) continue;
		std::memset((void*)sh, 0, sizeof(Shared));
		pid_t pid = fork();
		if (pid == 0) {
			if (!freopen("/dev/null", "w", stderr)) {}
			std::size_t ne = (std::size_t)((double)o.n_enum() * (scale < 1 ? scale : 1.0)), nr = (std::size_t)((double)o.n_random * scale);
			struct rlimit lim{3UL << 30, 3UL << 30}; setrlimit(RLIMIT_AS, &lim); // a runaway case must not exhaust the machine
			alarm((unsigned)tlimit);
			signal(SIGALRM, SIG_DFL);
			for (int rnd = 0; rnd < 2; ++rnd) {
				std::size_t n = rnd ? nr : ne;
				for (std::size_t i = 0; i < n; ++i) {
					sh->idx = i; sh->rnd = rnd;
					std::string out;
					std::string m = o.run(i, rnd != 0, seed, false, out);
					if (out == "skip") sh->skipped = sh->skipped + 1;
					sh->done = sh->done + 1;
					if (!m.empty()) {
						std::string full = out + " :: " + m;
						std::strncpy((char*)sh->msg, full.c_str(), sizeof(sh->msg) - 1);
						sh->failed = 1; _exit(3);
					}
				}
			}
			_exit(0);
		}
		int st = 0;
		// watch for hangs: no progress for 12 s
		std::size_t last = (std::size_t)-1; int stuck = 0; bool hang = false; int us = 0;
		while (true) {
			pid_t r = waitpid(pid, &st, WNOHANG);
			if (r == pid) break;
			usleep(us < 20 ? 2000 : 50000); ++us;
			if (us % 20 == 0) {
				std::size_t cur = sh->done;
				if (cur == last) { if (++stuck >= 12) { hang = true; kill(pid, SIGKILL); } } else { stuck = 0; last = cur; }
			}
		}
		if (sh->failed) { std::cout << "FAIL " << o.name << " | " << (char*)sh->msg << std::endl; bad = 1; }
		else if (hang || (WIFSIGNALED(st) && WTERMSIG(st) != SIGALRM)) {
			std::string out; 
			pid_t p2 = fork();
			if (p2 == 0) { o.run(sh->idx, sh->rnd != 0, seed, true, out); std::strncpy((char*)sh->msg, out.c_str(), sizeof(sh->msg) - 1); _exit(0); }
			waitpid(p2, nullptr, 0);
			std::cout << "FAIL " << o.name << " | " << (char*)sh->msg << " :: " << (hang ? "no answer within 12 s" : "terminated by signal ") << (hang ? 0 : WTERMSIG(st)) << std::endl; bad = 1;
		}
		else std::cout << "OK " << o.name << " cases=" << (sh->done - sh->skipped) << " skipped=" << sh->skipped << (WIFSIGNALED(st) ? " (stopped at time limit)" : "") << std::endl;
	}
	return bad;
}
// generic arguments
template<> struct Arg<int> {
	static std::vector<int> all() { std::vector<int> v; for (int i = -4; i <= 5; ++i) v.push_back(i); return v; }
	static int gen(Rng& r) { return (int)r.in(-20, 20); }
	static std::string str(int i) { return std::to_string(i); }
	static int parse(const std::string& s) { return std::stoi(s); }
};
template<> struct Arg<bool> {
	static std::vector<bool> all() { return {false, true}; }
	static bool gen(Rng& r) { return r.coin(); }
	static std::string str(bool b) { return b ? "1" : "0"; }
	static bool parse(const std::string& s) { return s == "1"; }
};
template<> struct Arg<unsigned> {
	static std::vector<unsigned> all() { return {0, 1, 2, 3, 4, 5}; }
	static unsigned gen(Rng& r) { return (unsigned)r.below(12); }
	static std::string str(unsigned i) { return std::to_string(i); }
	static unsigned parse(const std::string& s) { return (unsigned)std::stoul(s); }
};
}
#define H_REG(id, ...) static bool h_reg_##id = hh::reg(__VA_ARGS__)
#define H_MAIN int main(int argc, char** argv) { return hh::main_(argc, argv); }
