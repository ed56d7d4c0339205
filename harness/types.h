// Argument kinds shared by the oracles.
#pragma once
#include "h.h"
#include <gmpxx.h>
namespace hh {
inline mpz_class rnd_mpz(Rng& r, int maxbits = 80) {
	int bits = (int)r.in(1, maxbits); mpz_class v = 0;
	for (int i = 0; i < bits; i += 30) { v <<= 30; v += (unsigned long)(r.next() >> 34); }
	mpz_class m = 1; m <<= bits; v %= m;
	return r.coin() ? v : mpz_class(-v);
}
template<> struct Arg<mpz_class> {
	static std::vector<mpz_class> all() { std::vector<mpz_class> v; for (int i = -7; i <= 7; ++i) v.push_back(i); v.push_back(mpz_class("123456789012345678901234567890")); v.push_back(mpz_class("-98765432109876543210")); return v; }
	static mpz_class gen(Rng& r) { return r.below(2) ? mpz_class((long)r.in(-40, 40)) : rnd_mpz(r); }
	static std::string str(const mpz_class& z) { return z.get_str(); }
	static mpz_class parse(const std::string& s) { return mpz_class(s); }
};
template<> struct Arg<mpq_class> {
	static std::vector<mpq_class> all() {
		std::vector<mpq_class> v;
		for (int n : {0, 1, -1, 2, -2, 3, -3}) v.push_back(n);
		for (int n : {1, -1, 3, -3}) v.push_back(mpq_class(n, 2));
		v.push_back(mpq_class(1, 3)); v.push_back(mpq_class(-5, 3));
		return v;
	}
	static mpq_class gen(Rng& r) {
		mpq_class q;
		switch (r.below(4)) {
			case 0: q = mpq_class((long)r.in(-6, 6)); break;
			case 1: q = mpq_class((long)r.in(-12, 12), (unsigned long)r.in(1, 6)); break;
			case 2: q = mpq_class((long)r.in(-1000, 1000), (unsigned long)r.in(1, 64)); break;
			default: q = mpq_class(rnd_mpz(r), abs(rnd_mpz(r)) + 1);
		}
		q.canonicalize(); return q;
	}
	static std::string str(const mpq_class& q) { return q.get_str(); }
	static mpq_class parse(const std::string& s) { mpq_class q(s); q.canonicalize(); return q; }
};
}
