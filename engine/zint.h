// Exact integers: 127-bit fast path, GMP beyond.
#pragma once
#include <gmp.h>
#include <cstdint>
#include <cstdlib>
#include <string>
#include <utility>

typedef __int128 i128;
typedef unsigned __int128 u128;

class Z
{
	i128 v;
	__mpz_struct* p; // non-null: big value

	static void setI128(mpz_t r, i128 x)
	{
		bool neg = x < 0;
		u128 u = neg ? -(u128)x : (u128)x;
		uint64_t w[2] = { (uint64_t)u, (uint64_t)(u >> 64) };
		mpz_import(r, 2, -1, 8, 0, 0, w);
		if (neg) mpz_neg(r, r);
	}
	static bool fits(const mpz_t m) { return mpz_sizeinbase(m, 2) <= 126; }
	static i128 getI128(const mpz_t m)
	{
		uint64_t w[2] = { 0, 0 };
		mpz_export(w, nullptr, -1, 8, 0, 0, m);
		u128 u = ((u128)w[1] << 64) | w[0];
		return mpz_sgn(m) < 0 ? -(i128)u : (i128)u;
	}
	struct Tmp
	{
		mpz_t own; mpz_srcptr r; bool used;
		Tmp(const Z& z) : used(!z.p) { if (used) { mpz_init(own); setI128(own, z.v); r = own; } else r = z.p; }
		~Tmp() { if (used) mpz_clear(own); }
	};
	void take(mpz_t m) // consumes m
	{
		if (fits(m)) { v = getI128(m); p = nullptr; mpz_clear(m); }
		else { p = new __mpz_struct; *p = *m; v = 0; }
	}
	void drop() { if (p) { mpz_clear(p); delete p; p = nullptr; } }
public:
	Z() : v(0), p(nullptr) {}
	Z(int x) : v(x), p(nullptr) {}
	Z(long x) : v(x), p(nullptr) {}
	Z(long long x) : v(x), p(nullptr) {}
	Z(unsigned x) : v(x), p(nullptr) {}
	Z(unsigned long x) : v(x), p(nullptr) {}
	Z(i128 x) : v(x), p(nullptr) {}
	Z(const Z& o) : v(o.v), p(nullptr) { if (o.p) { p = new __mpz_struct; mpz_init_set(p, o.p); } }
	Z(Z&& o) noexcept : v(o.v), p(o.p) { o.p = nullptr; o.v = 0; }
	~Z() { drop(); }
	Z& operator=(const Z& o) { if (this != &o) { drop(); v = o.v; if (o.p) { p = new __mpz_struct; mpz_init_set(p, o.p); } } return *this; }
	Z& operator=(Z&& o) noexcept { std::swap(v, o.v); std::swap(p, o.p); return *this; }

	static Z pow2(unsigned n) { if (n < 126) return Z((i128)1 << n); mpz_t m; mpz_init(m); mpz_setbit(m, n); Z r; r.take(m); return r; }
	static Z pow10(unsigned n) { mpz_t m; mpz_init(m); mpz_ui_pow_ui(m, 10, n); Z r; r.take(m); return r; }
	static Z parse(const char* s) { mpz_t m; mpz_init_set_str(m, s, 10); Z r; r.take(m); return r; }

	bool isZero() const { return !p && v == 0; }
	bool isOne() const { return !p && v == 1; }
	int sgn() const { return p ? mpz_sgn(p) : (v > 0) - (v < 0); }
	bool fitsLong() const { return !p && v >= INT64_MIN && v <= INT64_MAX; }
	long toLong() const { if (!fitsLong()) abort(); return (long)v; }
	uint64_t toU64() const { if (p || v < 0 || v > (i128)UINT64_MAX) abort(); return (uint64_t)v; }
	bool fitsU64() const { return !p && v >= 0 && v <= (i128)UINT64_MAX; }
	double toDouble() const { if (!p) return (double)v; return mpz_get_d(p); }

	friend Z operator+(const Z& a, const Z& b)
	{
		i128 r;
		if (!a.p && !b.p && !__builtin_add_overflow(a.v, b.v, &r)) return Z(r);
		Tmp x(a), y(b); mpz_t m; mpz_init(m); mpz_add(m, x.r, y.r); Z q; q.take(m); return q;
	}
	friend Z operator-(const Z& a, const Z& b)
	{
		i128 r;
		if (!a.p && !b.p && !__builtin_sub_overflow(a.v, b.v, &r)) return Z(r);
		Tmp x(a), y(b); mpz_t m; mpz_init(m); mpz_sub(m, x.r, y.r); Z q; q.take(m); return q;
	}
	friend Z operator*(const Z& a, const Z& b)
	{
		i128 r;
		if (!a.p && !b.p && !__builtin_mul_overflow(a.v, b.v, &r)) return Z(r);
		Tmp x(a), y(b); mpz_t m; mpz_init(m); mpz_mul(m, x.r, y.r); Z q; q.take(m); return q;
	}
	friend Z operator-(const Z& a) { return Z(0) - a; }
	Z& operator+=(const Z& b) { return *this = *this + b; }
	Z& operator-=(const Z& b) { return *this = *this - b; }
	Z& operator*=(const Z& b) { return *this = *this * b; }
	friend int cmp(const Z& a, const Z& b)
	{
		if (!a.p && !b.p) return (a.v > b.v) - (a.v < b.v);
		Tmp x(a), y(b); int c = mpz_cmp(x.r, y.r); return (c > 0) - (c < 0);
	}
	friend bool operator<(const Z& a, const Z& b) { return cmp(a, b) < 0; }
	friend bool operator>(const Z& a, const Z& b) { return cmp(a, b) > 0; }
	friend bool operator<=(const Z& a, const Z& b) { return cmp(a, b) <= 0; }
	friend bool operator>=(const Z& a, const Z& b) { return cmp(a, b) >= 0; }
	friend bool operator==(const Z& a, const Z& b) { return cmp(a, b) == 0; }
	friend bool operator!=(const Z& a, const Z& b) { return cmp(a, b) != 0; }

	// floor division by positive d
	friend Z fdiv(const Z& a, const Z& d)
	{
		if (!a.p && !d.p) { i128 q = a.v / d.v; if (a.v % d.v < 0) --q; return Z(q); }
		Tmp x(a), y(d); mpz_t m; mpz_init(m); mpz_fdiv_q(m, x.r, y.r); Z q; q.take(m); return q;
	}
	friend Z cdiv(const Z& a, const Z& d) { return -fdiv(-a, d); }
	friend Z fmod(const Z& a, const Z& d) { return a - fdiv(a, d) * d; }
	friend Z abs(const Z& a) { return a.sgn() < 0 ? -a : a; }
	friend Z gcd(const Z& a, const Z& b)
	{
		if (!a.p && !b.p)
		{
			u128 x = a.v < 0 ? -(u128)a.v : a.v, y = b.v < 0 ? -(u128)b.v : b.v;
			if (!x) return Z((i128)y);
			if (!y) return Z((i128)x);
			if (!(x >> 64) && !(y >> 64)) { uint64_t s = x, t = y; while (t) { uint64_t u = s % t; s = t; t = u; } return Z((i128)s); }
			while (y) { u128 t = x % y; x = y; y = t; }
			return Z((i128)x);
		}
		Tmp x(a), y(b); mpz_t m; mpz_init(m); mpz_gcd(m, x.r, y.r); Z q; q.take(m); return q;
	}
	// exponent of 2 dividing the value (0 for 0 is treated as large)
	unsigned ctz() const
	{
		if (isZero()) return 1u << 20;
		Tmp x(*this); return mpz_scan1(x.r, 0);
	}
	unsigned bits() const { if (isZero()) return 0; Tmp x(*this); return mpz_sizeinbase(x.r, 2); }
	size_t hash() const { if (!p) return (size_t)((uint64_t)v * 0x9E3779B97F4A7C15ull ^ (uint64_t)((u128)v >> 64)); return mpz_get_ui(p) * 31 + mpz_size(p); }
	std::string str() const { Tmp x(*this); char* s = mpz_get_str(nullptr, 10, x.r); std::string r(s); free(s); return r; }
};
