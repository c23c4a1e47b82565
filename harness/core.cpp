// Specifications of the arithmetic core, in the vocabulary of the analyser.
#include <floaxie/diy_fp.h>
#include <floaxie/cached_power.h>
#include <floaxie/bit_ops.h>
#include <floaxie/default_fallback.h>
#include <floaxie/static_pow.h>
#include <floaxie/fraction.h>
#include <floaxie/grisu.h>
#include <floaxie/huge_val.h>
using namespace floaxie;
typedef unsigned __int128 u128;
extern "C" {
void vp_check(bool, const char*) noexcept;
void vp_assume(bool) noexcept;
unsigned long vp_any_u64() noexcept;
unsigned vp_any_u32() noexcept;
int vp_each(int, int) noexcept;
int vp_range(int, int) noexcept;
bool vp_choice() noexcept;
void vp_check_power(unsigned long, int, int, unsigned) noexcept;
}
template<class F> struct T;
template<> struct T<double> { typedef std::uint64_t U; typedef unsigned __int128 W; static U any() { return vp_any_u64(); } enum { mb = 52, emax = 2047, bias = 1075, w = 64 }; };
template<> struct T<float> { typedef std::uint32_t U; typedef unsigned __int128 W; static U any() { return vp_any_u32(); } enum { mb = 23, emax = 255, bias = 150, w = 32 }; };

// ---- powers
template<class F> void powers()
{
	int k = vp_each(powers_ten<F>::boundaries.first, powers_ten<F>::boundaries.second);
	diy_fp<F> p(cached_power<F>(k));
	vp_check_power(p.mantissa(), p.exponent(), k, T<F>::w);
}

// ---- decomposition
template<class F> void lossless()
{
	typedef typename T<F>::U U;
	const int ex = vp_each(0, T<F>::emax - 1);
	const U fr = T<F>::any();
	vp_assume(fr < (U(1) << T<F>::mb));
	const U bits = (U(ex) << T<F>::mb) + fr;
	const diy_fp<F> w(type_punning_cast<F>(bits));
	vp_check(w.mantissa() == (ex ? fr + (U(1) << T<F>::mb) : fr), "the significand is the one of the value");
	vp_check(w.exponent() == (ex ? ex : 1) - T<F>::bias, "the exponent is the one of the value");
	const diy_fp<F> m(type_punning_cast<F>(U(bits + (U(1) << (T<F>::w - 1)))));
	vp_check(m.mantissa() == w.mantissa() && m.exponent() == w.exponent(), "the sign is left out");
	vp_assume(w.mantissa() != 0);
	diy_fp<F> n(w);
	n.normalize();
	const auto r = n.downsample();
	vp_check(type_punning_cast<U>(r.value) == bits, "joining the parts again gives the value");
	vp_check(r.is_accurate, "joining the parts again is accurate");
	vp_check(r.status == conversion_status::success, "joining the parts again succeeds");
}
template<class F> void bounds()
{
	typedef typename T<F>::U U;
	const int ex = vp_each(0, T<F>::emax - 1);
	const U fr = T<F>::any();
	vp_assume(fr < (U(1) << T<F>::mb));
	vp_assume(ex || fr);
	const U bits = (U(ex) << T<F>::mb) + fr;
	const U f = ex ? fr + (U(1) << T<F>::mb) : fr;
	const int e = (ex ? ex : 1) - T<F>::bias;
	const auto b = diy_fp<F>::boundaries(type_punning_cast<F>(bits));
	vp_check(b.first.exponent() == b.second.exponent(), "both boundaries have the same exponent");
	const int up = e - 1 - b.second.exponent();
	vp_check(up >= 0 && up < T<F>::w, "the upper boundary is representable");
	vp_check(b.second.mantissa() == (u128(f) * 2 + 1) * (u128(1) << up), "the upper boundary is the midpoint to the next value");
	if (fr == 0 && ex > 1)
	{
		vp_check(up >= 1, "the lower boundary is representable");
		vp_check(b.first.mantissa() == (u128(f) * 4 - 1) * (u128(1) << (up - 1)), "the lower boundary is the midpoint to the previous value");
	}
	else vp_check(b.first.mantissa() == (u128(f) * 2 - 1) * (u128(1) << up), "the lower boundary is the midpoint to the previous value");
}

// ---- arithmetic
template<class F> void multiply()
{
	typedef typename T<F>::U U;
	// both factors are put together of their halves
	const U x0 = T<F>::any(), x1 = T<F>::any(), y0 = T<F>::any(), y1 = T<F>::any();
	const U part = U(1) << (T<F>::w / 2);
	vp_assume(x0 < part);
	vp_assume(x1 < part);
	vp_assume(y0 < part);
	vp_assume(y1 < part);
	const U x = x1 * part + x0, y = y1 * part + y0;
	diy_fp<F> a(x, vp_range(-5000, 5000)), b(y, vp_range(-5000, 5000));
	const diy_fp<F> p = a * b;
	const u128 exact = u128(x) * u128(y);
	const u128 got = u128(p.mantissa()) * (u128(1) << T<F>::w), half = u128(1) << (T<F>::w - 1);
	vp_check(got + half >= exact, "the product isn't more than a half below");
	vp_check(got <= exact + half, "the product isn't more than a half above");
	vp_check(p.exponent() == a.exponent() + b.exponent() + T<F>::w, "exponents are added");
	vp_check(a.mantissa() == x, "factors are left alone");
	a *= b;
	vp_check(a.mantissa() == p.mantissa() && a.exponent() == p.exponent(), "both forms of multiplication agree");
}
template<class F> void steps()
{
	typedef typename T<F>::U U;
	const U x = T<F>::any();
	const int e = vp_range(-5000, 5000);
	const diy_fp<F> a(x, e);
	const U top = ~U(0);
	{
		diy_fp<F> i(a);
		const diy_fp<F> r = ++i;
		if (x == top) vp_check(i.mantissa() == (top >> 1) + 1 && i.exponent() == e + 1, "increment carries into the exponent");
		else vp_check(i.mantissa() == x + 1 && i.exponent() == e, "increment moves to the next value");
		vp_check(r.mantissa() == i.mantissa() && r.exponent() == i.exponent(), "increment returns the new value");
		diy_fp<F> j(a);
		const diy_fp<F> o = j++;
		vp_check(o.mantissa() == x && o.exponent() == e, "postfix increment returns the old value");
		vp_check(j.mantissa() == i.mantissa() && j.exponent() == i.exponent(), "both increments agree");
	}
	if (x >= 2)
	{
		diy_fp<F> i(a);
		const diy_fp<F> r = --i;
		vp_check(i.mantissa() == x - 1 && i.exponent() == e, "decrement moves to the previous value");
		vp_check(r.mantissa() == i.mantissa() && r.exponent() == i.exponent(), "decrement returns the new value");
		diy_fp<F> j(a);
		const diy_fp<F> o = j--;
		vp_check(o.mantissa() == x && o.exponent() == e, "postfix decrement returns the old value");
		vp_check(j.mantissa() == i.mantissa() && j.exponent() == i.exponent(), "both decrements agree");
	}
	const U y = T<F>::any();
	vp_assume(x >= y);
	const diy_fp<F> d = a - diy_fp<F>(y, e);
	vp_check(d.mantissa() == x - y && d.exponent() == e, "difference is exact");
	const int g = vp_range(-5000, 5000);
	const diy_fp<F> other(y, g);
	vp_check((a == other) == (x == y && e == g), "equality compares both parts");
	vp_check((a != other) == (x != y || e != g), "inequality compares both parts");
}
template<class F> void normal()
{
	typedef typename T<F>::U U;
	const int n = vp_each(0, T<F>::w - 1); // leading zeros
	const U x = T<F>::any();
	const int e = vp_range(-5000, 5000);
	vp_assume(x >= (U(1) << (T<F>::w - 1 - n)));
	if (n) vp_assume(x < (u128(1) << (T<F>::w - n)));
	diy_fp<F> a(x, e);
	vp_check(a.is_normalized() == (n == 0), "normalized values are told from others");
	a.normalize();
	vp_check(a.mantissa() == U(x << n) && a.exponent() == e - n, "normalization keeps the value");
	vp_check(a.mantissa() >= (U(1) << (T<F>::w - 1)), "normalization raises the highest bit");
}

// ---- rounding
template<class U> U any_of();
template<> std::uint64_t any_of<std::uint64_t>() { return vp_any_u64(); }
template<> std::uint32_t any_of<std::uint32_t>() { return vp_any_u32(); }
template<> unsigned char any_of<unsigned char>() { unsigned x = vp_any_u32(); vp_assume(x < 256); return x; }
// a value of w bits, which n lowest ones are to be dropped, put together of its parts
template<class U, int w> struct Parts
{
	u128 kept = 0, tail = 0, half = 1;
	bool odd = false;
	U x = 0;
	explicit Parts(int n)
	{
		half = u128(1) << (n - 1);
		const bool b = vp_choice();
		const u128 rest = any_of<U>();
		vp_assume(rest < half);
		tail = (b ? half : 0) + rest;
		if (n < w)
		{
			odd = vp_choice();
			const u128 k = any_of<U>();
			vp_assume(k < (u128(1) << (w - n - 1)));
			kept = k * 2 + odd;
		}
		x = U(kept * (half * 2) + tail);
	}
};
template<class U, int w, int top> void rounding()
{
	const int n = vp_each(1, top);
	const Parts<U, w> p(n);
	const round_result r = round_up(p.x, n);
	vp_check(r.value == (p.tail > p.half || (p.tail == p.half && p.odd)), "rounds to the nearest, ties to even");
	vp_check(r.is_accurate == (p.tail != p.half), "only ties are reported as uncertain");
}
// f * 2^e, the error of f being err
template<class F> void sample(int lo, int hi)
{
	typedef typename T<F>::U U;
	const int e = vp_each(lo, hi);
	const U err(vp_range(1, 16));
	const U inf = U(T<F>::emax) << T<F>::mb;
	if (e + T<F>::w > T<F>::emax - T<F>::bias + T<F>::mb) // f * 2^e >= 2^max_exponent
	{
		const U f = T<F>::any();
		vp_assume(f >= (U(1) << (T<F>::w - 1)));
		diy_fp<F> w(f, e);
		const auto r = w.downsample(err);
		vp_check(type_punning_cast<U>(r.value) == inf, "too large values are infinite");
		vp_check(r.status == conversion_status::overflow, "too large values are overflow");
		vp_check(r.is_accurate, "too large values are certain");
		return;
	}
	// bits to drop: e + n is the exponent of the unit of the result
	const int least = 1 - T<F>::bias;
	int n = T<F>::w - 1 - T<F>::mb;
	if (e + n < least) n = least - e;
	if (n > T<F>::w)
	{
		const U f = T<F>::any();
		vp_assume(f >= (U(1) << (T<F>::w - 1)));
		diy_fp<F> w(f, e);
		const auto r = w.downsample(err);
		vp_check(type_punning_cast<U>(r.value) == 0, "too small values are zero");
		vp_check(r.status == conversion_status::underflow, "too small values are underflow");
		// half of the least value is above 2^w - err, only when it's 2^w
		const bool sure = n > T<F>::w + 1 || (u128(1) << T<F>::w) - f >= err;
		vp_check(r.is_accurate == sure, "uncertain exactly when the error could change the decision");
		return;
	}
	const Parts<U, T<F>::w> p(n);
	vp_assume(p.x >= (U(1) << (T<F>::w - 1)));
	diy_fp<F> w(p.x, e);
	const auto r = w.downsample(err);
	const U got = type_punning_cast<U>(r.value);
	const bool up = p.tail > p.half || (p.tail == p.half && p.odd);
	// the kept part includes the hidden bit, which adds one to the exponent field
	const U field(e + n - least);
	const U want = U(field << T<F>::mb) + U(p.kept) + U(up);
	const u128 dist = p.tail > p.half ? p.tail - p.half : p.half - p.tail;
	vp_check(got == want, "rounds to the nearest, ties to even");
	vp_check(r.is_accurate == (dist >= err), "uncertain exactly when the error could change the decision");
	vp_check(r.status == (want == 0 ? conversion_status::underflow : want == inf ? conversion_status::overflow : conversion_status::success), "status of the rounded value");
}

// ---- helpers
// scaling of a value by the power chosen for it
template<class F> void scaling()
{
	typedef typename T<F>::U U;
	constexpr int alpha = grisu_parameters<F>.alpha, gamma = grisu_parameters<F>.gamma;
	vp_check(gamma <= -int(T<F>::w / 2) && alpha < gamma && alpha > -int(T<F>::w), "range of the algorithm");
	const int ex = vp_each(1 - T<F>::mb, T<F>::emax - 1); // down to the least subnormal value
	const int e = ex + T<F>::mb - T<F>::bias - T<F>::w + 1; // exponent of a normalized significand
	const int mk = k_comp_exp<alpha, gamma>(e);
	vp_check(mk >= powers_ten<F>::boundaries.first && mk <= powers_ten<F>::boundaries.second, "the power is in the table");
	const diy_fp<F> c(cached_power<F>(mk));
	vp_check(e + c.exponent() + T<F>::w >= alpha, "the scaled value isn't below the range of the algorithm");
	vp_check(e + c.exponent() + T<F>::w <= gamma, "the scaled value isn't above the range of the algorithm");
	diy_fp<F> w(vp_any_u64() ? U(1) << (T<F>::w - 1) : ~U(0), e);
	w *= c;
	vp_check(w.exponent() == e + c.exponent() + T<F>::w, "exponents are added");
}
template<class U, U base, std::size_t top> void sequence()
{
	const int k = vp_each(0, top);
	u128 want = 1;
	for (int i = 0; i < k; ++i) want *= base;
	vp_check(seq_pow<U, base, top>(k) == want, "powers are exact");
}
template<unsigned base, unsigned... n> void statics(std::integer_sequence<unsigned, n...>)
{
	const unsigned long got[] { static_pow<base, n>()... };
	u128 want = 1;
	for (unsigned long x : got) { vp_check(x == want, "powers are exact"); want *= base; }
}
void kappas()
{
	const unsigned n = vp_any_u32();
	const kappa_pair_type r = calculate_kappa_div(n);
	u128 p = 1;
	unsigned k = 1;
	for (; k < 10; ++k)
	{
		if (n < p * 10) break;
		p *= 10;
	}
	vp_check(r.first == k && r.second == p, "the highest power of ten not above the value, and the count of its digits");
}
// binary fraction of a decimal one
void fraction()
{
	const unsigned v = vp_each(0, 9999);
	const unsigned f = convert_numerator<4, 7>(v);
	vp_check(f < 128, "the fraction has seven bits");
	vp_check(f * 10000 <= v * 128 + 10000, "the fraction isn't more than a unit above");
	vp_check(f * 10000 + 10000 >= v * 128, "the fraction isn't more than a unit below");
}
template<class U, int w> void bits()
{
	const int n = vp_each(0, w);
	const U all = U(~U(0));
	vp_check(mask<U>(n) == (n == w ? all : U((u128(1) << n) - 1)), "masks cover the lowest bits");
	vp_check(bit_size<U>() == w, "width");
	if (n == w) return;
	vp_check(raised_bit<U>(n) == U(u128(1) << n), "single bits");
	// a value put together of the bits above, the bit and the bits below
	const bool b = vp_choice();
	const U lo = any_of<U>(), hi = any_of<U>();
	vp_assume(lo < (u128(1) << n));
	vp_assume(hi < (u128(1) << (w - 1 - n)));
	const U x = U((u128(hi) * 2 + b) * (u128(1) << n) + lo);
	vp_check(nth_bit(x, n) == b, "tests of a single bit");
	if (n == w - 1) vp_check(highest_bit(x) == b, "test of the highest bit");
	const int i = vp_range(-100000, 100000);
	vp_check(positive_part(i) == unsigned(i > 0 ? i : 0), "positive part");
	vp_check(constexpr_abs(i) == (i > 0 ? i : -i), "absolute value");
}
template<class F> void huge()
{
	typedef typename T<F>::U U;
	vp_check(type_punning_cast<U>(huge_value<F>()) == U(T<F>::emax) << T<F>::mb, "the huge value is infinity");
	vp_check((msb_value<F, U>()) == U(1) << (T<F>::w - 1), "the highest bit");
	vp_check((max_integer_value<F, U>()) == U(~U(0)), "the highest value");
}

extern "C" {
void h_scaling_d() { scaling<double>(); }
void h_scaling_f() { scaling<float>(); }
void h_seq_64() { sequence<std::uint64_t, 10, 19>(); }
void h_seq_32() { sequence<std::uint32_t, 10, 9>(); }
void h_seq_4() { sequence<unsigned int, 10, 4>(); }
void h_seq_2() { sequence<unsigned int, 2, 31>(); }
void h_static() { statics<10>(std::make_integer_sequence<unsigned, 10>()); statics<2>(std::make_integer_sequence<unsigned, 32>()); }
void h_kappas() { kappas(); }
void h_fraction() { fraction(); }
void h_bits_64() { bits<std::uint64_t, 64>(); }
void h_bits_32() { bits<std::uint32_t, 32>(); }
void h_bits_8() { bits<unsigned char, 8>(); }
void h_huge() { huge<double>(); huge<float>(); }
void h_powers_d() { powers<double>(); }
void h_powers_f() { powers<float>(); }
void h_lossless_d() { lossless<double>(); }
void h_lossless_f() { lossless<float>(); }
void h_bounds_d() { bounds<double>(); }
void h_bounds_f() { bounds<float>(); }
void h_multiply_d() { multiply<double>(); }
void h_multiply_f() { multiply<float>(); }
void h_steps_d() { steps<double>(); }
void h_steps_f() { steps<float>(); }
void h_normal_d() { normal<double>(); }
void h_normal_f() { normal<float>(); }
void h_round_64() { rounding<std::uint64_t, 64, 64>(); }
void h_round_32() { rounding<std::uint32_t, 32, 32>(); }
void h_round_8() { rounding<unsigned char, 8, 8>(); }
void h_sample_d() { sample<double>(-1400, 1100); }
void h_sample_f() { sample<float>(-300, 200); }
double h_fallback_d_c(const char* s, char** e) { return default_fallback<double, char>(s, e); }
float h_fallback_f_c(const char* s, char** e) { return default_fallback<float, char>(s, e); }
long double h_fallback_l_c(const char* s, char** e) { return default_fallback<long double, char>(s, e); }
double h_fallback_d_w(const wchar_t* s, wchar_t** e) { return default_fallback<double, wchar_t>(s, e); }
float h_fallback_f_w(const wchar_t* s, wchar_t** e) { return default_fallback<float, wchar_t>(s, e); }
long double h_fallback_l_w(const wchar_t* s, wchar_t** e) { return default_fallback<long double, wchar_t>(s, e); }
}
