// Entry points of the analysis of the parsing part; never executed.
#include <floaxie/atof.h>
#include <string>

#define ST(r) ((r).status == floaxie::conversion_status::success ? 0 : (r).status == floaxie::conversion_status::underflow ? 1 : (r).status == floaxie::conversion_status::overflow ? 2 : 3)

#define H_PARSE(F, FS, C, CS) \
	extern "C" F vp_fallback_##FS##_##CS(const C*, C**); \
	extern "C" void h_atof_##FS##_##CS(const C* s, C** e, F* v, unsigned char* st) \
	{ \
		const auto r(floaxie::atof<F>(s, e, vp_fallback_##FS##_##CS)); \
		*v = r.value; \
		*st = ST(r); \
	} \
	extern "C" void h_null_##FS##_##CS(const C* s, F* v, unsigned char* st) \
	{ \
		const auto r(floaxie::atof<F>(s, nullptr, vp_fallback_##FS##_##CS)); \
		*v = r; /* by conversion */ \
		*st = ST(r); \
	} \
	extern "C" void h_string_##FS##_##CS(const std::basic_string<C>& s, F* v, unsigned char* st) \
	{ \
		const auto r(floaxie::from_string<F>(s, vp_fallback_##FS##_##CS)); \
		*v = r; /* by conversion */ \
		*st = ST(r); \
	}

#define H_ALL(F, S) \
	H_PARSE(F, S, char, c) \
	H_PARSE(F, S, wchar_t, w) \
	H_PARSE(F, S, char16_t, u16) \
	H_PARSE(F, S, char32_t, u32)

H_ALL(double, d)
H_ALL(float, f)
