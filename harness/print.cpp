// Entry points of the analysis of the printing part; never executed.
#include <floaxie/ftoa.h>
#include <string>

#define H_PRINT(F, C, SUF) \
	extern "C" std::size_t h_ftoa_##SUF(F v, C* buffer) { return floaxie::ftoa(v, buffer); }

// the same value printed with two character types
#define H_PAIR(F, S, C2, CS2) \
	extern "C" void h_pair_##S##_##CS2(F v, char* b1, C2* b2, std::size_t* l1, std::size_t* l2) \
	{ \
		*l1 = floaxie::ftoa(v, b1); \
		*l2 = floaxie::ftoa(v, b2); \
	}

// the same value printed to a buffer and to a string
#define H_STR(F, S, C, CS, NAME) \
	extern "C" void h_str_##S##_##CS(F v, C* b1, C* b2, std::size_t* l1, std::size_t* l2) \
	{ \
		*l1 = floaxie::ftoa(v, b1); \
		const std::basic_string<C> s(floaxie::NAME(v)); \
		*l2 = s.size(); \
		const C* const p = s.c_str(); \
		for (std::size_t i = 0; i <= s.size(); ++i) \
			b2[i] = p[i]; \
	}

#define H_ALL(F, S) \
	H_PRINT(F, char, S##_c) \
	H_PRINT(F, wchar_t, S##_w) \
	H_PRINT(F, char16_t, S##_u16) \
	H_PRINT(F, char32_t, S##_u32) \
	extern "C" const std::size_t h_max_buffer_size_##S = floaxie::max_buffer_size<F>(); \
	H_PAIR(F, S, wchar_t, w) \
	H_PAIR(F, S, char16_t, u16) \
	H_PAIR(F, S, char32_t, u32) \
	H_STR(F, S, char, c, to_string) \
	H_STR(F, S, wchar_t, w, to_wstring) \
	H_STR(F, S, char16_t, u16, to_u16string) \
	H_STR(F, S, char32_t, u32, to_u32string)

H_ALL(double, d)
H_ALL(float, f)
