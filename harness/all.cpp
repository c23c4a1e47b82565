// Every entry point with every supported type; analysed, never executed.
#include <floaxie/ftoa.h>
#include <floaxie/atof.h>
#include <string>

#define PRINT(F, FS, C, CS) \
	extern "C" std::size_t api_ftoa_##FS##_##CS(F v, C* b) { return floaxie::ftoa(v, b); }
#define PARSE(F, FS, C, CS) \
	extern "C" void api_atof_##FS##_##CS(const C* s, C** e, floaxie::value_and_status<F>* r) { *r = floaxie::atof<F>(s, e); } \
	extern "C" void api_atof_null_##FS##_##CS(const C* s, floaxie::value_and_status<F>* r) { *r = floaxie::atof<F>(s, nullptr); } \
	extern "C" void api_from_string_##FS##_##CS(const std::basic_string<C>& s, floaxie::value_and_status<F>* r) { *r = floaxie::from_string<F>(s); }
#define PARSE_FB(F, FS, C, CS) \
	extern "C" void api_atof_fb_##FS##_##CS(const C* s, C** e, floaxie::value_and_status<F>* r, F (*fb)(const C*, C**)) { *r = floaxie::atof<F>(s, e, fb); } \
	extern "C" void api_atof_fb_null_##FS##_##CS(const C* s, floaxie::value_and_status<F>* r, F (*fb)(const C*, C**)) { *r = floaxie::atof<F>(s, nullptr, fb); } \
	extern "C" void api_from_string_fb_##FS##_##CS(const std::basic_string<C>& s, floaxie::value_and_status<F>* r, F (*fb)(const C*, C**)) { *r = floaxie::from_string<F>(s, fb); }
#define TYPES(F, FS) \
	PRINT(F, FS, char, c) PRINT(F, FS, wchar_t, w) PRINT(F, FS, char16_t, u16) PRINT(F, FS, char32_t, u32) \
	PARSE(F, FS, char, c) PARSE(F, FS, wchar_t, w) \
	PARSE_FB(F, FS, char, c) PARSE_FB(F, FS, wchar_t, w) PARSE_FB(F, FS, char16_t, u16) PARSE_FB(F, FS, char32_t, u32) \
	extern "C" void api_to_string_##FS(F v, std::string* r) { *r = floaxie::to_string(v); } \
	extern "C" void api_to_wstring_##FS(F v, std::wstring* r) { *r = floaxie::to_wstring(v); } \
	extern "C" void api_to_u16string_##FS(F v, std::u16string* r) { *r = floaxie::to_u16string(v); } \
	extern "C" void api_to_u32string_##FS(F v, std::u32string* r) { *r = floaxie::to_u32string(v); } \
	extern "C" std::size_t api_max_buffer_size_##FS() { return floaxie::max_buffer_size<F>(); }

TYPES(double, d)
TYPES(float, f)
