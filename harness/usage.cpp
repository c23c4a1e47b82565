// Documented ways of using the library (README.md and the comments of the public functions).
// Compiled in several language versions, and linked symbolically: never run.
#include <functional>
#include <type_traits>
#include <iostream>
#include <string>
#include <cstdlib>
#include <cmath>
#include <floaxie/ftoa.h>
#include <floaxie/atof.h>

// the examples of README.md
namespace example1
{
	using namespace std;
	using namespace floaxie;
	int printing()
	{
		double pi = 0.1;
		char buffer[128];
		ftoa(pi, buffer);
		cout << "pi: " << pi << ", buffer: " << buffer << endl;
		return 0;
	}
	int parsing()
	{
		char str[] = "0.1";
		char* str_end;
		double pi = 0;
		pi = atof<double>(str, &str_end);
		cout << "pi: " << pi << ", str: " << str << ", str_end: " << str_end << endl;
		return 0;
	}
}

namespace fx = floaxie;
template<class F, class C> F ownFunction(const C*, C** e) { if (e) *e = nullptr; return F(); }
template<class F, class C> F ownNoexcept(const C*, C**) noexcept { return F(); }
template<class F, class C> struct Functor { F v; F operator()(const C*, C**) const { return v; } };
template<class F, class C> struct MutableFunctor { int calls = 0; F operator()(const C*, C**) { ++calls; return F(); } };
template<class F, class C> struct Loose { template<class E> F operator()(const C*, E) const { return F(); } };

template<class F, class C> void callables(const C* s, C** e, const std::basic_string<C>& str)
{
	F captured = 1;
	auto lambda = [captured](const C*, C**) { return captured; };
	std::function<F (const C*, C**)> any(lambda);
	F (*pointer)(const C*, C**) = ownFunction<F, C>;
	const Functor<F, C> functor { captured };
#define TRY(f) \
	static_assert(std::is_same<decltype(fx::atof<F>(s, e, f)), fx::value_and_status<F>>::value, "result"); \
	static_assert(std::is_same<decltype(fx::from_string<F>(str, f)), fx::value_and_status<F>>::value, "result"); \
	(void)fx::atof<F>(s, e, f); (void)fx::atof<F>(s, nullptr, f); (void)fx::from_string<F>(str, f);
	TRY(lambda)
	TRY(any)
	TRY(pointer)
	TRY(functor)
	TRY((MutableFunctor<F, C>()))
	TRY((Loose<F, C>()))
	TRY((ownFunction<F, C>))
	TRY((&ownFunction<F, C>))
	TRY((ownNoexcept<F, C>))
#undef TRY
}
template<class F, class C> void defaults(const C* s, C** e, const std::basic_string<C>& str)
{
	const fx::value_and_status<F> r = fx::atof<F>(s, e);
	const F v = fx::atof<F>(s, nullptr), w = fx::from_string<F>(str), x = r;
	static_assert(std::is_same<decltype(r.value), F>::value, "value");
	static_assert(std::is_same<decltype(r.status), fx::conversion_status>::value, "status");
	static_assert(std::is_convertible<fx::value_and_status<F>, F>::value, "a result converts to the number");
	static_assert(std::is_nothrow_default_constructible<fx::value_and_status<F>>::value, "an empty result");
	static_assert(noexcept(static_cast<F>(r)), "conversion to the number");
	(void)(v + w + x + std::abs(static_cast<F>(fx::atof<F>(s, e))));
	(void)(fx::atof<F>(s, e).status == fx::conversion_status::success);
	(void)(r.status == fx::conversion_status::underflow || r.status == fx::conversion_status::overflow);
}
template<class F, class C> void printing(F v)
{
	C buffer[fx::max_buffer_size<F>()];
	static_assert(sizeof buffer == fx::max_buffer_size<F>() * sizeof(C), "a constant");
	static_assert(fx::max_buffer_size<const F&>() == fx::max_buffer_size<F>() && fx::max_buffer_size<decltype(v)>() == fx::max_buffer_size<F>(), "qualifiers do not matter");
	static_assert(noexcept(fx::max_buffer_size<F>()), "a constant");
	static_assert(std::is_same<decltype(fx::ftoa(v, buffer)), std::size_t>::value, "the length");
	const F c = v;
	(void)fx::ftoa(c, buffer);
	(void)fx::ftoa(-v, buffer + 0);
	static_assert(std::is_same<decltype(fx::to_basic_string<F, C>(v)), std::basic_string<C>>::value, "a string");
	(void)fx::to_basic_string<F, C>(c);
}
void all(float f, double d)
{
	static_assert(std::is_same<decltype(fx::to_string(f)), std::string>::value && std::is_same<decltype(fx::to_string(d)), std::string>::value, "string");
	static_assert(std::is_same<decltype(fx::to_wstring(f)), std::wstring>::value && std::is_same<decltype(fx::to_wstring(d)), std::wstring>::value, "wstring");
	static_assert(std::is_same<decltype(fx::to_u16string(f)), std::u16string>::value && std::is_same<decltype(fx::to_u16string(d)), std::u16string>::value, "u16string");
	static_assert(std::is_same<decltype(fx::to_u32string(f)), std::u32string>::value && std::is_same<decltype(fx::to_u32string(d)), std::u32string>::value, "u32string");
	(void)fx::to_string(1.5f);
	printing<float, char>(f); printing<float, wchar_t>(f); printing<float, char16_t>(f); printing<float, char32_t>(f);
	printing<double, char>(d); printing<double, wchar_t>(d); printing<double, char16_t>(d); printing<double, char32_t>(d);
	callables<float, char>("", nullptr, ""); callables<double, char>("", nullptr, "");
	callables<float, wchar_t>(L"", nullptr, L""); callables<double, wchar_t>(L"", nullptr, L"");
	callables<float, char16_t>(u"", nullptr, u""); callables<double, char16_t>(u"", nullptr, u"");
	callables<float, char32_t>(U"", nullptr, U""); callables<double, char32_t>(U"", nullptr, U"");
	defaults<float, char>("", nullptr, ""); defaults<double, char>("", nullptr, "");
	defaults<float, wchar_t>(L"", nullptr, L""); defaults<double, wchar_t>(L"", nullptr, L"");
}
extern constexpr std::size_t sizes[] { fx::max_buffer_size<float>(), fx::max_buffer_size<double>() };
