// instantiation unit: printing through an opaque output iterator
#include <cstddef>
#include <utility>
#include <concepts>
namespace vu
{
	template <typename E> struct Rng { const E* b; const E* e; const E* begin() const { return b; } const E* end() const { return e; } };
	struct U { int data; };                                        // custom printer
	struct UT { int a; U b; };                                     // custom printer, tuple-like
	struct FT { int a; U b; };                                     // tuple-like, formattable
	struct TR : Rng<U> { U x, y; };                                // tuple-like, range
}
namespace std
{
	template <size_t i, typename T> requires same_as<T, vu::FT> || same_as<T, vu::UT> const auto& get(const T& t) { if constexpr (i == 0) return t.a; else return t.b; }
	template <size_t i, same_as<vu::TR> T> const auto& get(const T& t) { if constexpr (i == 0) return t.x; else return t.y; }
}
#include <span>
#include <list>
#include "mimic++/mimic++.hpp"
namespace vu
{
	using namespace mimicpp;
	struct Out { using difference_type = std::ptrdiff_t; struct Ref { const Ref& operator=(const char&) const; }; Ref operator*() const; Out& operator++(); Out operator++(int); long pos; };
	static_assert(print_iterator<Out>);
	struct UF { int data; };                                       // custom printer, formattable
	struct UR : Rng<U> {};                                         // custom printer, range
	struct F { int data; };                                        // formattable
	struct FR : Rng<U> {};                                         // range, formattable
	struct N { int data; };                                        // nothing of all that
	enum class E { x };
}
template <> struct std::tuple_size<vu::UT> : std::integral_constant<std::size_t, 2> {}; template <> struct std::tuple_size<vu::FT> : std::integral_constant<std::size_t, 2> {}; template <> struct std::tuple_size<vu::TR> : std::integral_constant<std::size_t, 2> {};
template <typename T> struct Opaque { constexpr auto parse(auto& c) { return c.begin(); } auto format(const T&, auto& c) const -> decltype(c.out()); };
template <> struct std::formatter<vu::F> : Opaque<vu::F> {}; template <> struct std::formatter<vu::UF> : Opaque<vu::UF> {}; template <> struct std::formatter<vu::FR> : Opaque<vu::FR> {}; template <> struct std::formatter<vu::FT> : Opaque<vu::FT> {};
#define CUSTOM(T) template <> struct mimicpp::custom::Printer<T> { static vu::Out print(vu::Out out, const T&); };
CUSTOM(vu::U) CUSTOM(vu::UF) CUSTOM(vu::UR) CUSTOM(vu::UT) CUSTOM(char16_t)
namespace vu
{
#define PRT(N, ...) using N##_T = __VA_ARGS__; Out N##_c(Out o, const N##_T& t) { return print(o, t); } Out N##_l(Out o, N##_T& t) { return print(o, t); } Out N##_r(Out o, N##_T& t) { return print(o, std::move(t)); }
	PRT(u, U) PRT(uf, UF) PRT(ur, UR) PRT(ut, UT) PRT(f, F) PRT(fr, FR) PRT(ft, FT) PRT(tr, TR) PRT(n, N) PRT(e, E) PRT(i, int) PRT(b, bool) PRT(ch, char) PRT(sz, std::size_t) PRT(cat, ValueCategory) PRT(con, Constness)
	PRT(p, int*) PRT(pc, const U*) PRT(pv, void*) PRT(np, std::nullptr_t)
	PRT(tup, std::tuple<U, N, F, int>) PRT(t0, std::tuple<>) PRT(pr, std::pair<F, U>) PRT(arr, std::array<U, 3>)
	PRT(opt, std::optional<U>) PRT(optf, std::optional<F>) PRT(optt, std::optional<std::pair<U, F>>) PRT(no, std::nullopt_t)
	PRT(vu_, std::vector<U>) PRT(vf, std::vector<F>) PRT(vn, std::vector<N>) PRT(vi, std::vector<int>) PRT(sp, std::span<const U>) PRT(rg, Rng<F>) PRT(vv, std::vector<std::vector<U>>) PRT(vt, std::vector<std::tuple<U, F>>) PRT(vo, std::vector<std::optional<U>>)
	PRT(s, std::string) PRT(sv, std::string_view) PRT(cs, const char*) PRT(ws, std::wstring) PRT(wv, std::wstring_view) PRT(u16, std::u16string_view) PRT(u8, std::u8string_view) PRT(u32, std::u32string_view)
	PRT(loc, std::source_location)
	std::string str_c(const U& t) { return print(t); } std::string str_l(U& t) { return print(t); } std::string str_r(U& t) { return print(std::move(t)); }
	const void* tup_0(const tup_T& t) { return &std::get<0>(t); } const void* tup_1(const tup_T& t) { return &std::get<1>(t); } const void* tup_2(const tup_T& t) { return &std::get<2>(t); } const void* tup_3(const tup_T& t) { return &std::get<3>(t); }
	const void* pr_0(const pr_T& t) { return &t.first; } const void* pr_1(const pr_T& t) { return &t.second; }
	const void* arr_0(const arr_T& t) { return &t[0]; } const void* arr_1(const arr_T& t) { return &t[1]; } const void* arr_2(const arr_T& t) { return &t[2]; }
	const void* ft_0(const FT& t) { return &t.a; } const void* ft_1(const FT& t) { return &t.b; } const void* tr_0(const TR& t) { return &t.x; } const void* tr_1(const TR& t) { return &t.y; }
	const void* opt_v(const opt_T& t) { return &*t; } const void* optf_v(const optf_T& t) { return &*t; } const void* optt_v(const optt_T& t) { return &*t; }
	std::format_context::iterator cat_text(const std::formatter<ValueCategory>& f, ValueCategory c, std::format_context& x) { return f.format(c, x); } std::format_context::iterator con_text(const std::formatter<Constness>& f, Constness c, std::format_context& x) { return f.format(c, x); }
	int cat_is_lvalue() { return (int)ValueCategory::lvalue; } int cat_is_rvalue() { return (int)ValueCategory::rvalue; } int cat_is_any() { return (int)ValueCategory::any; } int con_is_mutable() { return (int)Constness::non_const; } int con_is_const() { return (int)Constness::as_const; } int con_is_any() { return (int)Constness::any; }
}
