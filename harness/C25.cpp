// FLAGS: -fsanitize=undefined -fno-sanitize-recover=undefined
#include <array>
#include <deque>
#include <list>
#include <map>
#include <random>
#include <set>
#include "h.hpp"
using namespace mimicpp;
// the oracle: what each value is to look like
struct U { int v; }; struct UF { int v; }; struct UR : std::vector<int> { using std::vector<int>::vector; }; struct UT { int a, b; }; struct F { int v; }; struct FR : std::vector<int> { using std::vector<int>::vector; }; struct N { int v; }; enum class E { x };
struct CO { int v; };                                                       // a custom printer that takes lvalues and rvalues
template <> struct mimicpp::custom::Printer<U> { static auto print(auto out, const U& u) { return std::format_to(std::move(out), "U{}", u.v); } };
template <> struct mimicpp::custom::Printer<UF> { static auto print(auto out, const UF& u) { return std::format_to(std::move(out), "UF{}", u.v); } };
template <> struct mimicpp::custom::Printer<UR> { static auto print(auto out, const UR& u) { return std::format_to(std::move(out), "UR{}", u.size()); } };
template <> struct mimicpp::custom::Printer<std::pair<long, long>> { static auto print(auto out, const std::pair<long, long>& u) { return std::format_to(std::move(out), "{}~{}", u.first, u.second); } };
template <> struct mimicpp::custom::Printer<char16_t> { static auto print(auto out, const char16_t c) { return std::format_to(std::move(out), "<{}>", (int)c); } };
template <> struct std::formatter<F> { constexpr auto parse(auto& c) { return c.begin(); } auto format(const F& f, auto& c) const { return std::format_to(c.out(), "F{}", f.v); } };
template <> struct std::formatter<UF> : std::formatter<F> { auto format(const UF&, auto& c) const { return std::format_to(c.out(), "wrong"); } };
template <> struct std::formatter<FR> : std::formatter<F> { auto format(const FR&, auto& c) const { return std::format_to(c.out(), "wrong"); } };
using S = std::string;
S want(const U& u) { return "U" + std::to_string(u.v); } S want(const UF& u) { return "UF" + std::to_string(u.v); } S want(const UR& u) { return "UR" + std::to_string(u.size()); } S want(const F& u) { return "F" + std::to_string(u.v); } S want(const N&) { return "{?}"; } S want(E) { return "{?}"; } S want(std::monostate) { return "{?}"; }
S want(int i) { return std::to_string(i); } S want(unsigned i) { return std::to_string(i); } S want(long i) { return std::to_string(i); } S want(unsigned long i) { return std::to_string(i); } S want(bool b) { return b ? "true" : "false"; } S want(char c) { return S(1, c); } S want(ValueCategory c) { return c == ValueCategory::lvalue ? "lvalue" : c == ValueCategory::rvalue ? "rvalue" : "any"; } S want(Constness c) { return c == Constness::as_const ? "const" : c == Constness::non_const ? "mutable" : "any"; }
S want(std::nullopt_t) { return "nullopt"; } S hex(unsigned long v) { char b[32]; std::snprintf(b, 32, "0x%lx", v); return b; }
S want(std::nullptr_t) { return "0x" + S(16, '0'); } template <typename T> S want(T* p) { char b[32]; std::snprintf(b, 32, "0x%016lx", (unsigned long)(std::uintptr_t)p); return b; }
S want(const char* s) { return S("\"") + s + "\""; } S want(const S& s) { return "\"" + s + "\""; } S want(std::string_view s) { return "\"" + S(s) + "\""; }
template <typename C> S dump(const char* pre, std::basic_string_view<C> s) { S r = pre + S("\""); bool first = true; for (C c : s) { if constexpr (std::same_as<C, char16_t>) r += "<" + std::to_string((int)c) + ">"; else { if (!first) r += ", "; r += hex(sizeof(C) == 1 ? (unsigned long)(unsigned char)c : (unsigned long)(unsigned)c); } first = false; } return r + "\""; }
S want(const std::wstring& s) { return dump<wchar_t>("L", s); } S want(std::u8string_view s) { return dump("u8", s); } S want(const std::u8string& s) { return dump<char8_t>("u8", s); } S want(std::u16string_view s) { return dump("u", s); } S want(const std::u32string& s) { return dump<char32_t>("U", s); } S want(const wchar_t* s) { return dump<wchar_t>("L", s); }
S want(const std::source_location& l) { return S(l.file_name()) + "[" + std::to_string(l.line()) + ":" + std::to_string(l.column()) + "], " + l.function_name(); }
S want(const std::pair<long, long>& p) { return std::to_string(p.first) + "~" + std::to_string(p.second); }
template <typename T> S want(const std::optional<T>& o); template <typename... T> S want(const std::tuple<T...>& t); template <typename A, typename B> S want(const std::pair<A, B>& t); template <std::ranges::forward_range R> S want(const R& r);
template <typename T, std::size_t n> S want(const std::array<T, n>& a);
template <typename T> S want(const std::optional<T>& o) { return o ? "{ value: " + want(*o) + " }" : "nullopt"; }
template <typename... T> S want(const std::tuple<T...>& t) { S r = "{ "; bool first = true; std::apply([&](const auto&... x) { ((r += (first ? "" : ", ") + want(x), first = false), ...); }, t); return r + " }"; }
template <typename A, typename B> S want(const std::pair<A, B>& t) { return "{ " + want(t.first) + ", " + want(t.second) + " }"; }
template <typename T, std::size_t n> S want(const std::array<T, n>& a) { S r = "{ "; bool first = true; for (auto& x : a) r += (first ? "" : ", ") + want(x), first = false; return r + " }"; }
template <std::ranges::forward_range R> S want(const R& r) { S s = "{ "; bool first = true; for (auto&& x : r) s += (first ? "" : ", ") + want(x), first = false; return s + " }"; }
// an output iterator that only holds a position: what is written past a stale copy of it overwrites
struct At { using difference_type = std::ptrdiff_t; S* s; std::size_t p; struct Ref { S* s; std::size_t p; const Ref& operator=(const char& c) const { if (s->size() <= p) s->resize(p + 1, '\1'); (*s)[p] = c; return *this; } }; Ref operator*() const { return {s, p}; } At& operator++() { ++p; return *this; } At operator++(int) { At t = *this; ++p; return t; } };
template <typename T> void see(const char* what, T v)
{
	const S w = want(v); g_ctx = S("printing ") + what + " that should read " + w.substr(0, 300);
	T a = v, b = v; const T c = v;
	CHECK(mimicpp::print(a) == w); CHECK(mimicpp::print(c) == w); CHECK(mimicpp::print(std::move(b)) == w); CHECK(want(a) == w);
	S o; mimicpp::print(std::back_inserter(o), a); mimicpp::print(std::back_inserter(o), c); T d = v; mimicpp::print(std::back_inserter(o), std::move(d)); CHECK(o == w + w + w);
	S q; At e = mimicpp::print(At{&q, 0}, a); CHECK(q == w); e = mimicpp::print(e, c); CHECK(e.p == 2 * w.size()); CHECK(q == w + w);
	std::ostringstream ss; ss << "before "; mimicpp::print(std::ostreambuf_iterator{ss}, a); ss << " after"; CHECK(ss.str() == "before " + w + " after");
	if constexpr (std::copyable<T>) { std::vector<T> xs; for (int i = 0; i < 4; ++i) { if constexpr (!std::same_as<T, bool>) { const S x = want(xs); g_ctx = S("printing a range of ") + std::to_string(i) + " " + what; CHECK(mimicpp::print(xs) == x); S y; CHECK(mimicpp::print(At{&y, 0}, xs).p == x.size()); CHECK(y == x); xs.push_back(v); } } g_ctx = S("printing a structure with ") + what; auto t = std::tuple{v, 1, v}; CHECK(mimicpp::print(t) == want(t)); } if constexpr (std::copyable<T> && !std::same_as<T, std::nullopt_t>) { auto t = std::pair{std::optional<T>{v}, 1}; CHECK(mimicpp::print(t) == want(t)); std::optional<T> n; CHECK(mimicpp::print(n) == "nullopt"); }
}
int main()
{
	std::mt19937 r{7}; auto n = [&](int k) { return (int)(r() % (unsigned)k); };
	see("a custom printed type", U{3}); see("a custom printed and formattable type", UF{4}); see("a custom printed range", UR{1, 2}); see("a custom printed pair", std::pair<long, long>{1, 2}); see("a formattable type", F{7}); see("an unprintable type", N{1}); see("an unprintable enum", E::x); see("monostate", std::monostate{}); see("a formattable range", FR{}); see("a formattable range", FR{1}); see("a formattable range", FR{1, 2, 3});
	see("true", true); see("false", false); for (int c = 32; c < 127; ++c) see("a char", (char)c); for (auto c : {ValueCategory::lvalue, ValueCategory::rvalue, ValueCategory::any}) see("a category", c); for (auto c : {Constness::as_const, Constness::non_const, Constness::any}) see("a constness", c);
	see("nullopt", std::nullopt); see("nullptr", nullptr); int x{}; see("a pointer", &x); see("a pointer", (const int*)&x); see("a null pointer", (int*)nullptr); see("a void pointer", (void*)16); see("a pointer", (int*)0xffffffffffffffff - 0); see("a pointer", (U*)0x123456789abcdef0); see("source location", std::source_location::current()); see("source location", std::source_location{});
	for (long i : {0L, 1L, -1L, 2147483647L, -2147483648L, 9223372036854775807L, std::numeric_limits<long>::min()}) { see("a long", i); see("an int", (int)i); see("a size", (unsigned long)i); see("an unsigned", (unsigned)i); }
	see("an empty tuple", std::tuple<>{}); see("an empty array", std::array<int, 0>{}); see("a pair", std::pair{F{1}, N{2}});
	for (int k = 0; k < 200; ++k)
	{
		const int len = k < 40 ? k / 8 : n(40); S s; std::wstring w; std::u8string u8; std::u16string u16; std::u32string u32; std::vector<U> vu; std::list<F> lf; std::deque<S> ds; std::set<int> si; std::map<int, S> m; std::vector<std::vector<std::optional<int>>> vv; std::vector<std::wstring> vw;
		for (int i = 0; i < len; ++i)
		{
			s += n(20) ? (char)(33 + n(90)) : (char)n(256); w += n(5) ? (wchar_t)n(300) : (wchar_t)r(); u8 += (char8_t)n(256); u16 += (char16_t)n(65536); u32 += n(5) ? (char32_t)n(300) : (char32_t)r(); vu.push_back({n(100)}); lf.push_back({n(100)}); ds.push_back(s); si.insert(n(100)); m[n(50)] = s; vw.push_back(w);
			std::vector<std::optional<int>> v; for (int j = n(4); j--;) v.push_back(n(3) ? std::optional{n(9)} : std::nullopt); vv.push_back(v);
		}
		see("a string", s); see("a string view", std::string_view{s}); see("a string view into the middle", std::string_view{s}.substr(s.size() / 2)); see("a wide string", w); see("a u8 string", u8); see("a u8 view", std::u8string_view{u8}); see("a u16 view", std::u16string_view{u16}); see("a u32 string", u32); see("a vector", vu); see("a list", lf); see("a set", si); if (len < 8) { see("a deque", ds); see("a map", m); see("wide strings", vw); } see("nested ranges", vv);
		S z{s.c_str()}; see("a C string", z.c_str()); std::wstring wz{w.c_str()}; see("a wide C string", wz.c_str()); see("a tuple", std::tuple{n(9), s, w, std::optional{len}, std::optional<U>{}, vu, N{1}}); see("an array", std::array{n(9), n(9), n(9)}); see("an optional", std::optional{vu}); see("an optional", std::optional{std::optional{n(5)}});
		std::span<const U> sp{vu}; CHECK(mimicpp::print(sp) == want(vu)); int arr[3]{n(9), n(9), n(9)}; (void)arr;
	}
	const char ca[] = "text"; g_ctx = "an array of char"; CHECK(mimicpp::print(ca) == "\"text\""); CHECK(mimicpp::print("") == "\"\""); CHECK(mimicpp::print(L"ab") == "L\"0x61, 0x62\"");
	g_ctx = "several values into one text"; S all; auto o = std::back_inserter(all); o = mimicpp::print(o, 1); o = mimicpp::print(o, S{"x"}); o = mimicpp::print(o, std::vector<int>{}); o = mimicpp::print(o, N{}); CHECK(all == "1\"x\"{  }{?}");
	std::puts("ok: values of 60 types, strings and ranges of up to 40 elements, through four kinds of output");
}
