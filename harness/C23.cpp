#include "matmodel.hpp"
#include <cctype>
namespace m = matches::str;
static std::string fold(std::string s) { for (auto& c : s) c = static_cast<char>(std::toupper(static_cast<unsigned char>(c))); return s; }
static bool st(const std::string& t, const std::string& p) { return t.size() >= p.size() && t.compare(0, p.size(), p) == 0; }
static bool en(const std::string& t, const std::string& p) { return t.size() >= p.size() && t.compare(t.size() - p.size(), p.size(), p) == 0; }
static bool co(const std::string& t, const std::string& p) { for (std::size_t i = 0; i + p.size() <= t.size(); ++i) if (t.compare(i, p.size(), p) == 0) return true; return false; }
template <typename T, typename P> void all(const T& t, const P& p)
{
	const std::string a{t}, b{p}; g_ctx = "target \"" + a + "\" pattern \"" + b + "\"";
	CHECK(ask_both(m::eq(p), t) == (a == b)); CHECK(ask_both(m::starts_with(p), t) == st(a, b)); CHECK(ask_both(m::ends_with(p), t) == en(a, b)); CHECK(ask_both(m::contains(p), t) == co(a, b));
	const std::string fa = fold(a), fb = fold(b);
	CHECK(ask_both(m::eq(p, case_insensitive), t) == (fa == fb)); CHECK(ask_both(m::starts_with(p, case_insensitive), t) == st(fa, fb)); CHECK(ask_both(m::ends_with(p, case_insensitive), t) == en(fa, fb)); CHECK(ask_both(m::contains(p, case_insensitive), t) == co(fa, fb));
}
int main()
{
	install();
	auto word = [](std::size_t n, const char* al, std::size_t k) { std::string s; for (std::size_t i = 0; i < n; ++i) s += al[g_rng() % k]; return s; };
	std::vector<std::string> w{"", "a", "A", "aa", "ab", "aB", "ba", "aab", "abab", "b", "AB"};
	for (auto& a : w) for (auto& b : w) { all(a, b); all(std::string_view{a}, b); all(a, std::string_view{b}); all(a.c_str(), b); all(a, b.c_str()); }
	for (int k = 0; k < 4000; ++k) all(word(g_rng() % 12, "aAbB", 2 + g_rng() % 3), word(g_rng() % 6, "aAbB", 2 + g_rng() % 3));
	for (int k = 0; k < 300; ++k) { const std::string t = word(g_rng() % 80, "xyzXYZ_ 19{}", 12); const std::size_t i = g_rng() % (t.size() + 1), n = g_rng() % (t.size() - i + 1); std::string p = t.substr(i, n); if (g_rng() % 2 && n) p[g_rng() % n] ^= 32; all(t, p); }
	for (int c = 0; c < 128; ++c) { const std::string a(1, static_cast<char>(c ? c : 1)); for (int d : {65, 97, 91, 123, 64, 96, 48}) all(a, std::string(1, static_cast<char>(d))); }
	{ const std::string n1("a\0b", 3), n2("a\0c", 3), n3("a", 1); g_ctx = "texts with NUL characters"; CHECK(!ask(m::eq(n1), n2)); CHECK(ask(m::eq(n1), n1)); CHECK(ask(m::starts_with(n3), n1)); CHECK(!ask(m::eq(n3), n1)); CHECK(ask(m::contains(std::string("\0", 1)), n1)); CHECK(ask(m::ends_with(std::string("\0b", 2)), n1)); CHECK(!ask(m::eq(n1, case_insensitive), n2)); }
	g_ctx = "wide text"; CHECK(ask(m::contains(std::wstring(L"bc")), std::wstring(L"abcd"))); CHECK(!ask(m::ends_with(std::u8string(u8"bc")), std::u8string(u8"abcd"))); CHECK(ask(m::ends_with(std::u32string(U"cd")), std::u32string(U"abcd")));
	Mock<void(const std::string&)> mock{}; for (auto& a : w) for (auto& b : w) { ScopedExpectation e = mock.expect_call(m::contains(b)) and expect::at_most(1); bool got = true; g_ctx = "mock called with \"" + a + "\" expecting a text containing \"" + b + "\""; try { mock(a); } catch (const Fail&) { got = false; } CHECK(got == co(a, b)); }
	std::puts("ok: eight string matchers and their negations over short, random, constructed and NUL-containing texts, std::string / std::string_view / const char*");
}
