#include "matmodel.hpp"
#include <map>
namespace m = matches::range;
struct Cmp { int* n; int mod; bool operator()(int a, int b) const { ++*n; return a % mod == b % mod; } };
template <typename R> void all(const R& t, const std::vector<int>& e)
{
	const std::vector<int> a(t.begin(), t.end()); g_ctx = "target " + str(a) + " reference " + str(e); std::vector<int> sa = a, se = e; std::ranges::sort(sa); std::ranges::sort(se);
	CHECK(ask_both(m::eq(e), t) == (a == e)); CHECK(ask(m::eq(std::vector<int>(e)), t) == (a == e)); CHECK(ask(!m::eq(std::vector<int>(e)), t) == (a != e)); CHECK(ask_both(m::unordered_eq(e), t) == (sa == se)); CHECK(ask_both(m::is_sorted(), t) == (sa == a)); CHECK(ask_both(m::is_empty(), t) == a.empty());
	int n = 0; auto mod = [](std::vector<int> v, int k) { for (auto& x : v) x %= k; return v; }; { auto x = mod(a, 2), y = mod(e, 2); auto mm = m::eq(e, Cmp{&n, 2}); CHECK(ask(mm, t) == (x == y)); CHECK(ask(!mm, t) == (x != y)); std::ranges::sort(x); std::ranges::sort(y); auto mu = m::unordered_eq(e, Cmp{&n, 2}); CHECK(ask(mu, t) == (x == y)); CHECK(ask(!std::move(mu), t) == (x != y)); }
	CHECK(ask(m::is_sorted(std::ranges::greater{}), t) == std::ranges::is_sorted(a, std::ranges::greater{}));
	for (int k : {0, 1, 2, 3, -1, static_cast<int>(a.size())}) { CHECK(ask_both(m::has_size(k), t) == (k >= 0 && a.size() == static_cast<std::size_t>(k))); CHECK(ask_both(m::has_size(static_cast<unsigned long long>(k)), t) == (k >= 0 && a.size() == static_cast<std::size_t>(k))); CHECK(ask_both(m::has_size(static_cast<short>(k)), t) == (k >= 0 && a.size() == static_cast<std::size_t>(k))); CHECK(ask_both(m::has_size(256 + k), t) == (a.size() == static_cast<std::size_t>(256 + k))); }
	const int x = e.empty() ? 1 : e[0]; bool ea = true, an = false, en = true; for (int v : a) { ea = ea && v == x; an = an || v == x; en = en && v != x; }
	auto el = matches::eq(x); auto each = m::each_element(el); auto any = m::any_element(el); CHECK(ask_both(each, t) == ea); CHECK(ask_both(any, t) == an); CHECK(ask_both(m::each_element(!matches::eq(x)), t) == en); CHECK(ask_both(m::any_element(matches::lt(x)), t) == (std::ranges::any_of(a, [&](int v) { return v < x; })));
	CHECK(ask(el, x)); CHECK(el.describe() == "== " + str(x)); CHECK(each.describe() == "each el in range: el == " + str(x)); CHECK((!any).describe() == "none el in range: el == " + str(x));
}
int main()
{
	install();
	std::vector<std::vector<int>> w; for (int n = 0; n <= 3; ++n) { int c = 1; for (int i = 0; i < n; ++i) c *= 3; for (int k = 0; k < c; ++k) { std::vector<int> v; for (int i = 0, q = k; i < n; ++i, q /= 3) v.push_back(q % 3); w.push_back(v); } }
	for (auto& a : w) for (auto& b : w) all(a, b);
	for (auto& a : w) { all(std::list<int>(a.begin(), a.end()), w[7]); all(std::deque<int>(a.begin(), a.end()), w[20]); all(std::span<const int>(a), w[9]); all(std::multiset<int>(a.begin(), a.end()), w[15]); }
	for (int k = 0; k < 500; ++k) { std::vector<int> a(g_rng() % 20), b; for (auto& x : a) x = static_cast<int>(g_rng() % 5); b = a; if (g_rng() % 2) std::ranges::shuffle(b, g_rng); if (!b.empty() && g_rng() % 2) b[g_rng() % b.size()] = static_cast<int>(g_rng() % 5); if (g_rng() % 5 == 0) b.push_back(1); if (g_rng() % 4 == 0) std::ranges::sort(a); all(a, b); }
	g_ctx = "sizes beyond narrow types"; for (std::size_t n : {127u, 128u, 255u, 256u, 257u, 32768u, 65536u, 65537u}) { const std::vector<char> v(n); auto one = [&]<typename T>(T k) { CHECK(ask_both(m::has_size(k), v) == std::cmp_equal(k, n)); }; for (int k : {0, 1, 127, -1, -128}) { one(static_cast<signed char>(k)); one(static_cast<unsigned char>(k)); one(static_cast<short>(k)); one(static_cast<unsigned short>(k)); one(k); } one(static_cast<unsigned short>(n)); one(static_cast<short>(n)); one(static_cast<int>(n)); one(n); one(n + (1ull << 32)); }
	g_ctx = "matchers built from an existing matcher leave that one as it is"; { auto s = matches::eq(std::string(60, 'q')); const std::string t(60, 'q'); auto e1 = m::each_element(s); auto e2 = m::any_element(s); const std::vector<std::string> v{t, t}; CHECK(ask(s, t)); CHECK(ask(e1, v)); CHECK(ask(e2, v)); CHECK(s.describe() == (matches::eq(t)).describe()); }
	g_ctx = "mock taking a range"; Mock<void(const std::vector<int>&)> mock{}; for (auto& a : w) for (auto& b : w) { ScopedExpectation e = mock.expect_call(m::eq(b)) and expect::at_most(1); bool got = true; try { mock(a); } catch (const Fail&) { got = false; } CHECK(got == (a == b)); }
	std::puts("ok: range matchers and their negations over all ranges up to three elements of three values, longer random ones, five kinds of ranges, custom comparators and element matchers");
}
