#include "matmodel.hpp"
template <> struct mimicpp::custom::Printer<OddRef> { template <typename Out> static Out print(Out out, const OddRef& r) { return mimicpp::format::format_to(out, "odd{}", r.v); } };
template <typename T, typename R> void six(T x, R r)
{
	g_ctx = "comparison with " + str(r);
	CHECK(ask_both(matches::eq(r), x) == (x == r)); CHECK(ask_both(matches::ne(r), x) == (x != r)); CHECK(ask_both(matches::lt(r), x) == (x < r)); CHECK(ask_both(matches::le(r), x) == (x <= r)); CHECK(ask_both(matches::gt(r), x) == (x > r)); CHECK(ask_both(matches::ge(r), x) == (x >= r));
	const std::string t = str(r); const std::pair<std::string, std::string> d[6] = {{"== ", "!= "}, {"!= ", "== "}, {"< ", ">= "}, {"<= ", "> "}, {"> ", "<= "}, {">= ", "< "}}; int i = 0;
	auto desc = [&](auto m) { CHECK(m.describe() == d[i].first + t); CHECK((!m).describe() == d[i].second + t); ++i; };
	desc(matches::eq(r)); desc(matches::ne(r)); desc(matches::lt(r)); desc(matches::le(r)); desc(matches::gt(r)); desc(matches::ge(r));
	Mock<void(const T&)> m{}; auto via = [&](auto matcher, bool want) { ScopedExpectation e = m.expect_call(matcher) and expect::at_most(1); bool got = true; try { m(x); } catch (const Fail&) { got = false; } CHECK(got == want); };
	via(matches::eq(r), x == r); via(!matches::eq(r), !(x == r)); via(matches::lt(r), x < r); via(!matches::lt(r), !(x < r)); via(matches::ge(r), x >= r);
}
struct P1 { int* n; const void** at; bool ans; template <typename T> bool operator()(T& t) const { ++*n; *at = &t; return ans; } };
int main()
{
	install();
	const int ints[] = {0, 1, -1, 7, std::numeric_limits<int>::max(), std::numeric_limits<int>::min()}; for (int a : ints) for (int b : ints) six(a, b);
	const double ds[] = {0.0, -0.0, 1.5, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()}; for (double a : ds) for (double b : ds) six(a, b);
	const std::string ss[] = {"", "a", "ab", "b", std::string(60, 'z')}; for (auto& a : ss) for (auto& b : ss) six(a, b);
	for (int k = 0; k < 400; ++k) six(static_cast<int>(g_rng()), static_cast<int>(g_rng() % 3));
	for (int a = 0; a < 12; ++a) for (int b = 0; b < 12; ++b)
	{
		Odd::calls = 0; Odd x{a}; const OddRef r{b}; six(x, r); int n = Odd::calls; (void)ask(matches::eq(r), x); CHECK(Odd::calls == n + 1); (void)ask(!matches::ge(r), x); CHECK(Odd::calls == n + 2);
		Odd::boom = true; bool t = false; try { (void)ask(!matches::lt(r), x); } catch (int e) { t = e == 11; } Odd::boom = false; CHECK(t);
	}
	g_ctx = "predicate, instance and wildcard";
	for (bool ans : {true, false})
	{
		int n = 0; const void* at = nullptr; auto m = matches::predicate(P1{&n, &at, ans}); int v = 3; const std::string s = "s"; CHECK(ask(m, v) == ans); CHECK(n == 1 && at == &v); CHECK(ask(m, s) == ans); CHECK(n == 2 && at == &s); CHECK(ask(!m, v) == !ans); CHECK(n == 3); CHECK(ask_both(m, v) == ans);
	}
	int u = 4, w = 4; const int& cu = u; CHECK(ask_both(matches::instance(u), u)); CHECK(!ask_both(matches::instance(u), w)); CHECK(ask_both(matches::instance(cu), u)); CHECK(!ask_both(matches::instance(cu), w));
	CHECK(ask(matches::_, u)); CHECK(ask(matches::_, cu)); CHECK(ask(matches::_, std::string{}));
	std::puts("ok: six comparison matchers and their negations over ints, doubles with NaN, strings and a type with unrelated operators; predicate, instance, wildcard");
}
