#include "h.hpp"
using namespace mimicpp;
// builds reports from a vector of small choices; equal iff the choices are equal
static std::source_location loc(int k)
{
	if (k == 0) return {};
	if (k == 1) return std::source_location::current(); if (k == 2) return std::source_location::current();
	return std::source_location::current();
}
template <typename T> std::source_location fn() { return std::source_location::current(); }
template <typename F> void pairs(const char* what, int dims, int range, F&& mk)
{
	std::mt19937 r{7}; auto draw = [&] { std::vector<int> v(dims); for (int& x : v) x = int(r() % range); return v; };
	auto show = [](const std::vector<int>& v) { std::string s; for (int x : v) s += std::to_string(x) + " "; return s; };
	for (int t = 0; t < 8000; ++t)
	{
		auto a = draw(); auto b = a; const bool sw = r() % 3 == 0; const int g = 1 + int(r() % 2); if (sw) { const int i = int(r() % (dims - 2 * g + 1)); std::swap_ranges(b.begin() + i, b.begin() + i + g, b.begin() + i + g); } const int k = sw ? 0 : int(r() % 4); for (int i = 0; i < k; ++i) b[r() % dims] = int(r() % range); if (r() % 8 == 0) std::swap(b[r() % dims], b[r() % dims]); if (r() % 16 == 0) b = draw();
		g_ctx = std::string(what) + " from the choices " + show(a) + "and " + show(b); const auto x = mk(a), y = mk(b), z = mk(a);
		const auto na = mk.norm(a), nb = mk.norm(b);
		CHECK((x == y) == (na == nb)); CHECK((y == x) == (na == nb)); CHECK((x != y) == (na != nb)); CHECK(x == z); CHECK(x == x);
	}
}
static const char* T[] = {"", "a", "ab", "b"};
static std::optional<StringT> opt(int k) { return k == 0 ? std::optional<StringT>{} : StringT{T[k - 1]}; }
static std::optional<std::source_location> oloc(int k) { return k == 0 ? std::optional<std::source_location>{} : k == 1 ? fn<int>() : k == 2 ? fn<char>() : loc(3); }
static std::type_index ty(int k) { switch (k) { case 0: return typeid(int); case 1: return typeid(char); case 2: return typeid(void); default: return typeid(std::string); } }
struct Same { std::vector<int> norm(std::vector<int> v) const { return v; } };
struct Call : Same
{
	CallReport operator()(const std::vector<int>& v) const
	{
		CallReport c{.returnTypeIndex = ty(v[0]), .argDetails = {}, .fromLoc = v[1] == 1 ? fn<int>() : v[1] == 2 ? fn<char>() : loc(v[1]), .fromCategory = static_cast<ValueCategory>(v[2] % 3), .fromConstness = static_cast<Constness>(v[3] % 3)};
		for (int i = 0; i < v[4]; ++i) c.argDetails.push_back({ty(v[5 + 2 * i]), T[v[6 + 2 * i]]}); return c;
	}
	std::vector<int> norm(std::vector<int> v) const { v[2] %= 3; v[3] %= 3; v.resize(5 + 2 * v[4]); return v; }
};
struct Exp
{
	ExpectationReport operator()(const std::vector<int>& v) const { ExpectationReport e{oloc(v[0]), opt(v[1]), opt(v[2]), {}}; for (int i = 0; i < v[3]; ++i) e.expectationDescriptions.push_back(opt(v[4 + i])); return e; }
	std::vector<int> norm(std::vector<int> v) const { v.resize(4 + v[3]); return v; }
};
struct Match
{
	control_state_t state(const std::vector<int>& v) const
	{
		std::vector<sequence::rating> r; std::vector<sequence::Tag> t; for (int i = 0; i < v[6] % 3; ++i) r.push_back({v[7 + i], sequence::Tag(v[9 + i])}); for (int i = 0; i < v[11] % 3; ++i) t.push_back(sequence::Tag(v[12 + i]));
		switch (v[2] % 3) { case 0: return state_applicable{v[3], v[4], v[5], r}; case 1: return state_inapplicable{v[3], v[4], v[5], r, t}; default: return state_saturated{v[3], v[4], v[5], t}; }
	}
	MatchReport operator()(const std::vector<int>& v) const { MatchReport m{oloc(v[0]), {opt(v[1])}, state(v), {}}; for (int i = 0; i < v[14] % 3; ++i) m.expectationReports.push_back({v[15 + 2 * i] % 2 == 1, opt(v[16 + 2 * i])}); return m; }
	std::vector<int> norm(std::vector<int> v) const
	{
		v[2] %= 3; v[6] %= 3; v[11] %= 3; v[14] %= 3; if (v[2] == 2) v[6] = 0; if (v[2] == 0) v[11] = 0; for (int i = v[6]; i < 2; ++i) v[7 + i] = v[9 + i] = 0; for (int i = v[11]; i < 2; ++i) v[12 + i] = 0;
		for (int i = 0; i < 2; ++i) { v[15 + 2 * i] %= 2; if (i >= v[14]) v[15 + 2 * i] = v[16 + 2 * i] = 0; } return v;
	}
};
struct X { int v; X(int i) : v{i} {} X(const X&) = default; X(X&& o) : v{o.v} { o.v = -1; } }; struct Y { int v; };
template <> struct mimicpp::custom::Printer<X> { static auto print(auto out, const X& x) { return std::format_to(out, "X{}", x.v); } };
template <> struct mimicpp::custom::Printer<Y> { static auto print(auto out, const Y& x) { return std::format_to(out, "Y{}", x.v); } };
template <typename R, typename... P> void make(R*, std::vector<std::pair<std::type_index, std::string>> w, std::remove_reference_t<P>&... a)
{
	for (auto cat : {ValueCategory::lvalue, ValueCategory::rvalue, ValueCategory::any}) for (auto con : {Constness::non_const, Constness::as_const, Constness::any})
	{
		const auto at = cat == ValueCategory::any ? fn<R*>() : con == Constness::any ? loc(3) : fn<R>(); const CallReport c = make_call_report(call::Info<R, P...>{.args = {std::ref(a)...}, .fromCategory = cat, .fromConstness = con, .fromSourceLocation = at});
		CHECK(c.returnTypeIndex == typeid(R)); CHECK(c.fromCategory == cat); CHECK(c.fromConstness == con); CHECK(is_same_source_location(c.fromLoc, at)); CHECK(c.argDetails.size() == w.size());
		for (std::size_t i = 0; i < w.size(); ++i) { CHECK(c.argDetails[i].typeIndex == w[i].first); CHECK(c.argDetails[i].stateString == w[i].second); }
	}
}
int main()
{
	install(); pairs("call reports", 11, 4, Call{}); pairs("expectation reports", 8, 4, Exp{}); pairs("match reports", 19, 4, Match{});
	g_ctx = "call reports made from calls"; int v = 0; (void)v; X x{1}, x2{2}; const X cx{3}; Y y{4}; const Y cy{5};
	make<void>((void*)0, {}); make<int, X&>((int*)0, {{typeid(X), "X1"}}, x); make<X, const X&, Y, X&&>((X*)0, {{typeid(X), "X3"}, {typeid(Y), "Y4"}, {typeid(X), "X2"}}, cx, y, x2); make<Y, X, X, X>((Y*)0, {{typeid(X), "X2"}, {typeid(X), "X1"}, {typeid(X), "X2"}}, x2, x, x2); make<void, const Y, X&, const Y&>((void*)0, {{typeid(Y), "Y5"}, {typeid(X), "X1"}, {typeid(Y), "Y4"}}, cy, x, y);
	g_ctx = "equality of locations";
	if constexpr (sizeof(std::source_location) == sizeof(void*) && std::is_trivially_copyable_v<std::source_location>)
	{
		struct Impl { const char* file; const char* fn; unsigned line, col; };          // the layout of libstdc++ (checked below)
		static const char f1[] = "/a/b.cpp", f2[] = "/a/b.cpp", g1[] = "void g()", g2[] = "void g()";
		static const Impl is[] = {{f1, g1, 10, 3}, {f2, g1, 10, 3}, {f1, g2, 10, 3}, {"/a/b.cp", g1, 10, 3}, {"/a/b.cpp2", g1, 10, 3}, {f1, "void g(int)", 10, 3}, {f1, g1, 3, 10}, {f1, g1, 10 + 256, 3}, {f1, g1, 10 + 65536, 3}, {f1, g1, 10, 3 + 256}, {f1, g1, 10, 3 + 65536}, {f1, g1, 11, 3}, {f1, g1, 10, 4}, {g1, f1, 10, 3}, {f1, g1, 10 + 0x80000000u, 3}};
		auto at = [](int i) { return std::bit_cast<std::source_location>(&is[i]); };
		if (at(6).line() == 3 && at(6).column() == 10 && std::string{at(6).file_name()} == f1 && std::string{at(6).function_name()} == g1)
			for (int i = 0; i < 15; ++i) for (int j = 0; j < 15; ++j)
			{
				const bool same = i == j || (i < 3 && j < 3); CHECK(is_same_source_location(at(i), at(j)) == same);
				CallReport a{.returnTypeIndex = typeid(int), .fromLoc = at(i), .fromCategory = ValueCategory::any, .fromConstness = Constness::any}, b{a}; b.fromLoc = at(j); CHECK((a == b) == same); CHECK((a != b) == !same);
				ExpectationReport e{.sourceLocation = at(i)}, g{.sourceLocation = at(j)}; CHECK((e == g) == same); MatchReport m{.sourceLocation = at(i), .controlReport = state_saturated{1, 1, 1}}, n{.sourceLocation = at(j), .controlReport = state_saturated{1, 1, 1}}; CHECK((m == n) == same);
				call::Info<int> p{}, q{}; p.fromCategory = q.fromCategory = ValueCategory::any; p.fromConstness = q.fromConstness = Constness::any; p.fromSourceLocation = at(i); q.fromSourceLocation = at(j); CHECK((p == q) == same);
			}
	}
	g_ctx = "equality of call infos";
	{
		using I2 = call::Info<void, int, const int&>; int a[3]{1, 1, 1}; const std::source_location l[3]{fn<int>(), fn<X>(), {}}; std::vector<std::tuple<I2, int>> all; int id = 0;
		for (int p = 0; p < 3; ++p) for (int q = 0; q < 3; ++q) for (auto cat : {ValueCategory::lvalue, ValueCategory::rvalue, ValueCategory::any}) for (auto con : {Constness::non_const, Constness::as_const, Constness::any}) for (auto& at : l) all.push_back({I2{.args = {std::ref(a[p]), std::cref(a[q])}, .fromCategory = cat, .fromConstness = con, .fromSourceLocation = at}, id++});
		for (auto& [x, i] : all) for (auto& [y, j] : all) { CHECK((x == y) == (i == j)); CHECK((x != y) == (i != j)); } call::Info<int> e1{}, e2{}; CHECK(e1 == e2); e2.fromCategory = ValueCategory::any; e1.fromCategory = ValueCategory::lvalue; CHECK(e1 != e2);
	}
	std::puts("ok: 24000 pairs of reports differing in up to all parts, call reports of five signatures");
}
