// bounded oracle harness for C19: calls through mocks in every qualification, arguments traced
#include "mimic++/mimic++.hpp"
#include <cstdio>
#include <cstdlib>
using namespace mimicpp;
static int copies, moves;
struct A { int v; A(int x) : v{x} {} A(const A& o) : v{o.v} { ++copies; } A(A&& o) noexcept : v{o.v} { o.v = -1; ++moves; } bool operator==(const A&) const = default; };
static int fails;
#define REQ(...) do { if (!(__VA_ARGS__)) { ++fails; std::printf("failed (line %d): %s\n", __LINE__, #__VA_ARGS__); } } while (0)
template <typename M, typename W, bool rv> void one(int seed, ValueCategory cat, Constness con)
{
	M m{}; A b{seed + 1}, c{seed + 2}; const A d{seed + 3}; const A a{seed}; int calls = 0; copies = moves = 0;
	auto at = std::source_location::current(); 
	auto check = [&](const auto& info) -> int
	{
		++calls; auto& [pa, pb, pc, pd] = info.args;
		REQ(pa.get().v == seed && &pb.get() == &b && &pc.get() == &c && &pd.get() == &d); REQ(copies == 1 && moves == 0 && c.v == seed + 2);
		REQ(info.fromCategory == cat && info.fromConstness == con); REQ(info.fromSourceLocation.line() == at.line()); return seed * 3;
	};
	struct Fin { std::function<int(const call::Info<int, A, A&, A&&, const A&>&)> f; int finalize_call(const call::Info<int, A, A&, A&&, const A&>& i) { return f(i); } };
	auto&& w = static_cast<W>(m);
	ScopedExpectation e = static_cast<W>(w).expect_call(matches::_, matches::_, matches::_, matches::_) and Fin{check};
	at = std::source_location::current(); const int r = static_cast<W>(w)(a, b, std::move(c), d);
	REQ(calls == 1 && r == seed * 3);
}
template <typename M, typename W> void group(ValueCategory cat, Constness con) { for (int s = 0; s < 5; ++s) one<M, W, std::is_rvalue_reference_v<W>>(s * 10, cat, con); }
using S0 = Mock<int(A, A&, A&&, const A&)>; using S1 = Mock<int(A, A&, A&&, const A&) const>; using S2 = Mock<int(A, A&, A&&, const A&) &>; using S3 = Mock<int(A, A&, A&&, const A&) const&>; using S4 = Mock<int(A, A&, A&&, const A&) &&>; using S5 = Mock<int(A, A&, A&&, const A&) const&&>;
using T0 = Mock<int(A, A&, A&&, const A&) noexcept>; using T1 = Mock<int(A, A&, A&&, const A&) const noexcept>; using T2 = Mock<int(A, A&, A&&, const A&) & noexcept>; using T3 = Mock<int(A, A&, A&&, const A&) const& noexcept>; using T4 = Mock<int(A, A&, A&&, const A&) && noexcept>; using T5 = Mock<int(A, A&, A&&, const A&) const&& noexcept>;
struct Itf { virtual ~Itf() = default; virtual int foo(A, A&, A&&, const A&) = 0; virtual int ovl(A&) & = 0; virtual int ovl(A&) const& = 0; virtual void bar(A&) const noexcept = 0; };
struct Imp : Itf { MOCK_METHOD(foo, int, (A, A&, A&&, const A&)); MOCK_OVERLOADED_METHOD(ovl, ADD_OVERLOAD(int, (A&), &), ADD_OVERLOAD(int, (A&), const&)); MOCK_METHOD(bar, void, (A&), const noexcept); };
template <typename Info, typename R> struct Fin { std::function<R(const Info&)> f; R finalize_call(const Info& i) { return f(i); } };
static std::size_t listed;
struct Rep final : IReporter
{
	void report_no_matches(CallReport, std::vector<MatchReport> r) override { listed = r.size(); throw 1; } void report_inapplicable_matches(CallReport, std::vector<MatchReport> r) override { listed = r.size(); throw 2; }
	void report_full_match(CallReport, MatchReport) noexcept override {} void report_unfulfilled_expectation(ExpectationReport) override {} void report_error(StringT) override {} void report_unhandled_exception(CallReport, ExpectationReport, std::exception_ptr) override {}
};
// how many expectations a failing call has looked at: those of its decayed signature
template <typename M, typename F> std::size_t looked(M& m, F f) { listed = 999; try { f(m); } catch (int) {} return listed; }
int main()
{
	install_reporter<Rep>();
	{
		Mock<int(int) &, int(int) const&, int(int, int), int(int) &&> m{}; { auto n = std::move(m); m = std::move(n); }
		ScopedExpectation a = m.expect_call(1) and finally::returns(4), b = std::as_const(m).expect_call(2) and finally::returns(4), c = std::move(m).expect_call(3) and finally::returns(4), d = m.expect_call(1, 2) and finally::returns(4);
		REQ(looked(m, [](auto& x) { x(9); }) == 3); REQ(looked(m, [](auto& x) { std::as_const(x)(9); }) == 3); REQ(looked(m, [](auto& x) { std::move(x)(9); }) == 3); REQ(looked(m, [](auto& x) { x(9, 9); }) == 1);
		Mock<int(int) const noexcept, int(int) noexcept, void(long)> q{}; (void)q;
	}
	using enum ValueCategory;
#define G(M, T, W, C, K) group<M, T W>(ValueCategory::C, Constness::K);
	G(S0, S0, &, any, non_const) G(S1, S1, const&, any, as_const) G(S2, S2, &, lvalue, non_const) G(S3, S3, const&, lvalue, as_const) G(S4, S4, &&, rvalue, non_const) G(S5, const S5, &&, rvalue, as_const)
	G(T0, T0, &, any, non_const) G(T1, T1, const&, any, as_const) G(T2, T2, &, lvalue, non_const) G(T3, T3, const&, lvalue, as_const) G(T4, T4, &&, rvalue, non_const) G(T5, const T5, &&, rvalue, as_const)
	// overloads that share expectations are still told apart by category and constness
	using O = Mock<int(A&) &, int(A&) const&, int(A&) &&, int(A&) const&&, int(const std::string&)>;
	for (int w = 0; w < 4; ++w) for (int moved = 0; moved < 2; ++moved)
	{
		O o0{}, o2{}; A a{w}; O* p = &o0; if (moved) { o2 = std::move(o0); p = &o2; } O& o = *p; int got = -1; auto is = [&](int k) { return [&got, k](const call::Info<int, A&>& i) { got = k; REQ(i.fromCategory == (k < 2 ? ValueCategory::lvalue : ValueCategory::rvalue)); return k; }; };
		using F = Fin<call::Info<int, A&>, int>;
		ScopedExpectation e0 = o.expect_call(A{w}) and expect::times(0, 1) and F{is(0)}, e1 = std::as_const(o).expect_call(A{w}) and expect::times(0, 1) and F{is(1)}, e2 = std::move(o).expect_call(A{w}) and expect::times(0, 1) and F{is(2)}, e3 = std::move(std::as_const(o)).expect_call(A{w}) and expect::times(0, 1) and F{is(3)};
		ScopedExpectation other = o.expect_call(std::string{"x"}) and finally::returns(77);
		int r = w == 0 ? o(a) : w == 1 ? std::as_const(o)(a) : w == 2 ? std::move(o)(a) : std::move(std::as_const(o))(a); REQ(r == w && got == w);
		REQ(o(std::string{"x"}) == 77);
	}
	for (int s = 0; s < 5; ++s)
	{
		Imp imp{}; Itf& i = imp; const A a{s}; A b{s + 1}, c{s + 2}; const A d{s + 3}; copies = 0; int n = 0; using II = call::Info<int, A, A&, A&&, const A&>;
		ScopedExpectation e = imp.foo_.expect_call(matches::_, matches::_, matches::_, matches::_) and Fin<II, int>{[&](const II& x) { ++n; auto& [pa, pb, pc, pd] = x.args; REQ(pa.get().v == s && &pb.get() == &b && &pc.get() == &c && &pd.get() == &d); return 9; }};
		REQ(i.foo(a, b, std::move(c), d) == 9 && n == 1 && copies == 1);
		using IB = call::Info<void, A&>; ScopedExpectation f = std::as_const(imp.bar_).expect_call(matches::_) and Fin<IB, void>{[&](const IB& x) { ++n; REQ(&std::get<0>(x.args).get() == &b); }};
		std::as_const(i).bar(b); REQ(n == 2);
		using IO = call::Info<int, A&>; ScopedExpectation g = imp.ovl_.expect_call(matches::_) and Fin<IO, int>{[](const IO& x) { REQ(x.fromConstness == Constness::non_const); return 1; }}; ScopedExpectation h = std::as_const(imp.ovl_).expect_call(matches::_) and Fin<IO, int>{[](const IO& x) { REQ(x.fromConstness == Constness::as_const); return 2; }};
		REQ(std::as_const(i).ovl(b) == 2); REQ(i.ovl(b) == 1);
	}
	if (!fails) std::puts("ok: 12 qualifications, overload sets, interface mocks");
	return fails != 0;
}
