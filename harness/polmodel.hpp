// oracles for requirement, side effect and finalizer policies on the real code
#pragma once
#include "h.hpp"
#include <memory>
using namespace mimicpp;
struct Big { int v; std::shared_ptr<int> copies; explicit Big(int x = 0) : v{x} {} Big(const Big& o) : v{o.v} {} Big(Big&& o) noexcept : v{o.v} { o.v = -1; } Big& operator=(const Big& o) { v = o.v; return *this; } Big& operator=(Big&& o) noexcept { v = o.v; if (&o != this) o.v = -1; return *this; } bool operator==(const Big& o) const { return v == o.v; } };
template <typename Ret> using PSig = Ret(int, Big&, const std::string&, Big&&);
template <typename Ret> using PInfo = call::info_for_signature_t<PSig<Ret>>;
struct Args4 { int a; Big b; std::string c; Big d; const void* at(std::size_t i) const { const void* p[] = {&a, &b, &c, &d}; return p[i]; } };
template <typename Ret> PInfo<Ret> mk(Args4& x, ValueCategory cat = ValueCategory::any, Constness con = Constness::any) { return {.args = {std::ref(x.a), std::ref(x.b), std::cref(x.c), std::ref(x.d)}, .fromCategory = cat, .fromConstness = con}; }
inline std::vector<std::vector<const void*>> g_seen; inline std::mt19937 g_rng{1};
inline Args4 rnd() { return {static_cast<int>(g_rng()), Big(static_cast<int>(g_rng())), std::string(g_rng() % 40, 'a'), Big(static_cast<int>(g_rng() % 1000))}; }
struct Rec { template <typename... T> void operator()(T&... t) const { g_seen.push_back({static_cast<const void*>(std::addressof(t))...}); } };
struct RecMatcher { const bool* verdict; template <typename T> bool matches(T& t) const { g_seen.push_back({static_cast<const void*>(std::addressof(t))}); if (verdict == nullptr) throw 17; return *verdict; } StringT describe() const { return "rec"; } };
struct Same { Args4 before; Args4* x; ~Same() noexcept(false) { CHECK(before.a == x->a && before.b == x->b && before.c == x->c && before.d == x->d); } };
template <std::size_t... I, typename P> void effect_case(P p, const char* what)
{
	for (int r = 0; r < 5; ++r)
	{
		Args4 x = rnd(); const auto i = mk<void>(x); Same s{x, &x}; g_ctx = what; g_seen.clear();
		CHECK(p.is_satisfied()); CHECK(p.matches(i)); CHECK(g_seen.empty()); p.consume(i);
		CHECK(g_seen == (std::vector<std::vector<const void*>>{{x.at(I)...}}));
	}
}
template <std::size_t I> void req_case()
{
	for (int r = 0; r < 12; ++r)
	{
		bool v = r % 2; Args4 x = rnd(); const auto i = mk<int>(x); Same s{x, &x}; g_ctx = "expect::arg<" + std::to_string(I) + ">"; g_seen.clear();
		auto p = expect::arg<I>(RecMatcher{&v}); const auto& cp = p; CHECK(p.is_satisfied()); CHECK(cp.matches(i) == v); CHECK(g_seen == (std::vector<std::vector<const void*>>{{x.at(I)}}));
		v = !v; CHECK(cp.matches(i) == v); g_seen.clear(); p.consume(i); CHECK(g_seen.empty());
		int n = 0; const void* at = nullptr; bool sel = r % 3 != 0;
		auto q = expect::arg<I>(matches::eq(42), [&](auto& t) { ++n; at = std::addressof(t); return sel ? 42 : 43; });
		CHECK(q.matches(i) == sel); CHECK(n == 1 && at == x.at(I)); q.consume(i); CHECK(n == 1);
		bool thrown = false; const auto t = expect::arg<I>(RecMatcher{nullptr}); try { (void)t.matches(i); } catch (int e) { thrown = e == 17; } CHECK(thrown);
	}
}
template <std::size_t A, std::size_t B> void pair_case() { effect_case<A, B>(then::apply_args<A, B>(Rec{}), "then::apply_args with two indices"); }
template <std::size_t A> void one_case()
{
	effect_case<A>(then::apply_arg<A>(Rec{}), "then::apply_arg"); pair_case<A, 0>(); pair_case<A, 1>(); pair_case<A, 2>(); pair_case<A, 3>(); req_case<A>();
	effect_case<A, 3, 0>(then::apply_args<A, 3, 0>(Rec{}), "then::apply_args with three indices"); effect_case<1, A, A, 2>(then::apply_args<1, A, A, 2>(Rec{}), "then::apply_args with four indices");
}
template <ValueCategory E, Constness K> void cat_case()
{
	for (auto c : {ValueCategory::lvalue, ValueCategory::rvalue, ValueCategory::any}) for (auto k : {Constness::non_const, Constness::as_const, Constness::any})
	{
		Args4 x = rnd(); const auto i = mk<void>(x, c, k); g_ctx = "category/constness requirement"; Same s{x, &x};
		const bool wc = E == ValueCategory::any || c == ValueCategory::any || E == c, wk = K == Constness::any || k == Constness::any || K == k;
		const expectation_policies::Category<E> pc{}; const expectation_policies::Constness<K> pk{};
		CHECK(pc.matches(i) == wc); CHECK(pk.matches(i) == wk); CHECK(pc.is_satisfied() && pk.is_satisfied()); if (wc) pc.consume(i); if (wk) pk.consume(i);
	}
}
struct Cnt { int* out; mutable int n{}; void operator()(auto&...) const { *out = ++n; } };      // keeps its own state
struct CntR { mutable int n{}; int operator()(auto&...) const { return ++n; } };
inline void policies()
{
	g_ctx = "the stored action itself is run, every time"; { int n = 0; Args4 x = rnd(); const auto i = mk<void>(x); auto run = [&](auto p) { n = 0; for (int k = 1; k <= 3; ++k) { p.consume(i); CHECK(n == k); } }; run(then::apply_all(Cnt{&n})); run(then::apply_arg<1>(Cnt{&n})); run(then::apply_args<2, 0>(Cnt{&n})); run(then::invoke([&n, c = 0]() mutable { n = ++c; })); }
	one_case<0>(); one_case<1>(); one_case<2>(); one_case<3>();
	effect_case<0, 1, 2, 3>(then::apply_all(Rec{}), "then::apply_all"); int n = 0; { Args4 x = rnd(); auto p = then::invoke([&n] { ++n; }); const auto i = mk<int>(x); CHECK(p.matches(i)); CHECK(n == 0); p.consume(i); CHECK(n == 1); p.consume(i); CHECK(n == 2); }
	using V = ValueCategory; using K = Constness;
	cat_case<V::lvalue, K::non_const>(); cat_case<V::rvalue, K::as_const>(); cat_case<V::any, K::any>();
	// through a mock: every requirement is asked, every effect runs once per accepted call, arguments can be changed by effects only
	for (int r = 0; r < 300; ++r)
	{
		Mock<int(int, Big&, const std::string&)> m{}; std::vector<int> log; const int want = static_cast<int>(g_rng() % 3), times = 1 + static_cast<int>(g_rng() % 4); g_ctx = "mock with requirements and effects";
		ScopedExpectation e = m.expect_call(matches::eq(want), matches::_, matches::_) and expect::times(0, times) and expect::arg<2>(matches::eq(std::string{"x"}))
			and then::apply_args<1, 0>([&](Big& b, int a) { log.push_back(b.v * 100 + a); ++b.v; }) and then::invoke([&] { log.push_back(-1); }) and finally::returns(9);
		int acc = 0; std::vector<int> wl; Big b{static_cast<int>(g_rng() % 9)};
		for (int c = 0; c < 8; ++c)
		{
			const int a = static_cast<int>(g_rng() % 3); const std::string s = g_rng() % 3 ? "x" : "y"; const bool ok = a == want && s == "x" && acc < times; const int v = b.v; bool got = true;
			try { CHECK(m(a, b, s) == 9); } catch (const Fail&) { got = false; }
			CHECK(got == ok); if (ok) { ++acc; wl.push_back(v * 100 + a); wl.push_back(-1); } CHECK(b.v == v + (ok ? 1 : 0)); CHECK(log == wl); CHECK(s == "x" || s == "y");
		}
	}
}
// finalizers
struct ExA { int v; bool operator==(const ExA&) const = default; };
struct FnOver { int* n; int operator()() { ++*n; throw ExA{*n}; } int operator()() const noexcept { ++*n; return 1; } };
inline void finalizers()
{
	for (int r = 0; r < 200; ++r)
	{
		const int v = static_cast<int>(g_rng()); g_ctx = "finally::returns(value)"; Args4 x = rnd(); auto pv = finally::returns(Big{v}); const Big lv{v}; auto pl = finally::returns(lv); Big rb{v}; auto pw = finally::returns(std::ref(rb)); auto pi = finally::returns(v); auto ps = finally::returns(std::string(50, 'q'));
		const Big* first = nullptr; Same s{x, &x};
		for (int k = 0; k < 5; ++k)
		{
			CHECK(pv.finalize_call(mk<Big>(x)).v == v); CHECK(pl.finalize_call(mk<Big>(x)).v == v); CHECK(lv.v == v); CHECK(&pw.finalize_call(mk<Big&>(x)) == &rb); CHECK(pw.finalize_call(mk<Big>(x)).v == v); CHECK(rb.v == v);
			CHECK(pi.finalize_call(mk<int>(x)) == v); CHECK(pi.finalize_call(mk<long>(x)) == v); CHECK(ps.finalize_call(mk<std::string>(x)) == std::string(50, 'q'));
			Big& ref = pv.finalize_call(mk<Big&>(x)); CHECK(ref.v == v); if (!first) first = &ref; CHECK(first == &ref); CHECK(&pv.finalize_call(mk<const Big&>(x)) == first); { Big&& rr = pv.finalize_call(mk<Big&&>(x)); CHECK(&rr == first); CHECK(rr.v == v); }
		}
		g_ctx = "finally::returns_result_of"; int n = 0; auto pr = finally::returns_result_of([&] { ++n; return Big{n * 7}; }); auto pm = finally::returns_result_of([k = 3]() mutable { return k++; }); auto pref = finally::returns_result_of([&]() -> Big& { ++n; return rb; });
		for (int k = 1; k <= 4; ++k) { CHECK(pr.finalize_call(mk<Big>(x)).v == k * 7); CHECK(n == k); CHECK(pm.finalize_call(mk<int>(x)) == 2 + k); }
		n = 0; CHECK(&pref.finalize_call(mk<Big&>(x)) == &rb); CHECK(n == 1); CHECK(pref.finalize_call(mk<Big>(x)).v == v); CHECK(n == 2); CHECK(rb.v == v);
		g_ctx = "finally::returns_result_of(const callable with a throwing non-const and a noexcept const call operator)"; n = 0; const FnOver fo{&n}; auto po = finally::returns_result_of(fo); bool ok = false; try { (void)po.finalize_call(mk<int>(x)); } catch (const ExA& e) { ok = e.v == 1; } CHECK(ok && n == 1);
		g_ctx = "finally::returns_apply_result_of"; g_seen.clear(); auto pa = finally::returns_apply_result_of<3, 0, 3>([&](auto&... t) -> int { g_seen.push_back({static_cast<const void*>(std::addressof(t))...}); return v; }); auto pb = finally::returns_apply_result_of<1>([&](Big& b) -> Big& { g_seen.push_back({&b}); return b; }); auto pc = finally::returns_apply_result_of<2, 1>([&](auto&... t) -> int { g_seen.push_back({static_cast<const void*>(std::addressof(t))...}); return v; });
		CHECK(pa.finalize_call(mk<int>(x)) == v); CHECK(g_seen == (std::vector<std::vector<const void*>>{{x.at(3), x.at(0), x.at(3)}})); g_seen.clear(); CHECK(&pb.finalize_call(mk<Big&>(x)) == &x.b); CHECK(g_seen.size() == 1 && g_seen[0][0] == &x.b);
		g_seen.clear(); CHECK(pc.finalize_call(mk<int>(x)) == v); CHECK(g_seen == (std::vector<std::vector<const void*>>{{x.at(2), x.at(1)}}));
		g_ctx = "finally::returns_apply_all_result_of"; g_seen.clear(); auto pall = finally::returns_apply_all_result_of([&](auto&... t) -> int { g_seen.push_back({static_cast<const void*>(std::addressof(t))...}); return v + 1; }); CHECK(pall.finalize_call(mk<int>(x)) == static_cast<int>(v + 1u)); CHECK(g_seen == (std::vector<std::vector<const void*>>{{x.at(0), x.at(1), x.at(2), x.at(3)}}));
		{ auto own = [&](auto p) { for (int k = 1; k <= 3; ++k) CHECK(p.finalize_call(mk<int>(x)) == k); }; own(finally::returns_apply_all_result_of(CntR{})); own(finally::returns_apply_result_of<1>(CntR{})); own(finally::returns_result_of([k = CntR{}]() mutable { return k(); })); }
		g_ctx = "finally::returns_arg"; CHECK(finally::returns_arg<0>().finalize_call(mk<int>(x)) == x.a); CHECK(&finally::returns_arg<1>().finalize_call(mk<Big&>(x)) == &x.b); CHECK(&finally::returns_arg<2>().finalize_call(mk<const std::string&>(x)) == &x.c); CHECK(finally::returns_arg<2>().finalize_call(mk<std::string>(x)) == x.c); { Big&& rr = finally::returns_arg<3>().finalize_call(mk<Big&&>(x)); CHECK(&rr == &x.d); }
		CHECK(finally::returns_arg<1>().finalize_call(mk<Big>(x)).v == x.b.v);
		g_ctx = "finally::throws"; const ExA ex{v}; auto pt = finally::throws(ex); auto pti = finally::throws(v); auto pts = finally::throws(std::string(60, 'e'));
		for (int k = 0; k < 4; ++k)
		{
			bool a = false, b = false, c = false; try { pt.finalize_call(mk<void>(x)); } catch (ExA& e) { a = e == ExA{v}; e.v = 0; } try { (void)pti.finalize_call(mk<Big>(x)); } catch (int e) { b = e == v; } try { pts.finalize_call(mk<int>(x)); } catch (std::string& e) { c = e == std::string(60, 'e'); e.clear(); }
			CHECK(a); CHECK(b); CHECK(c);
		}
		expectation_policies::InitFinalize{}.finalize_call(mk<void>(x));
		// through a mock, many calls
		g_ctx = "mock with a finalizer"; Mock<Big(int)> m{}; ScopedExpectation e = m.expect_call(matches::_) and expect::at_most(6) and finally::returns(Big{v}); for (int k = 0; k < 6; ++k) CHECK(m(k).v == v);
		Mock<int()> mt{}; ScopedExpectation et = mt.expect_call() and expect::at_most(4) and finally::throws(ExA{v}); for (int k = 0; k < 4; ++k) { bool a = false; try { (void)mt(); } catch (const ExA& q) { a = q.v == v; } CHECK(a); }
	}
}
