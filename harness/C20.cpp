#include "h.hpp"
#include <algorithm>
using namespace mimicpp;
using Sig = int(int); using Info = call::info_for_signature_t<Sig>;
static std::vector<int> g_match, g_used;
struct Pol
{
	int id{}; std::vector<int> payload{};
	Pol(int i) : id{i}, payload{i, i * 7} {}
	bool is_satisfied() const noexcept { return true; }
	bool matches(const Info&) const { g_match.push_back(payload.empty() ? -1 : id); return true; }
	std::optional<StringT> describe() const { return std::to_string(id); }
	void consume(const Info&) { g_used.push_back(payload.size() == 2 && payload[1] == id * 7 ? id : -1); }
};
static_assert(expectation_policy_for<Pol, Sig>);
// what can be chained: 0 times, 1 sequence a, 2 sequence b, 3 finalizer, 4.. policies
struct World { LazySequence a{}, b{}; std::shared_ptr<ExpectationCollection<Sig>> coll = std::make_shared<ExpectationCollection<Sig>>(); };
template <int k, typename B> auto add(B&& b, World& w, int lo, int hi, const Pol& keep)
{
	if constexpr (k == 0) return std::move(b) and expect::times(lo, hi);
	else if constexpr (k == 1) return std::move(b) and expect::in_sequence(w.a);
	else if constexpr (k == 2) return std::move(b) and expect::in_sequence(w.b);
	else if constexpr (k == 3) return std::move(b) and finally::returns(4711);
	else if constexpr (k == 5) return std::move(b) and keep;               // lvalue
	else return std::move(b) and Pol{k};
}
template <typename B> auto chain(B&& b, World&, int, int, const Pol&) { return std::move(b); }
template <int k, int... r, typename B> auto chain(B&& b, World& w, int lo, int hi, const Pol& keep) { return chain<r...>(add<k>(std::move(b), w, lo, hi, keep), w, lo, hi, keep); }
CallReport cr() { return {.returnTypeIndex = typeid(int), .argDetails = {}, .fromLoc = std::source_location::current(), .fromCategory = ValueCategory::any, .fromConstness = Constness::any}; }
Info mk(int& v) { return Info{.args = {std::ref(v)}, .fromCategory = ValueCategory::any, .fromConstness = Constness::any}; }
template <int... k> void order(int lo, int hi)
{
	constexpr int ks[] = {k..., -1}; World w{}; const Pol keep{5}; g_ev.clear();
	g_ctx = "chained in the order"; for (int x : ks) if (x >= 0) g_ctx += x == 0 ? " times(" + std::to_string(lo) + "," + std::to_string(hi) + ")" : x < 3 ? std::string(" sequence ") + "?ab"[x] : x == 3 ? " finalizer" : " policy" + std::to_string(x);
	std::vector<int> pols; bool t = false, sa = false, sb = false, f = false; for (int x : ks) { if (x > 3) pols.push_back(x); t |= x == 0; sa |= x == 1; sb |= x == 2; f |= x == 3; }
	auto b = mimicpp::detail::make_expectation_builder<Sig>(w.coll);
	const auto before = std::source_location::current();
	{
		if constexpr (((k == 3) || ...))
		{
			ScopedExpectation e = chain<k...>(std::move(b), w, lo, hi, keep);
			CHECK(keep.payload.size() == 2);
			const int mn = t ? lo : 1, mx = t ? hi : 1;
			int first = 0; ScopedExpectation* prior = nullptr; (void)first; (void)prior;
			for (int c = 0; c < mx + 1; ++c)
			{
				CHECK(e.is_satisfied() == (c >= mn));
				g_match.clear(); g_used.clear(); int v = c; bool denied = false;
				try { const int r = w.coll->handle_call(mk(v)); CHECK(r == 4711); } catch (const Fail&) { denied = true; }
				CHECK(g_match == pols); CHECK(denied == (c == mx));
				if (!denied) CHECK(g_used == pols);
				if (!denied && g_ev.back().kind == "full") { const auto& m = g_ev.back().matches.at(0); CHECK(m.expectationReports.size() == pols.size()); for (std::size_t i = 0; i < pols.size(); ++i) CHECK(m.expectationReports[i].description == std::to_string(pols[i])); CHECK(m.sourceLocation && m.sourceLocation->line() > before.line() && m.sourceLocation->line() < before.line() + 5); }
			}
			// attached sequences: a later element of the same sequence is consumable now, earlier ones no longer needed
			ScopedExpectation la = mimicpp::detail::make_expectation_builder<Sig>(w.coll) and finally::returns(1) and expect::in_sequence(w.a);
			int v = 1; CHECK(w.coll->handle_call(mk(v)) == 1);
		}
		else (void)b;
	}
	if constexpr (((k == 3) || ...)) for (int which : {1, 2})
	{	// not (yet) satisfied: blocks a later element of exactly the sequences it is attached to
		World w2{}; auto other = std::make_shared<ExpectationCollection<Sig>>();
		ScopedExpectation e = chain<k...>(mimicpp::detail::make_expectation_builder<Sig>(w2.coll), w2, 1, 2, keep);
		ScopedExpectation l = mimicpp::detail::make_expectation_builder<Sig>(other) and finally::returns(1) and expect::in_sequence(which == 1 ? w2.a : w2.b);
		int v = 0; bool denied = false; try { other->handle_call(mk(v)); } catch (const Fail&) { denied = true; }
		CHECK(denied == (which == 1 ? sa : sb));
		w2.coll->handle_call(mk(v)); if (denied) { CHECK(other->handle_call(mk(v)) == 1); }
	}
}
// positional arguments
struct X { int v{}; bool operator==(const X&) const = default; };
struct Is { int v; std::shared_ptr<int> p = std::make_shared<int>(1); bool matches(const auto& x) const { return p && x.v == v; } StringT describe() const { return "is"; } };
template <> struct mimicpp::custom::Printer<X> { static auto print(auto out, const X&) { return std::format_to(out, "X"); } };
int main()
{
	install();
	for (int lo = 0; lo < 3; ++lo) for (int hi = std::max(lo, 1); hi < 4; ++hi)
	{
		order<3>(lo, hi); order<3, 0>(lo, hi); order<0, 3>(lo, hi); order<4, 3, 5>(lo, hi); order<3, 5, 4>(lo, hi); order<4, 5, 6, 3>(lo, hi); order<6, 3, 4, 0, 5>(lo, hi);
		order<0, 1, 3, 4>(lo, hi); order<1, 0, 3, 4>(lo, hi); order<4, 3, 1, 0>(lo, hi); order<3, 4, 0, 1>(lo, hi); order<1, 2, 3>(lo, hi); order<2, 3, 1, 4, 5, 0>(lo, hi); order<4, 0, 5, 1, 6, 2, 3>(lo, hi); order<3, 2, 1, 0, 6, 5, 4>(lo, hi); order<5, 4, 3, 2, 1, 0>(lo, hi); order<0, 3, 5, 1, 4, 2>(lo, hi); order<2, 5, 0, 6, 3>(lo, hi);
	}
	using S3 = void(X&, const std::string&, const X&); using I3 = call::info_for_signature_t<S3>;
	for (int a = 0; a < 2; ++a) for (const char* s : {"", "x", "xy"}) for (int b = 0; b < 2; ++b) for (int pa = 0; pa < 2; ++pa) for (const char* ps : {"", "x", "xy"}) for (int pb = 0; pb < 2; ++pb)
	{
		g_ctx = "expect_call(" + std::to_string(pa) + ",\"" + ps + "\"," + std::to_string(pb) + ") against (" + std::to_string(a) + ",\"" + s + "\"," + std::to_string(b) + ")";
		const bool same = a == pa && std::string{s} == ps && b == pb; X x{a}; const X y{b}; const std::string str{s};
		auto run = [&](auto... w) {
			auto c = std::make_shared<ExpectationCollection<S3>>(); bool denied = false;
			ScopedExpectation e = mimicpp::detail::make_expectation_builder<S3>(c, w...) and expect::at_most(1);
			try { c->handle_call(I3{.args = {std::ref(x), std::cref(str), std::cref(y)}, .fromCategory = ValueCategory::any, .fromConstness = Constness::any}); } catch (const Fail&) { denied = true; }
			return !denied;
		};
		using matches::_;
		CHECK(run(X{pa}, std::string{ps}, X{pb}) == same); CHECK(run(Is{pa}, ps, Is{pb}) == same); CHECK(run(Is{pa}, _, X{pb}) == (a == pa && b == pb)); CHECK(run(_, ps, _) == (std::string{s} == ps)); CHECK(run(_, _, Is{pb}) == (b == pb)); CHECK(run(X{pa}, _, _) == (a == pa));
	}
	std::puts("ok: 18 chain orders with every times range up to 3, and positional arguments of three kinds");
}
