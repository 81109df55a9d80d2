#include "expmodel.hpp"
#include "statetext.hpp"
namespace d12
{
	std::mt19937 r{12}; int n(int m) { return (int)(r() % m); }
	using Sig = int(int, char&); using Info_ = call::info_for_signature_t<Sig>;
	struct Ev12 { int who; const void* call; bool operator==(const Ev12&) const = default; }; std::vector<Ev12> log;
	struct D { int id; bool sat, match, throws; std::optional<S> desc; };
	struct P
	{
		D d; const void* seen{};
		bool is_satisfied() const noexcept { return d.sat; }
		bool matches(const Info_& c) const { log.push_back({d.id, &c}); if (d.throws) throw d.id; return d.match; }
		std::optional<StringT> describe() const { return d.desc; }
		void consume(const Info_& c) noexcept { log.push_back({100 + d.id, &c}); }
	};
	struct C { D d; control_state_t s; bool is_satisfied() const noexcept { return d.sat; } control_state_t state() const { return s; } void consume() { log.push_back({-1, nullptr}); if (d.throws) throw -1; } };
	struct F { int result; bool throws; int finalize_call(const Info_& c) { log.push_back({-2, &c}); if (throws) throw -2; return result; } };
	D d(int id) { D x{id, n(4) != 0, n(3) != 0, n(8) == 0, {}}; if (n(3)) x.desc = S("policy ") + num(n(1000)); return x; }
	std::vector<Ev12> taken() { return std::exchange(log, {}); }
	control_state_t st()
	{
		int lo = n(4), hi = lo + n(4), c = n(hi + 1); std::vector<sequence::rating> a; std::vector<sequence::Tag> b; for (int i = n(4); i--;) a.push_back({n(9), sequence::Tag{n(9)}}); for (int i = n(4); i--;) b.push_back(sequence::Tag{n(9)});
		switch (n(3)) { case 0: return state_inapplicable{lo, hi, c, a, b}; case 1: return state_applicable{lo, hi, c, a}; default: return state_saturated{lo, hi, c, b}; }
	}
	template <std::size_t... I> void go(std::index_sequence<I...>)
	{
		constexpr int N = sizeof...(I); std::array<D, N> ps{d((int)I)...}; D cd = d(50); control_state_t s = st(); F f{n(1000), n(6) == 0}; auto loc = n(2) ? std::source_location::current() : std::source_location{};
		g_ctx = "an expectation with " + num(N) + " policies"; log.clear();
		BasicExpectation<Sig, C, F, std::conditional_t<true, P, std::integral_constant<int, (int)I>>...> e{loc, C{cd, s}, F{f}, P{ps[I], nullptr}...}; const auto& ce = e; int a = 1; char ch = 'x'; Info_ c{.args = {std::ref(a), std::ref(ch)}};
		bool all = cd.sat; for (auto& p : ps) all = all && p.sat; CHECK(ce.is_satisfied() == all); CHECK(is_same_source_location(ce.from(), loc)); taken();
		for (int rep = 0; rep < 2; ++rep)
		{
			auto er = ce.report(); CHECK(er.sourceLocation && is_same_source_location(*er.sourceLocation, loc)); CHECK(!er.finalizerDescription); CHECK(er.timesDescription == want(s)); CHECK(er.expectationDescriptions.size() == N); for (int i = 0; i < N; ++i) CHECK(er.expectationDescriptions[i] == ps[i].desc); CHECK(taken().empty());
			int thrower = -9; for (auto& p : ps) if (p.throws) { thrower = p.id; break; }
			try
			{
				MatchReport m = ce.matches(c); CHECK(thrower == -9); auto l = taken(); CHECK(l.size() == N); for (int i = 0; i < N; ++i) CHECK(l[i] == Ev12{i, &c});
				CHECK(is_same_source_location(*m.sourceLocation, loc)); CHECK(m.controlReport == s); CHECK(!m.finalizeReport.description); CHECK(m.expectationReports.size() == N); for (int i = 0; i < N; ++i) CHECK(m.expectationReports[i].isMatching == ps[i].match && m.expectationReports[i].description == ps[i].desc);
			} catch (int x) { CHECK(x == thrower); taken(); }
			try { e.consume(c); CHECK(!cd.throws); auto l = taken(); CHECK(l.size() == N + 1 && l[0] == (Ev12{-1, nullptr})); for (int i = 0; i < N; ++i) CHECK(l[i + 1] == Ev12{100 + i, &c}); } catch (int x) { CHECK(x == -1 && cd.throws); CHECK(taken().size() == 1); }
			try { CHECK(e.finalize_call(c) == f.result); CHECK(!f.throws); } catch (int x) { CHECK(x == -2 && f.throws); } auto l = taken(); CHECK(l.size() == 1 && l[0] == (Ev12{-2, &c}));
		}
	}
	void run(int k) { for (int i = 0; i < k; ++i) { go(std::make_index_sequence<0>{}); go(std::make_index_sequence<1>{}); go(std::make_index_sequence<2>{}); go(std::make_index_sequence<3>{}); go(std::make_index_sequence<4>{}); } }
}
int main() { install(); d12::run(3000); expectations(121, 4000); std::puts("ok: 15000 expectations over user policies, 0..4 of them; random histories against the reference model: expectations(121, 4000);"); }
