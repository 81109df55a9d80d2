// instantiation unit: expectation collections and expectations over opaque policies
#include "mimic++/mimic++.hpp"
namespace vu
{
#ifndef VU_SIG
#define VU_SIG int(int, char&)
#endif
	using Sig = VU_SIG;
	using Info = mimicpp::call::info_for_signature_t<Sig>;
	// opaque user types: declared, never defined (assumed contracts)
	struct Pol1
	{
		Pol1(Pol1&&) noexcept; ~Pol1();
		bool is_satisfied() const noexcept; bool matches(const Info&) const; std::optional<mimicpp::StringT> describe() const; void consume(const Info&);
		int data;
	};
	struct Pol2
	{
		Pol2(Pol2&&) noexcept; ~Pol2();
		bool is_satisfied() const noexcept; bool matches(const Info&) const; std::optional<mimicpp::StringT> describe() const; void consume(const Info&);
		int data;
	};
	struct Ctl
	{
		Ctl(Ctl&&) noexcept; ~Ctl();
		bool is_satisfied() const noexcept; mimicpp::control_state_t state() const; void consume();
		int data;
	};
	struct Fin { Fin(Fin&&) noexcept; ~Fin(); mimicpp::signature_return_type_t<Sig> finalize_call(const Info&); int data; };
	using E0 = mimicpp::BasicExpectation<Sig, Ctl, Fin>;
	using E1 = mimicpp::BasicExpectation<Sig, Ctl, Fin, Pol1>;
	using E2 = mimicpp::BasicExpectation<Sig, Ctl, Fin, Pol1, Pol2>;
	using E3 = mimicpp::BasicExpectation<Sig, Ctl, Fin, Pol2, Pol1, Pol1>;
	using E5 = mimicpp::BasicExpectation<Sig, Ctl, Fin, Pol1, Pol2, Pol2, Pol1, Pol2>;
}
template class mimicpp::ExpectationCollection<vu::Sig>;
template class mimicpp::BasicExpectation<vu::Sig, vu::Ctl, vu::Fin>;
template class mimicpp::BasicExpectation<vu::Sig, vu::Ctl, vu::Fin, vu::Pol1>;
template class mimicpp::BasicExpectation<vu::Sig, vu::Ctl, vu::Fin, vu::Pol1, vu::Pol2>;
template class mimicpp::BasicExpectation<vu::Sig, vu::Ctl, vu::Fin, vu::Pol2, vu::Pol1, vu::Pol1>;
template class mimicpp::BasicExpectation<vu::Sig, vu::Ctl, vu::Fin, vu::Pol1, vu::Pol2, vu::Pol2, vu::Pol1, vu::Pol2>;
namespace vu
{
	// layout probes
	using Match = std::tuple<mimicpp::Expectation<Sig>&, mimicpp::MatchReport>;
	const void* m_report(const Match& m) { return &std::get<1>(m); }
	const void* m_exp(const Match& m) { return &std::get<0>(m); }
	Match match_mk(mimicpp::Expectation<Sig>& e, mimicpp::MatchReport& r) { return Match{e, r}; }
	const void* r_state(const mimicpp::MatchReport& m) { return &m.controlReport; }
	const mimicpp::state_applicable* r_app(const mimicpp::MatchReport& m) { return std::get_if<mimicpp::state_applicable>(&m.controlReport); }
	const void* app_ratings(const mimicpp::state_applicable& s) { return &s.sequenceRatings; }
	const void* o_val(const std::optional<mimicpp::MatchReport>& o) { return std::addressof(*o); }
	bool o_has(const std::optional<mimicpp::MatchReport>& o) { return o.has_value(); }
	mimicpp::MatchResult eval(const mimicpp::MatchReport& r) { return mimicpp::evaluate_match_report(r); }
}
namespace vu
{
	constexpr mimicpp::MatchResult v_none() { return mimicpp::MatchResult::none; }
	constexpr mimicpp::MatchResult v_inapp() { return mimicpp::MatchResult::inapplicable; }
	constexpr mimicpp::MatchResult v_full() { return mimicpp::MatchResult::full; }
	auto enumerators = std::array{&v_none, &v_inapp, &v_full};
	const void* scoped_inner(const mimicpp::ScopedExpectation& s) { return &s; }
	mimicpp::ScopedExpectation scoped_mk(std::shared_ptr<mimicpp::ExpectationCollection<Sig>> c, std::shared_ptr<mimicpp::Expectation<Sig>> e) { return mimicpp::ScopedExpectation{std::move(c), std::move(e)}; }
}
namespace vu
{
	void scoped_drop(mimicpp::ScopedExpectation& s) { s.~ScopedExpectation(); }
	mimicpp::ScopedExpectation scoped_mv(mimicpp::ScopedExpectation& s) { return mimicpp::ScopedExpectation{std::move(s)}; }
	void scoped_asg(mimicpp::ScopedExpectation& d, mimicpp::ScopedExpectation& s) { d = std::move(s); }
	bool scoped_sat(const mimicpp::ScopedExpectation& s) { return s.is_satisfied(); }
	const std::source_location& scoped_from(const mimicpp::ScopedExpectation& s) { return s.from(); }
}
namespace vu
{
	E0 mk0(const std::source_location& l, Ctl& c, Fin& f) { return E0(l, std::move(c), std::move(f)); }
	E1 mk1(const std::source_location& l, Ctl& c, Fin& f, Pol1& a) { return E1(l, std::move(c), std::move(f), std::move(a)); }
	E2 mk2(const std::source_location& l, Ctl& c, Fin& f, Pol1& a, Pol2& b) { return E2(l, std::move(c), std::move(f), std::move(a), std::move(b)); }
	E3 mk3(const std::source_location& l, Ctl& c, Fin& f, Pol2& a, Pol1& b, Pol1& d) { return E3(l, std::move(c), std::move(f), std::move(a), std::move(b), std::move(d)); }
	E5 mk5(const std::source_location& l, Ctl& c, Fin& f, Pol1& a, Pol2& b, Pol2& d, Pol1& e, Pol2& g) { return E5(l, std::move(c), std::move(f), std::move(a), std::move(b), std::move(d), std::move(e), std::move(g)); }
	const void* od_val(const std::optional<mimicpp::StringT>& o) { return std::addressof(*o); }
	const void* ol_val(const std::optional<std::source_location>& o) { return std::addressof(*o); }
}
