// instantiation unit: the texts of reports
#include "rep.cpp"
namespace vu
{
	struct Out { using difference_type = std::ptrdiff_t; struct Ref { const Ref& operator=(const char&) const; }; Ref operator*() const; Out& operator++(); Out operator++(int); long text; };
	Out times_text(Out o, std::size_t current, std::size_t min, std::size_t max) { return mimicpp::detail::print_times_state(o, current, min, max); }
	Out app_text(Out o, const state_applicable& s) { return mimicpp::detail::control_state_printer{}(o, s); } Out ina_text(Out o, const state_inapplicable& s) { return mimicpp::detail::control_state_printer{}(o, s); } Out sat_text(Out o, const state_saturated& s) { return mimicpp::detail::control_state_printer{}(o, s); }
	Out call_text(Out o, const CallReport& r) { return print(o, r); } Out exp_text(Out o, const ExpectationReport& r) { return print(o, r); } Out match_text(Out o, const MatchReport& r) { return print(o, r); }
	StringT s_no(const CallReport& c, std::span<const MatchReport> m) { return mimicpp::detail::stringify_no_match_report(c, m); } StringT s_inapp(const CallReport& c, std::span<const MatchReport> m) { return mimicpp::detail::stringify_inapplicable_match_report(c, m); } StringT s_full(const CallReport& c, const MatchReport& m) { return mimicpp::detail::stringify_report(c, m); } StringT s_unful(const ExpectationReport& e) { return mimicpp::detail::stringify_unfulfilled_expectation(e); } StringT s_unh(const CallReport& c, const ExpectationReport& e, const std::exception_ptr& x) { return mimicpp::detail::stringify_unhandled_exception(c, e, x); }
}
