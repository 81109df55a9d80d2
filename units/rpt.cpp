// instantiation unit: reporters
#include "mimic++/mimic++.hpp"
namespace vu
{
	using namespace mimicpp; using MRs = std::vector<MatchReport>;
	// user-given reporter functions
	void succ(const StringT&); void warn(const StringT&); void fail(const StringT&);
	using Basic = BasicReporter<&succ, &warn, &fail>; using Def = DefaultReporter;
#define OPS(N, T) \
	void N##_no(T& r, CallReport& c, MRs& m) { r.report_no_matches(std::move(c), std::move(m)); } void N##_inapp(T& r, CallReport& c, MRs& m) { r.report_inapplicable_matches(std::move(c), std::move(m)); } \
	void N##_full(T& r, CallReport& c, MatchReport& m) { r.report_full_match(std::move(c), std::move(m)); } void N##_unful(T& r, ExpectationReport& e) { r.report_unfulfilled_expectation(std::move(e)); } \
	void N##_error(T& r, StringT& s) { r.report_error(std::move(s)); } void N##_unh(T& r, CallReport& c, ExpectationReport& e, std::exception_ptr& x) { r.report_unhandled_exception(std::move(c), std::move(e), x); }
	OPS(basic, Basic) OPS(def, Def)
	// hand-over to the installed reporter
	void to_no(CallReport& c, MRs& m) { mimicpp::detail::report_no_matches(std::move(c), std::move(m)); } void to_inapp(CallReport& c, MRs& m) { mimicpp::detail::report_inapplicable_matches(std::move(c), std::move(m)); }
	void to_full(CallReport& c, MatchReport& m) { mimicpp::detail::report_full_match(std::move(c), std::move(m)); } void to_unful(ExpectationReport& e) { mimicpp::detail::report_unfulfilled_expectation(std::move(e)); }
	void to_error(StringT& s) { mimicpp::detail::report_error(std::move(s)); } void to_unh(CallReport& c, ExpectationReport& e, std::exception_ptr& x) { mimicpp::detail::report_unhandled_exception(std::move(c), std::move(e), x); }
	// installation
	struct Mine final : IReporter { explicit Mine(int i, const int* j); ~Mine(); int data; const int* more;
		[[noreturn]] void report_no_matches(CallReport, MRs) override; [[noreturn]] void report_inapplicable_matches(CallReport, MRs) override; void report_full_match(CallReport, MatchReport) noexcept override;
		void report_unfulfilled_expectation(ExpectationReport) override; void report_error(StringT) override; void report_unhandled_exception(CallReport, ExpectationReport, std::exception_ptr) override; };
	void inst(int i, const int* j) { install_reporter<Mine>(i, j); } void inst2(void* o, int i, const int* j) { ::new (o) mimicpp::detail::ReporterInstaller<Mine>(i, j); }
	void* current() { return &mimicpp::detail::get_reporter(); }
	MatchResult v_none() { return MatchResult::none; } MatchResult v_inapp() { return MatchResult::inapplicable; } MatchResult v_full() { return MatchResult::full; }
	// data of the exceptions
	using UM = UnmatchedCallT; using UF = UnfulfilledExpectationT; using ER = Error<>;
	const void* um_call(const UM& e) { return &std::get<0>(e.data()); } const void* um_list(const UM& e) { return &std::get<1>(e.data()); } const void* um_where(const UM& e) { return &e.where(); } const void* uf_rep(const UF& e) { return &e.data(); }
	const void* ty_um() { return &typeid(UM); } const void* ty_uf() { return &typeid(UF); } const void* ty_er() { return &typeid(ER); } const void* c_loc(const CallReport& c) { return &c.fromLoc; }
	IReporter* mkb(void* o) { return ::new (o) Basic{}; } IReporter* mk(void* o, std::ostream* s) { return ::new (o) Def{s}; }
}
