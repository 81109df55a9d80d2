// FLAGS: -fsanitize=undefined -fno-sanitize-recover=undefined
#include "h.hpp"
using namespace mimicpp;
static std::string g_last; static int g_n[3];
void hs(const StringT& m) { g_last = m; ++g_n[0]; } void hw(const StringT& m) { g_last = m; ++g_n[1]; } struct Stop {}; void hf(const StringT& m) { g_last = m; ++g_n[2]; throw Stop{}; }
using Basic = BasicReporter<&hs, &hw, &hf>;
enum Out { returns, um, uf, err, stop, other };
template <typename F> Out outcome(F&& f) { try { f(); } catch (const UnmatchedCallT&) { return um; } catch (const UnfulfilledExpectationT&) { return uf; } catch (const Error<>&) { return err; } catch (const Stop&) { return stop; } catch (...) { return other; } return returns; }
template <typename F> struct InFlight { F f; Out* o; ~InFlight() noexcept(false) { *o = outcome(f); } };
template <typename F> Out during(F f, int depth)
{
	if (depth == 0) return outcome(f);
	Out o{}; try { InFlight<F> x{f, &o}; throw 1; } catch (int) {} if (depth == 2) { try { auto g = [&] { o = during(f, 1); }; InFlight<decltype(g)> x{g, new Out}; throw 2; } catch (int) {} } return o;
}
CallReport mkcall(int n) { CallReport c{.returnTypeIndex = typeid(void), .argDetails = {}, .fromLoc = std::source_location::current(), .fromCategory = ValueCategory::any, .fromConstness = Constness::any}; for (int i = 0; i < n; ++i) c.argDetails.push_back({typeid(int), std::to_string(i)}); return c; }
MatchReport match(int kind, int n)
{
	MatchReport m{}; m.finalizeReport.description = std::to_string(n); if (kind == 2) m.controlReport = state_applicable{0, 1, 0, {}}; else if (kind == 1) m.controlReport = state_saturated{0, 1, 1, {}}; else m.controlReport = state_applicable{0, 1, 0, {}};
	m.expectationReports.push_back({true, "first"}); if (kind == 0) m.expectationReports.push_back({false, "second"}); return m;
}
template <typename Fail> void all(const char* name, bool basic)
{
	for (int depth = 0; depth < 3; ++depth) for (int n = 0; n < 4; ++n) for (int args = 0; args < 3; ++args)
	{
		g_ctx = std::string(name) + " with " + std::to_string(n) + " reports, " + std::to_string(args) + " arguments, " + std::to_string(depth) + " exceptions in flight";
		const CallReport c = mkcall(args); std::vector<MatchReport> none, inapp; for (int i = 0; i < n; ++i) { none.push_back(match(0, i)); inapp.push_back(match(1, i)); } ExpectationReport e{}; e.timesDescription = "times " + std::to_string(n);
		const Out f = basic ? stop : um;
		CHECK(during([&] { mimicpp::detail::report_no_matches(c, none); }, depth) == f); CHECK(during([&] { mimicpp::detail::report_inapplicable_matches(c, inapp); }, depth) == f);
		if (!basic) { try { mimicpp::detail::report_no_matches(c, none); } catch (const UnmatchedCallT& x) { CHECK(std::get<0>(x.data()) == c); CHECK(std::get<1>(x.data()) == none); CHECK(is_same_source_location(x.where(), c.fromLoc)); } try { mimicpp::detail::report_inapplicable_matches(c, inapp); } catch (const UnmatchedCallT& x) { CHECK(std::get<0>(x.data()) == c); CHECK(std::get<1>(x.data()) == inapp); } }
		const int s = g_n[0], w = g_n[1], fl = g_n[2];
		CHECK(during([&] { mimicpp::detail::report_full_match(c, match(2, n)); }, depth) == returns); CHECK(during([&] { mimicpp::detail::report_unhandled_exception(c, e, std::make_exception_ptr(n)); }, depth) == returns); CHECK(during([&] { mimicpp::detail::report_unhandled_exception(c, e, std::make_exception_ptr(std::runtime_error{"x"})); }, depth) == returns);
		if (basic && depth < 2) { CHECK(g_n[0] == s + 1); CHECK(g_n[1] == w + 2); CHECK(g_n[2] == fl); }
		CHECK(during([&] { mimicpp::detail::report_unfulfilled_expectation(e); }, depth) == (depth ? returns : basic ? stop : uf)); CHECK(during([&] { mimicpp::detail::report_error("message"); }, depth) == (depth ? returns : basic ? stop : err));
		if (!basic && !depth) { try { mimicpp::detail::report_unfulfilled_expectation(e); } catch (const UnfulfilledExpectationT& x) { CHECK(x.data() == e); } try { mimicpp::detail::report_error("message"); } catch (const Error<>& x) { CHECK(x.what() == std::string{"message"}); } }
		if (basic && !depth) { try { mimicpp::detail::report_error("message"); } catch (const Stop&) { CHECK(g_last == "message"); } }
		// a handled exception is no longer in flight
		try { throw 1; } catch (...) { if (!depth) { CHECK(outcome([&] { mimicpp::detail::report_error("message"); }) == (basic ? stop : err)); CHECK(outcome([&] { mimicpp::detail::report_unfulfilled_expectation(e); }) == (basic ? stop : uf)); } }
	}
}
int main()
{
	std::set_terminate([] { fail("std::terminate was called"); }); g_ctx = "the reporter installed at first"; std::ostringstream err2; auto* old = std::cerr.rdbuf(err2.rdbuf());
	Mock<void(int)> m{}; CHECK(outcome([&] { m(1); }) == um); CHECK(outcome([&] { ScopedExpectation e = m.expect_call(1); }) == uf); std::cerr.rdbuf(old);
	for (bool with : {false, true}) { std::ostringstream o; install_reporter<DefaultReporter>(with ? &o : nullptr); all<int>(with ? "DefaultReporter with stream" : "DefaultReporter", false); CHECK(o.str().empty() != with); install_reporter<DefaultReporter>(nullptr); }
	install_reporter<Basic>(); all<int>("BasicReporter", true);
	std::puts("ok: every report method of the two reporters, with up to 2 exceptions in flight and 3 reports");
}
