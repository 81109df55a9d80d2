// instantiation unit: the Boost.Test adapter
#include "mimic++/mimic++.hpp"
#include "mimic++/adapters/BoostTest.hpp"
namespace vu
{
	using namespace mimicpp;
	void bfail(const StringT& s) { mimicpp::detail::boost_test::send_fail(s); } void bsucc(const StringT& s) { mimicpp::detail::boost_test::send_success(s); } void bwarn(const StringT& s) { mimicpp::detail::boost_test::send_warning(s); }
	template <auto s, auto w, auto f> void which(const BasicReporter<s, w, f>&) { static_assert(s == &mimicpp::detail::boost_test::send_success && w == &mimicpp::detail::boost_test::send_warning && f == &mimicpp::detail::boost_test::send_fail); }
	void same(const BoostTestReporterT& r) { which(r); }
}
