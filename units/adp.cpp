// instantiation unit: the GoogleTest adapter
#include "mimic++/mimic++.hpp"
#include "mimic++/adapters/gtest.hpp"
namespace vu
{
	using namespace mimicpp;
	void gfail(const StringT& s) { mimicpp::detail::gtest::send_fail(s); } void gsucc(const StringT& s) { mimicpp::detail::gtest::send_success(s); } void gwarn(const StringT& s) { mimicpp::detail::gtest::send_warning(s); }
	template <auto s, auto w, auto f> void which(const BasicReporter<s, w, f>&) { static_assert(s == &mimicpp::detail::gtest::send_success && w == &mimicpp::detail::gtest::send_warning && f == &mimicpp::detail::gtest::send_fail); }
	void same(const GTestReporterT& r) { which(r); }
	const void* ty_failure() { return &typeid(mimicpp::detail::gtest::failure); }
}
