// instantiation unit: the Catch2 adapter
#define MIMICPP_CONFIG_EXPERIMENTAL_CATCH2_MATCHER_INTEGRATION
#include "mimic++/mimic++.hpp"
#include "mimic++/adapters/Catch2.hpp"
namespace vu
{
	using namespace mimicpp;
	void cfail(const StringT& s) { mimicpp::detail::catch2::send_fail(s); } void csucc(const StringT& s) { mimicpp::detail::catch2::send_success(s); } void cwarn(const StringT& s) { mimicpp::detail::catch2::send_warning(s); }
	template <auto s, auto w, auto f> void which(const BasicReporter<s, w, f>&) { static_assert(s == &mimicpp::detail::catch2::send_success && w == &mimicpp::detail::catch2::send_warning && f == &mimicpp::detail::catch2::send_fail); }
	void same(const Catch2ReporterT& r) { which(r); }
	// opaque Catch2 matchers
	struct CNew : Catch::Matchers::MatcherGenericBase { bool match(int& v) const; std::string describe() const override; };
	struct COld : Catch::Matchers::MatcherUntypedBase { bool match(const int& v) const; std::string describe() const override; };
	bool cm_new(const CNew& m, int& v) { return custom::matcher_traits<CNew>::matches(m, v); }
	bool cm_old(const COld& m, int& v) { return custom::matcher_traits<COld>::matches(m, v); }
}
