// instantiation unit: string matchers
#include "matcher.inc"
namespace vu
{
	using namespace mimicpp; namespace m = matches::str;
	using S = const std::string&; using V = const std::string_view&; using P = const char* const&;
#define CI(F) [](auto&& x) { return F(std::forward<decltype(x)>(x), case_insensitive); }
	MATCHER(eq_ss, S, std::string&&, CALL(m::eq)) MATCHER(eq_vs, V, S, CALL(m::eq)) MATCHER(eq_sv, std::string&, std::string_view&&, CALL(m::eq)) MATCHER(eq_pv, P, V, CALL(m::eq)) MATCHER(eq_sp, S, P, CALL(m::eq))
	MATCHER(st_ss, S, std::string&&, CALL(m::starts_with)) MATCHER(st_vv, V, V, CALL(m::starts_with)) MATCHER(st_pp, P, P, CALL(m::starts_with))
	MATCHER(en_ss, S, std::string&&, CALL(m::ends_with)) MATCHER(en_vv, V, V, CALL(m::ends_with)) MATCHER(en_sp, S, P, CALL(m::ends_with))
	MATCHER(co_ss, S, std::string&&, CALL(m::contains)) MATCHER(co_vv, V, V, CALL(m::contains)) MATCHER(co_ps, P, S, CALL(m::contains))
	MATCHER(ieq_ss, S, std::string&&, CI(m::eq)) MATCHER(ieq_vv, V, V, CI(m::eq)) MATCHER(ieq_ps, P, S, CI(m::eq))
	MATCHER(ist_ss, S, std::string&&, CI(m::starts_with)) MATCHER(ist_vv, V, V, CI(m::starts_with))
	MATCHER(ien_ss, S, std::string&&, CI(m::ends_with)) MATCHER(ien_vv, V, V, CI(m::ends_with))
	MATCHER(ico_ss, S, std::string&&, CI(m::contains)) MATCHER(ico_vv, V, V, CI(m::contains))
}
