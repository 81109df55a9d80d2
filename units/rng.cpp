// instantiation unit: range matchers over ranges of opaque elements
#include <list>
#include <span>
#include "matcher.inc"
namespace vu
{
	using namespace mimicpp; namespace m = matches::range;
	struct E { E(const E&); E& operator=(const E&); ~E(); int data; };
	struct Cmp { bool operator()(const E&, const E&) const; };
	struct Mt { Mt(const Mt&); Mt(Mt&&) noexcept; ~Mt(); int data; bool matches(const E&) const; StringT describe() const; };
	using V = std::vector<E>; using CV = const V&; using SP = const std::span<const E>&; using IV = const std::vector<int>&;
}
template <> struct mimicpp::custom::Printer<vu::E> { template <typename Out> static Out print(Out out, const vu::E&); };
namespace vu
{
#define WITHCMP(F) [](auto&& x) { return F(std::forward<decltype(x)>(x), Cmp{}); }
	MATCHER(eq_vv, CV, CV, WITHCMP(m::eq)) MATCHER(eq_ss, SP, SP, WITHCMP(m::eq)) MATCHER(eq_vs, V&, SP, WITHCMP(m::eq)) MATCHER(eq_sv, SP, CV, WITHCMP(m::eq)) MATCHER(eqi_vv, IV, IV, CALL(m::eq))
	MATCHER(un_vv, CV, CV, WITHCMP(m::unordered_eq)) MATCHER(un_ss, SP, SP, WITHCMP(m::unordered_eq))
	MATCHER(each_vl, CV, const Mt&, CALL(m::each_element)) MATCHER(each_sr, SP, Mt&&, CALL(m::each_element)) MATCHER(each_vn, V&, Mt&, CALL(m::each_element))
	MATCHER(any_vl, CV, const Mt&, CALL(m::any_element)) MATCHER(any_sr, SP, Mt&&, CALL(m::any_element)) MATCHER(any_vn, V&, Mt&, CALL(m::any_element))
	MATCHER(size_vi, CV, int&&, CALL(m::has_size)) MATCHER(size_vu, V&, unsigned&&, CALL(m::has_size)) MATCHER(size_vl, CV, long&&, CALL(m::has_size)) MATCHER(size_sz, SP, std::size_t&&, CALL(m::has_size)) MATCHER(size_vs, CV, short&&, CALL(m::has_size)) MATCHER(size_vc, CV, signed char&&, CALL(m::has_size))
#define MATCHER0(N, TARGET, ...) struct N##_F { constexpr auto operator()(const int&) const { return __VA_ARGS__; } }; MATCHER(N, TARGET, const int&, N##_F{})
	MATCHER0(sorted_vi, IV, m::is_sorted()) MATCHER0(sorted_v, CV, m::is_sorted(Cmp{})) MATCHER0(sorted_s, SP, m::is_sorted(Cmp{}))
	MATCHER0(empty_v, CV, m::is_empty()) MATCHER0(empty_s, SP, m::is_empty()) MATCHER0(empty_n, V&, m::is_empty())
}
