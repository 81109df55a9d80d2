// instantiation unit: reports, their equality and their construction from a call
#include "mimic++/mimic++.hpp"
namespace vu
{
	using namespace mimicpp;
#define USER(T) T(const T&); T(T&&) noexcept; ~T(); int data;
	struct A { USER(A) }; struct B { USER(B) };
	using Arg = CallReport::Arg; using ME = MatchReport::Expectation; using MF = MatchReport::Finalize; using OS = std::optional<StringT>; using OL = std::optional<std::source_location>;
	// equality
	bool eq_call(const CallReport& a, const CallReport& b) { return a == b; } bool ne_call(const CallReport& a, const CallReport& b) { return a != b; }
	bool eq_exp(const ExpectationReport& a, const ExpectationReport& b) { return a == b; } bool ne_exp(const ExpectationReport& a, const ExpectationReport& b) { return a != b; }
	bool eq_match(const MatchReport& a, const MatchReport& b) { return a == b; } bool ne_match(const MatchReport& a, const MatchReport& b) { return a != b; }
	bool eq_ctl(const control_state_t& a, const control_state_t& b) { return a == b; }
	// layout probes
#define AT(N, T, E) const void* N(const T& x) { return &(E); }
	AT(c_ret, CallReport, x.returnTypeIndex) AT(c_args, CallReport, x.argDetails) AT(c_loc, CallReport, x.fromLoc) AT(c_cat, CallReport, x.fromCategory) AT(c_const, CallReport, x.fromConstness)
	AT(a_type, Arg, x.typeIndex) AT(a_text, Arg, x.stateString)
	AT(e_loc, ExpectationReport, x.sourceLocation) AT(e_fin, ExpectationReport, x.finalizerDescription) AT(e_times, ExpectationReport, x.timesDescription) AT(e_desc, ExpectationReport, x.expectationDescriptions)
	AT(m_loc, MatchReport, x.sourceLocation) AT(m_fin, MatchReport, x.finalizeReport.description) AT(m_ctl, MatchReport, x.controlReport) AT(m_exp, MatchReport, x.expectationReports)
	AT(x_match, ME, x.isMatching) AT(x_desc, ME, x.description) AT(os_val, OS, *x) AT(ol_val, OL, *x)
#define ST(P, T) AT(P##_min, T, x.min) AT(P##_max, T, x.max) AT(P##_count, T, x.count)
	ST(app, state_applicable) AT(app_r, state_applicable, x.sequenceRatings) ST(ina, state_inapplicable) AT(ina_r, state_inapplicable, x.sequenceRatings) AT(ina_t, state_inapplicable, x.inapplicableSequences) ST(sat, state_saturated) AT(sat_t, state_saturated, x.sequences)
	long os_size() { return sizeof(OS); }
	// construction
	template <typename T, typename... P> using Info = call::Info<T, P...>;
#define MK(N, ...) using N##_I = Info<__VA_ARGS__>; CallReport N##_make(const N##_I& i) { return make_call_report(i); } const void* N##_ty0() { return &typeid(ret<__VA_ARGS__>); }
	template <typename T, typename... P> using ret = T;
	MK(none, void) MK(one, int, A&) MK(three, A, const A&, B, A&&) MK(two, void, B&, A&) MK(six, B, A, B&, const A&, A&&, const B&, A&)
	none_I none_info(std::source_location l, ValueCategory v, Constness c) { return {.args = {}, .fromCategory = v, .fromConstness = c, .fromSourceLocation = l}; }
	one_I one_info(A& a, std::source_location l, ValueCategory v, Constness c) { return {.args = {std::ref(a)}, .fromCategory = v, .fromConstness = c, .fromSourceLocation = l}; }
	two_I two_info(B& b, A& a, std::source_location l, ValueCategory v, Constness c) { return {.args = {std::ref(b), std::ref(a)}, .fromCategory = v, .fromConstness = c, .fromSourceLocation = l}; }
	six_I six_info(A& a, B& b, const A& c, A& e, const B& f, A& g, std::source_location l, ValueCategory v, Constness k) { return {.args = {std::ref(a), std::ref(b), std::cref(c), std::ref(e), std::cref(f), std::ref(g)}, .fromCategory = v, .fromConstness = k, .fromSourceLocation = l}; }
	three_I three_info(const A& a, B& b, A& c, std::source_location l, ValueCategory v, Constness k) { return {.args = {std::cref(a), std::ref(b), std::ref(c)}, .fromCategory = v, .fromConstness = k, .fromSourceLocation = l}; }
	const void* ty_A() { return &typeid(A); } const void* ty_B() { return &typeid(B); } const void* ty_int() { return &typeid(int); } const void* ty_void() { return &typeid(void); }
	// equality of call infos; the arguments are those of tuples of references
	bool eq_info3(const three_I& a, const three_I& b) { return a == b; } bool ne_info3(const three_I& a, const three_I& b) { return a != b; } bool eq_info0(const none_I& a, const none_I& b) { return a == b; } bool ne_info0(const none_I& a, const none_I& b) { return a != b; }
	bool eq_info6(const six_I& a, const six_I& b) { return a == b; } bool ne_info6(const six_I& a, const six_I& b) { return a != b; }
	AT(i6_cat, six_I, x.fromCategory) AT(i6_const, six_I, x.fromConstness) AT(i6_loc, six_I, x.fromSourceLocation) AT(i6_0, six_I, std::get<0>(x.args)) AT(i6_1, six_I, std::get<1>(x.args)) AT(i6_2, six_I, std::get<2>(x.args)) AT(i6_3, six_I, std::get<3>(x.args)) AT(i6_4, six_I, std::get<4>(x.args)) AT(i6_5, six_I, std::get<5>(x.args))
	AT(i3_cat, three_I, x.fromCategory) AT(i3_const, three_I, x.fromConstness) AT(i3_loc, three_I, x.fromSourceLocation) AT(i3_0, three_I, std::get<0>(x.args)) AT(i3_1, three_I, std::get<1>(x.args)) AT(i3_2, three_I, std::get<2>(x.args))
	AT(i0_cat, none_I, x.fromCategory) AT(i0_const, none_I, x.fromConstness) AT(i0_loc, none_I, x.fromSourceLocation)
}
namespace vu
{
	// the reports' own moves and copies
#define MV(N, T) void mv_##N(void* o, T& x) { ::new (o) T{std::move(x)}; } void cp_##N(void* o, const T& x) { ::new (o) T{x}; } void mva_##N(T& o, T& x) { o = std::move(x); } void kill_##N(T& x) { x.~T(); }
	MV(call, CallReport) MV(exp, ExpectationReport) MV(match, MatchReport)
}
