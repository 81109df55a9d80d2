// instantiation unit: requirement, side effect and finalizer policies over opaque user types
#include "mimic++/mimic++.hpp"
namespace vu
{
	using namespace mimicpp;
	// opaque argument, result and exception types: declared, never defined (assumed contracts)
#define VALUE(T) struct T { T(const T&); T(T&&) noexcept; T& operator=(const T&); T& operator=(T&&) noexcept; ~T(); int data; };
	VALUE(A) VALUE(B) VALUE(C) VALUE(R) VALUE(X)
	template <typename Ret> using Sig = Ret(A, B&, const C&);
	template <typename Ret> using InfoR = call::info_for_signature_t<Sig<Ret>>;
	using Info = InfoR<void>;
	template <typename Ret> using InfoR6 = call::info_for_signature_t<Ret(A, B&, const C&, A&, C, B)>; using Info6 = InfoR6<void>;
#define USER(T) T(const T&); T(T&&) noexcept; ~T(); int data;
	struct MtA { USER(MtA) bool matches(A&) const; StringT describe() const; };
	struct MtB { USER(MtB) bool matches(B&) const; StringT describe() const; };
	struct MtC { USER(MtC) bool matches(const C&) const; StringT describe() const; };
	struct MtI { USER(MtI) bool matches(int&) const; StringT describe() const; };
	struct PjRef { USER(PjRef) C& operator()(B&) const; };
	struct PjVal { USER(PjVal) int operator()(const C&) const; };
	struct PjNx { USER(PjNx) int operator()(A&) const noexcept; };
	struct ActA { USER(ActA) void operator()(A&) const; };
	struct ActC { USER(ActC) void operator()(const C&) const; };
	struct ActCA { USER(ActCA) void operator()(const C&, A&) const; };
	struct ActBB { USER(ActBB) void operator()(B&, B&) const noexcept; };
	struct ActAll { USER(ActAll) void operator()(A&, B&, const C&) const; };
	struct ActCBA { USER(ActCBA) void operator()(const C&, B&, A&) const; };
	struct ActACAB { USER(ActACAB) void operator()(A&, const C&, A&, B&) const; };
	struct ActAll6 { USER(ActAll6) void operator()(A&, B&, const C&, A&, C&, B&) const; };
	struct ActBAC { USER(ActBAC) void operator()(B&, A&, C&) const; };
	struct FnBA { USER(FnBA) R operator()(B&, A&) const; };
	struct FnAll6 { USER(FnAll6) int operator()(A&, B&, const C&, A&, C&, B&) const; };
	struct Act0 { USER(Act0) void operator()(); };
	struct Act0N { USER(Act0N) void operator()() noexcept; };
	struct FnR { USER(FnR) R operator()(); };
	struct FnOv { USER(FnOv) R operator()(); R operator()() const noexcept; };
	struct FnOq { USER(FnOq) R operator()() &; R operator()() && noexcept; };
	struct FnRef { USER(FnRef) R& operator()(); };
	struct FnI { USER(FnI) int operator()() noexcept; };
	struct FnCA { USER(FnCA) R operator()(const C&, A&) const; };
	struct FnBAC { USER(FnBAC) R operator()(B&, A&, const C&) const; };
	struct FnCCAB { USER(FnCCAB) int operator()(const C&, const C&, A&, B&) const; };
	struct FnB { USER(FnB) R& operator()(B&) const; };
	struct FnAll { USER(FnAll) int operator()(A&, B&, const C&) const; };

	InfoR<void> mkinfo(A& a, B& b, const C& c, ValueCategory cat, mimicpp::Constness con, std::source_location loc) { return Info{.args = {std::ref(a), std::ref(b), std::cref(c)}, .fromCategory = cat, .fromConstness = con, .fromSourceLocation = loc}; }
	Info6 mkinfo6(A& a, B& b, const C& c, A& d, C& e, B& f, ValueCategory cat, mimicpp::Constness con, std::source_location loc) { return Info6{.args = {std::ref(a), std::ref(b), std::cref(c), std::ref(d), std::ref(e), std::ref(f)}, .fromCategory = cat, .fromConstness = con, .fromSourceLocation = loc}; }
	// requirements on category and constness
#define CAT(N, ...) \
	bool N##_matches(const Info& i) { return __VA_ARGS__::matches(i); } bool N##_satisfied() { return __VA_ARGS__::is_satisfied(); } void N##_consume(const Info& i) { __VA_ARGS__::consume(i); }
	CAT(cat_l, expectation_policies::Category<ValueCategory::lvalue>)
	CAT(cat_r, expectation_policies::Category<ValueCategory::rvalue>)
	CAT(cat_a, expectation_policies::Category<ValueCategory::any>)
	CAT(con_n, expectation_policies::Constness<mimicpp::Constness::non_const>)
	CAT(con_c, expectation_policies::Constness<mimicpp::Constness::as_const>)
	CAT(con_a, expectation_policies::Constness<mimicpp::Constness::any>)
#define POLICY(N, PARAM, ...) POLICYI(Info, N, PARAM, __VA_ARGS__)
#define POLICYI(INFO, N, PARAM, ...) \
	using N##_T = decltype((__VA_ARGS__)(std::declval<PARAM>())); void N##_make(void* s, PARAM x) { ::new (s) N##_T((__VA_ARGS__)(static_cast<PARAM>(x))); } \
	bool N##_matches(const N##_T& p, const INFO& i) { return p.matches(i); } bool N##_satisfied(const N##_T& p) { return p.is_satisfied(); } void N##_consume(N##_T& p, const INFO& i) { p.consume(i); }
#define REQUIREMENT(N, PARAM, ...) POLICY(N, PARAM, __VA_ARGS__) StringT N##_describe(const N##_T& p) { return p.describe(); }
#define REQUIREMENT6(N, PARAM, ...) POLICYI(Info6, N, PARAM, __VA_ARGS__) StringT N##_describe(const N##_T& p) { return p.describe(); }
#define POLICY2(N, PARAM, PARAM2, ...) \
	using N##_T = decltype((__VA_ARGS__)(std::declval<PARAM>(), std::declval<PARAM2>())); void N##_make(void* s, PARAM x, PARAM2 y) { ::new (s) N##_T((__VA_ARGS__)(static_cast<PARAM>(x), static_cast<PARAM2>(y))); } \
	bool N##_matches(const N##_T& p, const Info& i) { return p.matches(i); } bool N##_satisfied(const N##_T& p) { return p.is_satisfied(); } void N##_consume(N##_T& p, const Info& i) { p.consume(i); } StringT N##_describe(const N##_T& p) { return p.describe(); }
#define CALL(...) [](auto&& x) { return __VA_ARGS__(std::forward<decltype(x)>(x)); }
#define CALL2(...) [](auto&& x, auto&& y) { return __VA_ARGS__(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y)); }
	REQUIREMENT(req0, MtA&&, CALL(expect::arg<0>))
	REQUIREMENT(req1, MtB&&, CALL(expect::arg<1>))
	REQUIREMENT(req2, const MtC&, CALL(expect::arg<2>))
	POLICY2(req1p, MtC&&, PjRef&&, CALL2(expect::arg<1>))
	POLICY2(req2p, MtI&&, PjVal&&, CALL2(expect::arg<2>))
	POLICY2(req0p, MtI&&, PjNx&&, CALL2(expect::arg<0>))
	REQUIREMENT6(req3, MtA&&, CALL(expect::arg<3>))
	REQUIREMENT6(req5, MtB&&, CALL(expect::arg<5>))
	// side effects
	POLICY(eff0, ActA&&, CALL(then::apply_arg<0>))
	POLICY(eff2, const ActC&, CALL(then::apply_arg<2>))
	POLICY(eff20, ActCA&&, CALL(then::apply_args<2, 0>))
	POLICY(eff11, ActBB&&, CALL(then::apply_args<1, 1>))
	POLICY(eff210, ActCBA&&, CALL(then::apply_args<2, 1, 0>))
	POLICY(eff0201, const ActACAB&, CALL(then::apply_args<0, 2, 0, 1>))
	POLICY(effall, ActAll&&, CALL(then::apply_all))
	POLICY(effinv, Act0&&, CALL(then::invoke))
	POLICY(effinvn, Act0N&&, CALL(then::invoke))
	POLICYI(Info6, eff534, ActBAC&&, CALL(then::apply_args<5, 3, 4>))
	POLICYI(Info6, eff3, ActA&&, CALL(then::apply_arg<3>))
	POLICYI(Info6, effall6, ActAll6&&, CALL(then::apply_all))
	// finalizers
#define FINAL(N, PARAM, RET, ...) \
	using N##_T = decltype((__VA_ARGS__)(std::declval<PARAM>())); void N##_make(void* s, PARAM x) { ::new (s) N##_T((__VA_ARGS__)(static_cast<PARAM>(x))); } \
	RET N##_call(N##_T& p, const InfoR<RET>& i) { return p.finalize_call(i); }
	FINAL(retv, R&&, R, CALL(finally::returns))
	FINAL(retl, const R&, R, CALL(finally::returns))
	FINAL(retr, R&&, R&, CALL(finally::returns))
	FINAL(retcr, R&&, const R&, CALL(finally::returns))
	FINAL(retrr, R&&, R&&, CALL(finally::returns))
	FINAL(retw, std::reference_wrapper<R>, R&, CALL(finally::returns))
	FINAL(retwv, std::reference_wrapper<R>, R, CALL(finally::returns))
	FINAL(reti, const int&, int, CALL(finally::returns))
	FINAL(resv, FnR&&, R, CALL(finally::returns_result_of))
	FINAL(resov, const FnOv&, R, CALL(finally::returns_result_of))
	FINAL(resoq, FnOq&&, R, CALL(finally::returns_result_of))
	FINAL(resr, const FnRef&, R&, CALL(finally::returns_result_of))
	FINAL(resrv, FnRef&&, R, CALL(finally::returns_result_of))
	FINAL(resi, FnI&&, int, CALL(finally::returns_result_of))
	FINAL(app20, FnCA&&, R, CALL(finally::returns_apply_result_of<2, 0>))
	FINAL(app1, FnB&&, R&, CALL(finally::returns_apply_result_of<1>))
	FINAL(app102, FnBAC&&, R, CALL(finally::returns_apply_result_of<1, 0, 2>))
	FINAL(app2201, const FnCCAB&, int, CALL(finally::returns_apply_result_of<2, 2, 0, 1>))
	FINAL(appall, FnAll&&, int, CALL(finally::returns_apply_all_result_of))
	FINAL(thrv, X&&, void, CALL(finally::throws))
	FINAL(thrl, const X&, R, CALL(finally::throws))
	FINAL(thri, int&&, int, CALL(finally::throws))
#define FINAL0(N, RET, ...) using N##_T = decltype(__VA_ARGS__); void N##_make(void* s) { ::new (s) N##_T(__VA_ARGS__); } RET N##_call(N##_T& p, const InfoR<RET>& i) { return p.finalize_call(i); }
	FINAL0(arg0, A, finally::returns_arg<0>())
	FINAL0(arg1, B&, finally::returns_arg<1>())
	FINAL0(arg2, const C&, finally::returns_arg<2>())
	FINAL0(arg2v, C, finally::returns_arg<2>())
#define FINAL6(N, PARAM, RET, ...) \
	using N##_T = decltype((__VA_ARGS__)(std::declval<PARAM>())); void N##_make(void* s, PARAM x) { ::new (s) N##_T((__VA_ARGS__)(static_cast<PARAM>(x))); } \
	RET N##_call(N##_T& p, const InfoR6<RET>& i) { return p.finalize_call(i); }
	FINAL6(app53, FnBA&&, R, CALL(finally::returns_apply_result_of<5, 3>))
	FINAL6(appall6, FnAll6&&, int, CALL(finally::returns_apply_all_result_of))
#define FINAL06(N, RET, ...) using N##_T = decltype(__VA_ARGS__); void N##_make(void* s) { ::new (s) N##_T(__VA_ARGS__); } RET N##_call(N##_T& p, const InfoR6<RET>& i) { return p.finalize_call(i); }
	FINAL06(arg3, A&, finally::returns_arg<3>()) FINAL06(arg5, B, finally::returns_arg<5>()) FINAL06(arg4v, C, finally::returns_arg<4>())
	void init_call(const Info& i) { expectation_policies::InitFinalize{}.finalize_call(i); }
}
