// instantiation of one matcher expression: construction, both negations, double negation, matching, description
#pragma once
#include "mimic++/mimic++.hpp"
#define MATCHER(N, TARGET, PARAM, ...) \
	using N##_T = decltype((__VA_ARGS__)(std::declval<PARAM>())); using N##_NT = decltype(!std::declval<const N##_T&>()); using N##_NNT = decltype(!std::declval<const N##_NT&>()); \
	void N##_make(void* s, PARAM x) { ::new (s) N##_T((__VA_ARGS__)(static_cast<PARAM>(x))); } void N##_not(void* s, const N##_T& m) { ::new (s) N##_NT(!m); } void N##_notm(void* s, N##_T& m) { ::new (s) N##_NT(!std::move(m)); } \
	void N##_notnot(void* s, const N##_NT& m) { ::new (s) N##_NNT(!m); } void N##_notnotm(void* s, N##_NT& m) { ::new (s) N##_NNT(!std::move(m)); } \
	bool N##_matches(const N##_T& m, TARGET u) { return detail::matches_hook::matches(m, u); } bool N##_nmatches(const N##_NT& m, TARGET u) { return detail::matches_hook::matches(m, u); } bool N##_nnmatches(const N##_NNT& m, TARGET u) { return detail::matches_hook::matches(m, u); } \
	StringT N##_describe(const N##_T& m) { return m.describe(); } StringT N##_ndescribe(const N##_NT& m) { return m.describe(); } StringT N##_nndescribe(const N##_NNT& m) { return m.describe(); }
#define CALL(...) [](auto&& x) { return __VA_ARGS__(std::forward<decltype(x)>(x)); }
