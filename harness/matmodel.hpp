// oracles for matchers on the real code
#pragma once
#include "h.hpp"
#include <limits>
#include <cmath>
#include <deque>
#include <list>
#include <set>
#include <span>
#include <algorithm>
using namespace mimicpp;
inline std::mt19937 g_rng{1};
template <typename M, typename T> bool ask(const M& m, T&& t) { return detail::matches_hook::matches(m, t); }
template <typename M, typename T> bool ask_both(const M& m, T&& t)
{
	const bool r = ask(m, t); CHECK(ask(m, t) == r);
	M c{m}; M d{m}; auto n1 = !m; auto n2 = !std::move(c); CHECK(ask(n1, t) == !r); CHECK(ask(n2, t) == !r);
	auto nn1 = !n1; auto nn2 = !!std::move(d); auto nn3 = !std::move(n2); CHECK(ask(nn1, t) == r); CHECK(ask(nn2, t) == r); CHECK(ask(nn3, t) == r);
	CHECK(nn1.describe() == m.describe()); CHECK(nn3.describe() == m.describe()); CHECK(n1.describe() != m.describe()); CHECK(ask(m, t) == r); CHECK(ask(n1, t) == !r);
	return r;
}
template <typename T> std::string str(const T& v) { return print(v); }
// a type with six unrelated operators, recording and possibly throwing
struct Odd { int v; static inline int calls = 0; static inline bool boom = false; };
struct OddRef { int v; };
inline bool odd(const Odd& a, const OddRef& b, int op) { ++Odd::calls; if (Odd::boom) throw 11; return ((a.v * 31 + b.v * 17 + op * 7) & 3) == 1; }
inline bool operator==(const Odd& a, const OddRef& b) { return odd(a, b, 0); }
inline bool operator!=(const Odd& a, const OddRef& b) { return odd(a, b, 1); }
inline bool operator<(const Odd& a, const OddRef& b) { return odd(a, b, 2); }
inline bool operator<=(const Odd& a, const OddRef& b) { return odd(a, b, 3); }
inline bool operator>(const Odd& a, const OddRef& b) { return odd(a, b, 4); }
inline bool operator>=(const Odd& a, const OddRef& b) { return odd(a, b, 5); }
