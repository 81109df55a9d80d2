#include "expmodel.hpp"
inline void ratings_direct(unsigned seed, int rounds)
{
	std::mt19937 g(seed); using R = sequence::rating;
	for (int r = 0; r < rounds; ++r)
	{
		auto mk = [&] { std::vector<R> v; std::vector<int> t(8); for (int i = 0; i < 8; ++i) t[i] = i + 1; std::shuffle(t.begin(), t.end(), g); for (int i = static_cast<int>(g() % 7); i > 0; --i) v.push_back({static_cast<int>(g() % 7) * 100 - 300, sequence::Tag{t[i]}}); return v; };
		auto a = mk(), b = mk();
		if (g() % 2) { b = a; for (auto& x : b) x.priority = static_cast<int>(g() % 7) * 100 - 350; std::shuffle(b.begin(), b.end(), g); if (g() % 2) b.push_back({5, sequence::Tag{77}}); else if (g() % 4 == 0 && !b.empty()) b.pop_back(); }
		bool eq = false; for (auto& x : a) for (auto& y : b) eq = eq || (x.tag == y.tag && x.priority == y.priority); if (eq) continue;
		std::ostringstream s; s << "current:"; for (auto& x : a) s << " seq" << static_cast<std::ptrdiff_t>(x.tag) << ":" << x.priority; s << " candidate:"; for (auto& x : b) s << " seq" << static_cast<std::ptrdiff_t>(x.tag) << ":" << x.priority; g_ctx = s.str();
		CHECK(sequence::detail::has_better_rating(a, b) == better(a, b));
	}
}
int main() { install(); coll_histories(71, 6000, 10, 40, 0, false); coll_big(300);
#ifndef NO_DIRECT
ratings_direct(72, 200000);
#endif
std::puts("ok: random histories against the reference model: coll_histories(71, 6000, 10, 40, 0, false); coll_big(300); ratings_direct(72, 200000)"); }
