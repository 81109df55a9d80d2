#include "h.hpp"
#include <set>
using namespace mimicpp;
template <typename C> std::vector<sequence::Tag> tags(const C& c) { return std::apply([](const auto&... s) { return std::vector<sequence::Tag>{s->tag()...}; }, c.sequences()); }
template <typename F> void want(F&& make, std::vector<sequence::Tag> w)
{
	std::set<sequence::Tag> u(w.begin(), w.end()); const bool dup = u.size() < w.size(); bool threw = false;
	try { auto c = make(); CHECK(tags(c) == w); } catch (const std::invalid_argument&) { threw = true; }
	CHECK(threw == dup);
}
template <typename F> void builds(F&& make, bool dup)
{
	bool threw = false; try { ScopedExpectation e = make(); } catch (const std::invalid_argument&) { threw = true; }
	CHECK(threw == dup);
}
int main()
{
	install();
	using namespace mimicpp::expect;
	LazySequence l[4]{}; GreedySequence g[2]{}; Mock<void()> m{};
	auto T = [](auto&... s) { return std::vector<sequence::Tag>{s.tag()...}; };
	for (auto& a : l)
	{
		g_ctx = "one sequence"; want([&] { return in_sequence(a); }, T(a)); want([&] { return sequence::detail::Config<>{}.concat(in_sequence(a)); }, T(a));
		for (auto& b : l)
		{
			g_ctx = "two sequences"; want([&] { return in_sequences(a, b); }, T(a, b)); want([&] { return in_sequence(a).concat(in_sequence(b)); }, T(a, b)); want([&] { return in_sequences(a, g[0]).concat(in_sequence(b)); }, T(a, g[0], b)); want([&] { return in_sequence(g[1]).concat(in_sequences(a, b)); }, T(g[1], a, b));
			builds([&] { return m.expect_call() and at_most(1) and in_sequence(a) and in_sequence(b); }, &a == &b); builds([&] { return m.expect_call() and in_sequence(a) and in_sequence(g[0]) and at_most(1) and in_sequence(b); }, &a == &b);
			for (auto& c : l)
			{
				const bool d = &a == &b || &b == &c || &a == &c;
				g_ctx = "three sequences"; want([&] { return in_sequences(a, b, c); }, T(a, b, c)); if (&a != &b) want([&] { return in_sequences(a, b).concat(in_sequence(c)); }, T(a, b, c)); if (&b != &c) want([&] { return in_sequence(a).concat(in_sequences(b, c)); }, T(a, b, c));
				if (&a != &b) builds([&] { return m.expect_call() and in_sequences(a, b) and at_most(1) and in_sequence(c); }, d); builds([&] { return m.expect_call() and at_most(1) and in_sequence(a) and in_sequence(b) and in_sequence(c); }, d);
				for (auto& e : l)
				{
					g_ctx = "four sequences"; want([&] { return in_sequences(a, b, c, e); }, T(a, b, c, e)); if (!d) want([&] { return in_sequences(a, b, c).concat(in_sequence(e)); }, T(a, b, c, e)); if (&a != &b && &c != &e) want([&] { return in_sequences(a, b).concat(in_sequences(c, e)); }, T(a, b, c, e));
				}
			}
		}
	}
	for (auto& a : g) for (auto& b : g) for (auto& c : l) for (auto& d : l) { g_ctx = "mixed sequences"; want([&] { return in_sequences(a, c, b, d); }, T(a, c, b, d)); want([&] { return in_sequences(c, a, d, b); }, T(c, a, d, b)); want([&] { return in_sequences(a, c, b); }, T(a, c, b)); }
	std::puts("ok: every way up to four sequences can coincide, at once, by concatenation and through the builder");
}
