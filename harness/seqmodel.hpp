// reference model of sequences and control policies, explored over histories
#pragma once
#include "h.hpp"
using namespace mimicpp;
struct MSeq
{
	std::vector<int> e; int c{0}; bool greedy{};
	bool consumable(int i) const
	{
		if (i < c || e[i] == 2) return false;
		for (int j = c; j < i; ++j) if (e[j] == 0) return false;
		return true;
	}
};
inline bool MODE_C02 = false;
template <typename S, bool greedy>
void seq_histories(unsigned seed, int rounds, int steps)
{
	std::mt19937 rng(seed);
	for (int r = 0; r < rounds; ++r)
	{
		MSeq m; m.greedy = greedy;
		auto p = std::make_unique<typename S::SequenceT>();
		auto& s = *p; std::ostringstream hist; hist << (greedy ? "greedy:" : "lazy:");
		const int n = 1 + static_cast<int>(rng() % steps);
		for (int k = 0; k < n; ++k)
		{
			const int op = static_cast<int>(rng() % 5);
			if (m.e.empty() || op == 0)
			{
				hist << " add"; g_ctx = hist.str();
				const auto id = s.add(); CHECK(static_cast<int>(id) == static_cast<int>(m.e.size())); m.e.push_back(0);
			}
			else
			{
				const int i = static_cast<int>(rng() % m.e.size());
				const auto id = sequence::Id(i);
				if (op == 1 && m.c <= i && m.e[i] == 0) { hist << " satisfy(" << i << ")"; g_ctx = hist.str(); s.set_satisfied(id); m.e[i] = 1; }
				else if (op == 2 && m.c <= i && m.e[i] != 2) { hist << " saturate(" << i << ")"; g_ctx = hist.str(); s.set_saturated(id); m.e[i] = 2; }
				else if (op >= 3 && m.consumable(i)) { hist << " consume(" << i << ")"; g_ctx = hist.str(); s.consume(id); m.c = i; }
			}
			CHECK(static_cast<std::ptrdiff_t>(s.tag()) == reinterpret_cast<std::ptrdiff_t>(&s));
			std::optional<int> prev{};
			for (int i = 0; i < static_cast<int>(m.e.size()); ++i)
			{
				const auto id = sequence::Id(i);
				CHECK(s.is_consumable(id) == m.consumable(i));
				const auto pr = s.priority_of(id);
				CHECK(pr.has_value() == m.consumable(i));
				if (pr && prev) { if (greedy) CHECK(*pr > *prev); else CHECK(*pr < *prev); }
				if (pr) prev = pr;
			}
		}
		int first = -1;
		for (int j = m.c; j < static_cast<int>(m.e.size()); ++j) if (m.e[j] == 0) { first = j; break; }
		g_ev.clear(); hist << " destroy"; g_ctx = hist.str();
		delete p.release();
		CHECK(g_ev.size() == (first < 0 ? 0u : 1u));
		if (first >= 0)
		{
			CHECK(g_ev[0].kind == "error");
			std::string digits; std::vector<int> nums; std::string t = g_ev[0].text + " ";
			for (char ch : t) { if (ch >= '0' && ch <= '9') digits += ch; else if (!digits.empty()) { nums.push_back(std::stoi(digits)); digits.clear(); } }
			CHECK(nums.size() == 2 && nums[0] == first && nums[1] == static_cast<int>(m.e.size()));
		}
		g_ev.clear();
	}
}
struct MPol { int min, max, cnt; std::vector<int> seq, id; };
template <typename... S>
struct Holder { std::unique_ptr<ControlPolicy<typename S::SequenceT...>> p; };
using PolV = std::variant<
	std::unique_ptr<ControlPolicy<>>,
	std::unique_ptr<ControlPolicy<LazySequence::SequenceT>>,
	std::unique_ptr<ControlPolicy<GreedySequence::SequenceT>>,
	std::unique_ptr<ControlPolicy<LazySequence::SequenceT, GreedySequence::SequenceT>>,
	std::unique_ptr<ControlPolicy<GreedySequence::SequenceT, LazySequence::SequenceT>>,
	std::unique_ptr<ControlPolicy<GreedySequence::SequenceT, LazySequence::SequenceT, LazySequence::SequenceT>>>;
inline void policy_histories(unsigned seed, int rounds, int steps)
{
	std::mt19937 rng(seed);
	for (int r = 0; r < rounds; ++r)
	{
		LazySequence l0, l1; GreedySequence g0;
		MSeq ms[3]; ms[2].greedy = true;      // 0 = l0, 1 = l1, 2 = g0
		const sequence::Tag tags[3] = {l0.tag(), l1.tag(), g0.tag()};
		std::vector<PolV> pols; std::vector<MPol> mp; std::ostringstream hist;
		auto lim = [](int mn, int mx) { return detail::TimesConfig{mn, mx}; };
		for (int k = 0; k < steps; ++k)
		{
			if (pols.empty() || rng() % 3 == 0)
			{
				const int mn = static_cast<int>(rng() % 4); int mx = mn + static_cast<int>(rng() % 3);
				if (rng() % 8 == 0) mx = std::numeric_limits<int>::max();
				const int w = static_cast<int>(rng() % 6); MPol m{mn, mx, 0, {}, {}};
				static const std::vector<std::vector<int>> sq{{}, {0}, {2}, {0, 2}, {2, 1}, {2, 1, 0}};
				hist << " new" << pols.size() << "(min=" << mn << ",max=" << mx << ",seqs=" << w << ")"; g_ctx = hist.str();
				const auto t = lim(mn, mx); CHECK(t.min() == mn && t.max() == mx);
				switch (w)
				{
				case 0: pols.emplace_back(std::make_unique<ControlPolicy<>>(t, sequence::detail::Config<>{})); break;
				case 1: pols.emplace_back(std::make_unique<ControlPolicy<LazySequence::SequenceT>>(t, expect::in_sequence(l0))); break;
				case 2: pols.emplace_back(std::make_unique<ControlPolicy<GreedySequence::SequenceT>>(t, expect::in_sequence(g0))); break;
				case 3: pols.emplace_back(std::make_unique<ControlPolicy<LazySequence::SequenceT, GreedySequence::SequenceT>>(t, expect::in_sequences(l0, g0))); break;
				case 4: pols.emplace_back(std::make_unique<ControlPolicy<GreedySequence::SequenceT, LazySequence::SequenceT>>(t, expect::in_sequences(g0, l1))); break;
				case 5: pols.emplace_back(std::make_unique<ControlPolicy<GreedySequence::SequenceT, LazySequence::SequenceT, LazySequence::SequenceT>>(t, expect::in_sequences(g0, l1, l0))); break;
				}
				m.seq = sq[w];
				for (int q : m.seq) { m.id.push_back(static_cast<int>(ms[q].e.size())); ms[q].e.push_back(mn == 0 ? 1 : 0); }
				mp.push_back(m);
			}
			else
			{
				const std::size_t i = rng() % pols.size(); auto& m = mp[i];
				bool app = m.cnt < m.max;
				for (std::size_t q = 0; q < m.seq.size(); ++q) app = app && ms[m.seq[q]].consumable(m.id[q]);
				if (!app) continue;
				hist << " consume" << i; g_ctx = hist.str();
				std::visit([](auto& p) { p->consume(); }, pols[i]);
				++m.cnt;
				for (std::size_t q = 0; q < m.seq.size(); ++q)
				{
					auto& s = ms[m.seq[q]]; s.c = m.id[q];
					if (m.cnt == m.min) s.e[m.id[q]] = 1; else if (m.cnt == m.max) s.e[m.id[q]] = 2;
				}
			}
			for (std::size_t i = 0; i < pols.size(); ++i)
			{
				auto& m = mp[i]; bool app = m.cnt < m.max, adm = true;
				for (std::size_t q = 0; q < m.seq.size(); ++q) adm = adm && ms[m.seq[q]].consumable(m.id[q]);
				std::visit([&](auto& p)
				{
					CHECK(p->is_satisfied() == (m.min <= m.cnt && m.cnt <= m.max));
					CHECK(p->is_saturated() == (m.cnt == m.max));
					CHECK(p->is_applicable() == (app && adm));
					const control_state_t st = p->state();
					std::vector<sequence::Tag> adT, inT, allT; std::vector<std::pair<int, int>> dist;
					for (std::size_t q = 0; q < m.seq.size(); ++q)
					{
						allT.push_back(tags[m.seq[q]]);
						if (ms[m.seq[q]].consumable(m.id[q])) { adT.push_back(tags[m.seq[q]]); dist.emplace_back(m.seq[q], m.id[q]); }
						else inT.push_back(tags[m.seq[q]]);
					}
					auto common = [&](const auto& s) { CHECK(s.min == m.min && s.max == m.max && s.count == m.cnt); };
					auto rat = [&](const std::vector<sequence::rating>& v)
					{
						CHECK(v.size() == adT.size());
						for (std::size_t z = 0; z < v.size(); ++z)
						{
							CHECK(v[z].tag == adT[z]);
							const auto el = sequence::Id(dist[z].second); const int cur = ms[dist[z].first].c;
							const int want = dist[z].first == 2 ? sequence::detail::GreedyStrategy{}(el, cur) : sequence::detail::LazyStrategy{}(el, cur);
							CHECK(v[z].priority == want);
						}
					};
					if (!app) { CHECK(std::holds_alternative<state_saturated>(st)); auto& s = std::get<state_saturated>(st); common(s); CHECK(s.sequences == allT); }
					else if (!adm) { CHECK(std::holds_alternative<state_inapplicable>(st)); auto& s = std::get<state_inapplicable>(st); common(s); rat(s.sequenceRatings); CHECK(s.inapplicableSequences == inT); }
					else { CHECK(std::holds_alternative<state_applicable>(st)); auto& s = std::get<state_applicable>(st); common(s); rat(s.sequenceRatings); }
				}, pols[i]);
			}
		}
		g_ctx = hist.str() + " (end)";
	}
}
inline void times_inputs()
{
	const int V[] = {std::numeric_limits<int>::min(), -1000000, -2, -1, 0, 1, 2, 3, 7, 1000000, std::numeric_limits<int>::max() - 1, std::numeric_limits<int>::max()};
	auto tryit = [](auto f, int mn, int mx)
	{
		bool thrown = false;
		try { const auto t = f(); CHECK(t.min() == mn && t.max() == mx); }
		catch (const std::invalid_argument&) { thrown = true; }
		CHECK(thrown == !(mn >= 0 && mx >= 0 && mn <= mx));
	};
	for (int a : V)
	{
		for (int b : V) { g_ctx = "times(" + std::to_string(a) + "," + std::to_string(b) + ")"; tryit([&] { return expect::times(a, b); }, a, b); }
		g_ctx = "times/at_least/at_most(" + std::to_string(a) + ")";
		tryit([&] { return expect::times(a); }, a, a);
		tryit([&] { return expect::at_least(a); }, a, std::numeric_limits<int>::max());
		tryit([&] { return expect::at_most(a); }, 0, a);
	}
	g_ctx = "once/twice/default";
	tryit([] { return expect::once(); }, 1, 1); tryit([] { return expect::twice(); }, 2, 2); tryit([] { return detail::TimesConfig{}; }, 1, 1);
}

template <typename S, bool greedy>
void seq_long(int n, bool consume)
{
	typename S::SequenceT s{}; std::optional<int> prev{};
	g_ctx = std::string(greedy ? "greedy" : "lazy") + " sequence of " + std::to_string(n) + " satisfied elements" + (consume ? ", position in the middle" : "");
	for (int i = 0; i < n; ++i) s.set_satisfied(s.add());
	if (consume) s.consume(sequence::Id(n / 2));
	for (int i = consume ? n / 2 : 0; i < n; i += (n > 5000 ? 97 : 1))
	{
		const auto p = s.priority_of(sequence::Id(i));
		CHECK(p); if (prev) { if (greedy) CHECK(*p > *prev); else CHECK(*p < *prev); } prev = p;
	}
	if (consume) CHECK(!s.priority_of(sequence::Id(n / 2 - 1)));
}
inline void seq_longs()
{
	for (int n : {2, 3, 300, 1500, 66000}) for (bool c : {false, true}) { seq_long<LazySequence, false>(n, c); seq_long<GreedySequence, true>(n, c); }
}
