// whole library against one reference model: mocks, expectations built through the public interface, sequences, reports.
// Checks are labelled with the properties they belong to; only those of the property under check may fail a run, any
// other deviation ends the history (the model no longer describes the real state).
#pragma once
#include "h.hpp"
#include <algorithm>
#include <map>
#include <memory>
#include <set>
namespace e2e
{
using namespace mimicpp;
inline std::string PID; struct Stop {};
inline bool mine(std::string_view ids) { return ids.find(PID) != ids.npos; }
#define CK(ids, ...) do { if (!(__VA_ARGS__)) { if (mine(ids)) fail(std::string(#__VA_ARGS__) + " (e2e line " + std::to_string(__LINE__) + ")"); throw Stop{}; } } while (0)
#define SK(ids, ...) do { if (mine(ids) && !(__VA_ARGS__)) fail(std::string(#__VA_ARGS__) + " (e2e line " + std::to_string(__LINE__) + ")"); } while (0)
struct Odd { int id; };
struct Cell { int id{}; int verdict{1}; bool sat{true}; int consumed{}, effects{}, finals{}, lastEffect{-1}; bool throws{}; };     // verdict 0 reject 1 accept 2 throw
inline std::vector<int> g_off; inline bool g_probe = false;
struct Pol
{
	std::shared_ptr<Cell> c;
	bool is_satisfied() const noexcept { return c->sat; }
	bool matches(const auto&) const { g_off.push_back(c->id); if (g_probe) return false; if (c->verdict == 2) throw Odd{c->id}; return c->verdict == 1; }
	std::optional<StringT> describe() const { return "id" + std::to_string(c->id); }
	void consume(const auto&) { ++c->consumed; }
};
struct MSeq
{
	bool greedy{}; std::vector<int> e{}; int c{0};
	bool ok(int i) const { if (i < c || e[i] == 2) return false; for (int j = c; j < i; ++j) if (e[j] == 0) return false; return true; }
	int prio(int i) const { return greedy ? i - c : c - i; }
};
struct MExp { int id, min, max, cnt{0}, lo; std::vector<int> seq{}, el{}; std::shared_ptr<Cell> cell{}; std::unique_ptr<ScopedExpectation> sc{}; int mock{}; bool con{}; };
using MockT = Mock<int(int), int(int) const, int(std::string)>;
struct Run
{
	std::mt19937 g; std::ostringstream h;
	std::unique_ptr<MockT> mocks[2]{std::make_unique<MockT>(), std::make_unique<MockT>()};
	std::unique_ptr<LazySequence> l[2]{std::make_unique<LazySequence>(), std::make_unique<LazySequence>()};
	std::unique_ptr<GreedySequence> gr[2]{std::make_unique<GreedySequence>(), std::make_unique<GreedySequence>()};
	MSeq ms[4]{{}, {}, {true}, {true}}; sequence::Tag tags[4]{l[0]->tag(), l[1]->tag(), gr[0]->tag(), gr[1]->tag()};
	std::vector<MExp> es; int next = 0;
	std::size_t cap = 9; explicit Run(unsigned s) : g{s} {}
	int rnd(int n) { return static_cast<int>(g() % static_cast<unsigned>(n)); }
	bool admitted(const MExp& e) const { for (std::size_t i = 0; i < e.seq.size(); ++i) if (!ms[e.seq[i]].ok(e.el[i])) return false; return true; }
	bool applicable(const MExp& e) const { return e.cnt < e.max && admitted(e); }
	void ctx(const std::string& s) { h << "; " << s; g_ctx = h.str(); }
	bool keeps(const MExp& cur, const MExp& cand) const
	{
		int hi = 0;
		for (std::size_t i = 0; i < cur.seq.size(); ++i)
		{
			std::size_t k = 0; while (k < cand.seq.size() && cand.seq[k] != cur.seq[i]) ++k;
			if (k == cand.seq.size()) return true;
			const auto& s = ms[cur.seq[i]]; if (s.prio(cur.el[i]) < s.prio(cand.el[k])) ++hi;
		}
		return !(2 * hi > static_cast<int>(cur.seq.size()));
	}
	template <typename B> std::unique_ptr<ScopedExpectation> fin(B&& b, std::shared_ptr<Cell> c, int how)
	{
		if (how == 0) return std::make_unique<ScopedExpectation>(std::move(b) and finally::returns(1000 + c->id));
		return std::make_unique<ScopedExpectation>(std::move(b) and finally::returns_result_of([c] { ++c->finals; if (c->throws) throw Odd{c->id}; return 1000 + c->id; }));
	}
	template <typename B> std::unique_ptr<ScopedExpectation> rest(B&& b, std::shared_ptr<Cell> c, int mn, int mx, int how)
	{
		auto eff = [c](int v) { ++c->effects; c->lastEffect = v; };
		if (how & 1) return fin(std::move(b) and expect::times(mn, mx) and Pol{c} and then::apply_arg<0>(eff), c, how / 2);
		return fin(std::move(b) and then::apply_all(eff) and Pol{c} and expect::times(mn, mx), c, how / 2);
	}
	void create()
	{
		MExp e{next++, rnd(4), 0, 0, rnd(5)}; e.max = e.min + rnd(3); if (e.max == 0 && rnd(4)) e.max = 1; if (rnd(10) == 0) e.max = std::numeric_limits<int>::max();
		e.cell = std::make_shared<Cell>(); auto& c = *e.cell; c.id = e.id; c.verdict = rnd(12) == 0 ? 2 : rnd(8) != 0; c.sat = rnd(12) != 0; c.throws = rnd(10) == 0;
		static const std::vector<std::vector<int>> sq{{}, {}, {0}, {2}, {0, 1}, {1, 2}, {3, 0}, {2, 3}, {2, 1, 0}};
		const int w = rnd(static_cast<int>(sq.size())), how = rnd(4); e.seq = sq[w]; e.mock = rnd(6) == 0; e.con = rnd(2);
		std::ostringstream t; t << "e" << e.id << " = mock" << e.mock << (e.con ? " const" : "") << ".expect_call(>= " << e.lo << "), times(" << e.min << "," << e.max << "), policy " << (c.verdict == 2 ? "throws" : c.verdict ? "accepts" : "rejects") << (c.sat ? "" : ", never satisfied") << (how / 2 && c.throws ? ", throws at the end" : "");
		for (int q : e.seq) t << (q < 2 ? " lazy" : " greedy") << q % 2; ctx(t.str()); if (how / 2 == 0) c.throws = false;
		g_ev.clear();
		auto make = [&](auto b) { switch (w)
		{
		case 0: case 1: e.sc = rest(b(), e.cell, e.min, e.max, how); break;
		case 2: e.sc = rest(b() and expect::in_sequence(*l[0]), e.cell, e.min, e.max, how); break;
		case 3: e.sc = rest(b() and expect::in_sequence(*gr[0]), e.cell, e.min, e.max, how); break;
		case 4: e.sc = rest(b() and expect::in_sequences(*l[0], *l[1]), e.cell, e.min, e.max, how); break;
		case 5: e.sc = rest(b() and expect::in_sequence(*l[1]) and expect::in_sequence(*gr[0]), e.cell, e.min, e.max, how); break;
		case 6: e.sc = rest(b() and expect::in_sequences(*gr[1], *l[0]), e.cell, e.min, e.max, how); break;
		case 7: e.sc = rest(b() and expect::in_sequence(*gr[0]) and expect::in_sequence(*gr[1]), e.cell, e.min, e.max, how); break;
		case 8: e.sc = rest(b() and expect::in_sequences(*gr[0], *l[1]) and expect::in_sequence(*l[0]), e.cell, e.min, e.max, how); break;
		} };
		if (e.con) make([&] { return std::as_const(*mocks[e.mock]).expect_call(matches::ge(e.lo)); }); else make([&] { return mocks[e.mock]->expect_call(matches::ge(e.lo)); });
		for (int q : e.seq) { e.el.push_back(static_cast<int>(ms[q].e.size())); ms[q].e.push_back(e.min == 0 ? 1 : 0); }
		SK("C11 C08", g_ev.empty()); es.push_back(std::move(e));
	}
	MExp* by_report(const MatchReport& m)
	{
		for (auto& r : m.expectationReports) if (r.description && r.description->starts_with("id")) for (auto& e : es) if (*r.description == "id" + std::to_string(e.id)) return &e;
		return nullptr;
	}
	void state(const MExp& e, const MatchReport& m)
	{	// the state an expectation reports
		const std::size_t want = e.cnt == e.max ? 2u : admitted(e) ? 1u : 0u;
		std::string ids = "C06"; if (!e.seq.empty()) ids += " C01 C05"; if (e.seq.empty() || e.cnt == e.max || m.controlReport.index() == 2) ids += " C04";
		CK(ids, m.controlReport.index() == want);
		std::visit([&](const auto& s)
		{
			CK("C06 C04 C20", s.min == e.min && s.max == e.max); CK("C06 C04", s.count == e.cnt);
			std::vector<int> in, out, all = e.seq; for (std::size_t i = 0; i < e.seq.size(); ++i) (ms[e.seq[i]].ok(e.el[i]) ? in : out).push_back(e.seq[i]);
			auto tg = [&](const std::vector<int>& v) { std::vector<sequence::Tag> t; for (int q : v) t.push_back(tags[q]); return t; };
			auto rt = [&](const auto& v) { std::vector<sequence::Tag> t; for (auto& r : v) t.push_back(r.tag); return t; };
			if constexpr (requires { s.sequences; }) SK("C06 C20", s.sequences == tg(all));
			else { SK("C06 C01 C05", rt(s.sequenceRatings) == tg(in)); if constexpr (requires { s.inapplicableSequences; }) SK("C06 C01 C05", s.inapplicableSequences == tg(out)); }
		}, m.controlReport);
	}
	void probe()
	{	// a call nobody accepts: the no-match report shows the state of every expectation
		for (int k = 0; k < 2; ++k)
		{
			g_ev.clear(); g_off.clear(); g_probe = true; bool failed = false; try { (void)(*mocks[k])(3); } catch (const Fail&) { failed = true; } g_probe = false;
			std::vector<MExp*> live; for (auto it = es.rbegin(); it != es.rend(); ++it) if (it->mock == k) live.push_back(&*it);
			CK("C08", failed && g_ev.size() == 1 && g_ev[0].kind == "no"); CK("C08 C11", g_ev[0].matches.size() == live.size());
			std::map<std::pair<int, int>, std::vector<std::pair<int, int>>> pr; std::set<int> seen;
			for (auto& m : g_ev[0].matches)
			{
				auto* e = by_report(m); CK("C08 C11 C12 C20", e != nullptr && e->mock == k && seen.insert(e->id).second); state(*e, m);
				CK("C12 C20", m.expectationReports.size() == 5);
				for (auto& r : m.expectationReports) SK("C12", !r.description || !r.description->starts_with("id") || !r.isMatching);
				int argv = 0, yes = 0; for (auto& r : m.expectationReports) if (r.description && !r.description->starts_with("id") && r.description->find("overload") == r.description->npos) { ++argv; yes += r.isMatching; }
				for (auto& r : m.expectationReports) if (r.description && r.description->find("overload") != r.description->npos) SK("C12", r.isMatching == (r.description->find("any category") != r.description->npos || !e->con));
				SK("C12", argv == 1 && yes == (3 >= e->lo));
				if (const auto* a = std::get_if<state_applicable>(&m.controlReport)) for (auto& r : a->sequenceRatings) for (std::size_t i = 0; i < e->seq.size(); ++i) if (tags[e->seq[i]] == r.tag) pr[{0, e->seq[i]}].emplace_back(e->el[i], r.priority);
			}
			for (auto& [q, v] : pr) { std::sort(v.begin(), v.end()); for (std::size_t i = 1; i < v.size(); ++i) SK("C03 C06", ms[q.second].greedy ? v[i - 1].second < v[i].second : v[i - 1].second > v[i].second); }
		}
	}
	void call()
	{
		const int v = rnd(5), k = rnd(6) == 0, con = rnd(2); ctx("mock" + std::to_string(k) + (con ? " const" : "") + " called with " + std::to_string(v));
		// the model decides
		std::vector<MExp*> live; for (auto it = es.rbegin(); it != es.rend(); ++it) if (it->mock == k) live.push_back(&*it);
		MExp* best = nullptr; std::vector<int> no, inapp, exc; 
		for (auto* e : live)
		{
			
			if (e->cell->verdict == 2) { exc.push_back(e->id); continue; }
			if (v < e->lo || e->con != con || e->cell->verdict == 0) no.push_back(e->id);
			else if (!applicable(*e)) inapp.push_back(e->id);
			else if (!best || !keeps(*best, *e)) best = e;
		}
		std::vector<Cell> before; for (auto* e : live) before.push_back(*e->cell);
		// the real call
		g_ev.clear(); g_off.clear(); int res = 0, thrown = -1, line = 0; bool failed = false;
		try { if (con) { line = __LINE__; res = std::as_const(*mocks[k])(v); } else { line = __LINE__; res = (*mocks[k])(v); } }
		catch (const Fail&) { failed = true; } catch (const Odd& o) { thrown = o.id; }
		std::vector<Ev> excs, dec; for (auto& e : g_ev) (e.kind == "exc" ? excs : dec).push_back(e);
		
		std::vector<int> gotExc; for (auto& x : excs) { int id = -1; try { std::rethrow_exception(x.exc); } catch (const Odd& o) { id = o.id; } catch (...) {} gotExc.push_back(id); bool named = false; for (auto& d : x.exp->expectationDescriptions) named = named || (d && *d == "id" + std::to_string(id)); SK("C09 C12", named); SK("C09", x.call && *x.call->argDetails.at(0).stateString.begin() == '0' + v); }
		bool asked = true; for (int x : exc) asked = asked && std::find(g_off.begin(), g_off.end(), x) != g_off.end();
		CK(asked ? "C09" : "", gotExc == exc);
		CK("C08", dec.size() == 1); const Ev& d = dec[0];
		SK("C16 C19", d.call->fromLoc.line() == static_cast<unsigned>(line) && d.call->fromConstness == (con ? Constness::as_const : Constness::non_const));
		SK("C16 C08", d.call->argDetails.size() == 1 && d.call->argDetails[0].stateString == std::to_string(v) && d.call->argDetails[0].typeIndex == typeid(int) && d.call->returnTypeIndex == typeid(int));
		if (d.kind == "full")
		{
			auto* r = d.matches.size() == 1 ? by_report(d.matches[0]) : nullptr; CK("C08 C12", r != nullptr);
			CK("C08 C10 C12", r->cell->verdict == 1); CK("C08 C10 C12 C13 C15", v >= r->lo); CK("C08 C10 C12 C13 C19", r->con == con);
			CK(r->seq.empty() ? "C04 C06 C08 C10" : "C01 C04 C06 C08 C10", r->cnt < r->max); CK("C01 C04 C05 C06 C08 C10", admitted(*r)); CK("C09", r->cell->verdict != 2);
			CK(best && !best->seq.empty() && !r->seq.empty() ? "C07 C03" : "C07", r == best);
			state(*r, d.matches[0]); SK("C12", std::all_of(d.matches[0].expectationReports.begin(), d.matches[0].expectationReports.end(), [](auto& x) { return x.isMatching; }));
			SK("C08 C12", r->cell->consumed == before[static_cast<std::size_t>(std::find(live.begin(), live.end(), r) - live.begin())].consumed + 1);
			for (std::size_t i = 0; i < live.size(); ++i)
			{
				const Cell &a = before[i], &b = *live[i]->cell; const int one = live[i] == r;
				SK("C08 C12", b.consumed == a.consumed + one); SK("C13 C12 C20", b.effects == a.effects + one); if (one) SK("C13", b.lastEffect == v);
				SK("C08 C14", b.finals <= a.finals + one);
			}
			if (r->cell->throws) { SK("C14 C08", thrown == r->id && !failed); } else { SK("C14 C08 C19 C20", !failed && thrown == -1 && res == 1000 + r->id); }
			++r->cnt;
			for (std::size_t q = 0; q < r->seq.size(); ++q) { auto& s = ms[r->seq[q]]; s.c = r->el[q]; if (r->cnt == r->min) s.e[r->el[q]] = 1; else if (r->cnt == r->max) s.e[r->el[q]] = 2; }
		}
		else
		{
			if (best)
			{	// refused although one is applicable: whose verdict was wrong?
				for (auto& m : d.matches) { auto* e = by_report(m); if (!e) continue; if (e == best) { for (auto& r : m.expectationReports) CK("C12 C08", r.isMatching); } state(*e, m); }
				CK("C08 C10", best == nullptr);
			}
			std::vector<int> ids; for (auto& m : d.matches) { auto* e = by_report(m); CK("C08 C12", e != nullptr); ids.push_back(e->id); state(*e, m); }
			for (std::size_t i = 0; i < live.size(); ++i) { const Cell &a = before[i], &b = *live[i]->cell; SK("C08 C12", a.consumed == b.consumed); SK("C08 C13", a.effects == b.effects); SK("C08 C14", a.finals == b.finals); }
			std::sort(ids.begin(), ids.end()); std::sort(no.begin(), no.end()); std::sort(inapp.begin(), inapp.end());
			CK("C08 C17", failed && thrown == -1); CK("C08 C10", d.kind == (inapp.empty() ? "no" : "inapp")); CK("C08 C10", ids == (inapp.empty() ? no : inapp));
		}
	}
	void drop(std::size_t i)
	{
		auto& e = es[i]; ctx("e" + std::to_string(e.id) + " goes away"); const bool times = e.min <= e.cnt && e.cnt <= e.max, sat = times && e.cell->sat;
		if (rnd(3) == 0) { auto t = std::make_unique<ScopedExpectation>(std::move(*e.sc)); e.sc = std::move(t); }
		CK(e.cell->sat ? "C04 C12 C11" : "C12 C11", e.sc->is_satisfied() == sat); const int id = e.id;
		g_ev.clear(); e.sc.reset(); es.erase(es.begin() + static_cast<std::ptrdiff_t>(i));
		int n = 0; for (auto& x : g_ev) if (x.kind == "unfulfilled") { ++n; bool named = false; for (auto& d : x.exp->expectationDescriptions) named = named || (d && *d == "id" + std::to_string(id)); SK("C11 C12", named); } else CK("C02 C11", x.kind == "error");
		CK("C11", n == !sat);
	}
	void end()
	{
		while (!es.empty()) somewhere([&] { drop(static_cast<std::size_t>(rnd(static_cast<int>(es.size())))); });
		for (int q = 0; q < 4; ++q)
		{
			int first = -1; for (int j = ms[q].c; j < static_cast<int>(ms[q].e.size()); ++j) if (ms[q].e[static_cast<std::size_t>(j)] == 0) { first = j; break; }
			ctx(std::string(q < 2 ? "lazy" : "greedy") + std::to_string(q % 2) + " goes away"); g_ev.clear(); if (q < 2) l[q].reset(); else gr[q - 2].reset();
			SK("C02 C05", g_ev.size() == (first < 0 ? 0u : 1u)); if (first < 0 || g_ev.empty()) continue;
			std::vector<int> nums; std::string digits; for (char ch : g_ev[0].text + " ") { if (ch >= '0' && ch <= '9') digits += ch; else if (!digits.empty()) { nums.push_back(std::stoi(digits)); digits.clear(); } }
			SK("C02", g_ev[0].kind == "error" && nums == std::vector<int>{first, static_cast<int>(ms[q].e.size())});
		}
	}
	/// f, sometimes while an exception propagates or is being handled
	void somewhere(auto f)
	{
		const int w = rnd(5); std::exception_ptr p{};
		auto kept = [&] { try { f(); } catch (...) { p = std::current_exception(); } };
		struct Unwinding { decltype(kept)& k; ~Unwinding() { k(); } };
		if (w == 0) { ctx("(during unwinding)"); try { Unwinding u{kept}; throw 42; } catch (int) {} }
		else if (w == 1) { ctx("(in a handler)"); try { throw 42; } catch (int) { kept(); } }
		else kept();
		if (p) std::rethrow_exception(p);
	}
	void go(int steps)
	{
		try
		{
			for (int k = 0; k < steps; ++k)
			{
				const int op = rnd(8);
				somewhere([&] { if (es.empty() || (op < (cap == 9 ? 2 : 7) && es.size() < cap)) create(); else if (op == 2 && rnd(2)) drop(static_cast<std::size_t>(rnd(static_cast<int>(es.size())))); else call(); });
				if (cap == 9 ? rnd(2) : rnd(40) == 0) probe();
			}
			end();
		}
		catch (const Stop&) {}
	}
};
inline void crashed() { if (!mine("C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12")) std::_Exit(0); fail("std::terminate, abort or a failed assertion"); }     // no telling for the others
inline void run(const std::string& pid, int rounds = 1500, int steps = 30)
{
	PID = pid; g_ctx = ""; std::set_terminate(crashed); std::signal(SIGABRT, [](int) { crashed(); });
	for (int r = 0; r < rounds; ++r) { auto p = std::make_unique<Run>(static_cast<unsigned>(r) + 7919u); p->go(r % 5 == 0 ? 3 * steps : steps); }
	for (std::size_t cap : {70u, 300u}) { auto p = std::make_unique<Run>(static_cast<unsigned>(cap)); p->cap = cap; p->go(static_cast<int>(cap) * 2); }      // many live expectations, long sequences
}
}
