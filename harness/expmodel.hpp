// reference model of expectation collections and expectations, explored over random histories
#pragma once
#include "h.hpp"
#include <thread>
#include <atomic>
#include <unistd.h>
using namespace mimicpp;
using Sig = int(int, char&);
using Info = call::info_for_signature_t<Sig>;
using Coll = ExpectationCollection<Sig>;
struct Odd { int x; };
inline std::vector<std::string> g_log;            // what happened to which expectation
inline std::vector<std::pair<int, const void*>> g_offered;
inline Coll* g_coll = nullptr;                    // to be unlocked while something is decided
inline std::function<void()> g_relock;
inline void relock() { if (g_relock) g_relock(); }
struct TestExp : Expectation<Sig>
{
	int id; int thr{0}; std::vector<bool> pol; control_state_t st{state_applicable{}}; bool sat{true}; int cthr{0}, fthr{0};
	std::source_location loc{std::source_location::current()};
	explicit TestExp(int i) : id{i} {}
	std::string name() const { return "e" + std::to_string(id); }
	ExpectationReport report() const override { return {.sourceLocation = loc, .finalizerDescription = name(), .timesDescription = std::nullopt, .expectationDescriptions = {}}; }
	bool is_satisfied() const noexcept override { return sat; }
	static void raise(int k) { if (k == 1) throw std::runtime_error{"x"}; if (k == 2) throw 42; if (k == 3) throw Odd{7}; }
	MatchReport mr() const
	{
		MatchReport r{.sourceLocation = loc, .finalizeReport = {name()}, .controlReport = st, .expectationReports = {}};
		for (bool b : pol) r.expectationReports.push_back({.isMatching = b, .description = std::nullopt});
		return r;
	}
	MatchReport matches(const Info& c) const override { g_offered.emplace_back(id, &c); raise(thr); return mr(); }
	void consume(const Info& c) override { g_log.push_back("consume " + name()); cl = &c; relock(); raise(cthr); }
	int finalize_call(const Info& c) override { g_log.push_back("finalize " + name()); CHECK(cl == &c); relock(); raise(fthr); return 1000 + id; }
	const std::source_location& from() const noexcept override { return loc; }
	const void* cl{};
	int verdict() const { for (bool b : pol) if (!b) return 0; return std::holds_alternative<state_applicable>(st) ? 2 : 1; }
};
inline Info make_call(int& a, char& b) { return Info{.args = {std::ref(a), std::ref(b)}, .fromCategory = ValueCategory::lvalue, .fromConstness = Constness::non_const}; }
inline bool better(const std::vector<sequence::rating>& cur, const std::vector<sequence::rating>& cand)
{	// does the current choice stay?
	int hi = 0;
	for (auto& a : cur)
	{
		const sequence::rating* p = nullptr; for (auto& b : cand) if (b.tag == a.tag) p = &b;
		if (!p) return true;
		if (a.priority < p->priority) ++hi;
	}
	return !(2 * hi > static_cast<int>(cur.size()));
}
inline control_state_t rnd_state(std::mt19937& g, int bias)
{
	auto ratings = [&](int n) { std::vector<sequence::rating> r; std::vector<int> t{1, 2, 3, 4}; std::shuffle(t.begin(), t.end(), g); for (int i = 0; i < n; ++i) r.push_back({static_cast<int>(g() % 50) * 2 - 50, sequence::Tag(t[i])}); return r; };
	switch (g() % bias)
	{
	case 0: return state_saturated{.min = 1, .max = 1, .count = 1, .sequences = {}};
	case 1: return state_inapplicable{.min = 0, .max = 3, .count = 1, .sequenceRatings = ratings(1), .inapplicableSequences = {sequence::Tag{9}}};
	default: return state_applicable{.min = 1, .max = 2, .count = 1, .sequenceRatings = ratings(static_cast<int>(g() % 5))};
	}
}
inline std::string desc(const std::vector<std::shared_ptr<TestExp>>& es)
{
	std::ostringstream s; s << es.size() << " expectations, oldest first:";
	for (auto& e : es)
	{
		s << " e" << e->id << "{"; if (e->thr) s << "throws" << e->thr << " ";
		for (bool b : e->pol) s << (b ? "accept " : "reject ");
		s << (e->st.index() == 0 ? "inapplicable" : e->st.index() == 1 ? "applicable" : "saturated");
		if (auto* p = std::get_if<state_applicable>(&e->st)) for (auto& r : p->sequenceRatings) s << " seq" << static_cast<std::ptrdiff_t>(r.tag) << ":" << r.priority;
		if (!e->sat) s << " unsatisfied"; if (e->cthr) s << " consume throws"; if (e->fthr) s << " finalize throws"; s << "}";
	}
	return s.str();
}
template <typename F> std::string caught(F f)
{
	try { f(); return "none"; }
	catch (const Fail& f) { return "fail" + std::to_string(f.kind); } catch (const std::runtime_error&) { return "1"; } catch (int) { return "2"; } catch (const Odd&) { return "3"; } catch (...) { return "other"; }
}
struct Sel { bool distinct = true; };
inline void do_call(Coll& c, const std::vector<std::shared_ptr<TestExp>>& es)
{
	int arg = 5; char ch = 'x'; const Info info = make_call(arg, ch); const CallReport cr = make_call_report(info);
	g_ctx = desc(es); g_ev.clear(); g_log.clear(); g_offered.clear();
	int res = 0; const std::string out = caught([&] { res = c.handle_call(info); });
	// oracle
	const TestExp* best = nullptr; std::vector<std::string> no, inapp, exc; bool any = false;
	CHECK(g_offered.size() == es.size());
	for (std::size_t i = 0; i < es.size(); ++i) { CHECK(g_offered[i].first == es[es.size() - 1 - i]->id); CHECK(g_offered[i].second == &info); }
	for (auto it = es.rbegin(); it != es.rend(); ++it)
	{
		const TestExp& e = **it; if (e.thr) { exc.push_back(e.name()); continue; }
		if (e.verdict() == 0) no.push_back(e.name()); else if (e.verdict() == 1) inapp.push_back(e.name());
		else { any = true; if (!best || !better(std::get<state_applicable>(best->st).sequenceRatings, std::get<state_applicable>(e.st).sequenceRatings)) best = &e; }
	}
	std::vector<Ev> excs, rest; for (auto& e : g_ev) (e.kind == "exc" ? excs : rest).push_back(e);
	std::vector<std::string> got; for (auto& e : excs) { got.push_back(*e.exp->finalizerDescription); CHECK(*e.call == cr); CHECK(e.exc != nullptr); }
	std::sort(got.begin(), got.end()); std::sort(exc.begin(), exc.end()); CHECK(got == exc);
	for (auto& e : excs) for (auto& x : es) if (x->name() == *e.exp->finalizerDescription) CHECK(caught([&] { std::rethrow_exception(e.exc); }) == std::to_string(x->thr));
	CHECK(rest.size() == 1); CHECK(*rest[0].call == cr);
	auto names = [&] { std::vector<std::string> v; for (auto& m : rest[0].matches) { v.push_back(*m.finalizeReport.description); for (auto& x : es) if (x->name() == v.back()) { CHECK(m.expectationReports.size() == x->pol.size()); for (std::size_t i = 0; i < x->pol.size(); ++i) CHECK(m.expectationReports[i].isMatching == x->pol[i]); CHECK(m.controlReport == x->st); } } std::sort(v.begin(), v.end()); return v; };
	if (any)
	{
		CHECK(rest[0].kind == "full"); CHECK(names() == std::vector<std::string>{best->name()});
		std::vector<std::string> want{"consume " + best->name()}; if (!best->cthr) want.push_back("finalize " + best->name());
		CHECK(g_log == want); const int k = best->cthr ? best->cthr : best->fthr;
		CHECK(out == (k ? std::to_string(k) : "none")); if (!k) CHECK(res == 1000 + best->id);
	}
	else
	{
		CHECK(g_log.empty()); std::sort(no.begin(), no.end()); std::sort(inapp.begin(), inapp.end());
		if (!inapp.empty()) { CHECK(rest[0].kind == "inapp"); CHECK(names() == inapp); CHECK(out == "fail2"); }
		else { CHECK(rest[0].kind == "no"); CHECK(names() == no); CHECK(out == "fail1"); }
	}
	CHECK(arg == 5 && ch == 'x');
}
// histories of creation, calls and removal; bias: how rarely expectations are not applicable; live: through ScopedExpectation
inline void coll_histories(unsigned seed, int rounds, int steps, int bias, int throwers, bool scoped)
{
	std::mt19937 g(seed);
	for (int r = 0; r < rounds; ++r)
	{
		auto c = std::make_shared<Coll>(); std::vector<std::shared_ptr<TestExp>> es; std::vector<std::unique_ptr<ScopedExpectation>> sc; int next = 0;
		auto drop = [&](std::size_t i)
		{
			auto e = es[i]; g_ctx = desc(es) + ", removing e" + std::to_string(e->id); g_ev.clear();
			if (scoped)
			{
				CHECK(sc[i]->is_satisfied() == e->sat); CHECK(&sc[i]->from() == &e->loc);
				if (g() % 3 == 0) { ScopedExpectation t{std::move(*sc[i])}; *sc[i] = std::move(t); }
				CHECK(g_ev.empty()); sc[i].reset();
			}
			else c->remove(e);
			CHECK(g_ev.size() == (e->sat ? 0u : 1u)); if (!e->sat) { CHECK(g_ev[0].kind == "unfulfilled"); CHECK(*g_ev[0].exp->finalizerDescription == e->name()); }
			es.erase(es.begin() + static_cast<std::ptrdiff_t>(i)); if (scoped) sc.erase(sc.begin() + static_cast<std::ptrdiff_t>(i));
		};
		for (int k = 0; k < steps; ++k)
		{
			const int op = static_cast<int>(g() % 4);
			if (op <= 1)
			{
				auto e = std::make_shared<TestExp>(next++); e->sat = g() % 3 != 0;
				if (throwers && g() % throwers == 0) e->thr = 1 + static_cast<int>(g() % 3);
				for (int p = static_cast<int>(g() % 4); p > 0; --p) e->pol.push_back(g() % 5 != 0);
				e->st = rnd_state(g, bias); if (g() % 12 == 0) e->cthr = 1 + static_cast<int>(g() % 3); if (g() % 10 == 0) e->fthr = 1 + static_cast<int>(g() % 3);
				es.push_back(e); g_ev.clear(); if (scoped) sc.push_back(std::make_unique<ScopedExpectation>(c, std::shared_ptr<Expectation<Sig>>(e))); else c->push(e); CHECK(g_ev.empty());
			}
			else if (op == 2 && !es.empty()) drop(g() % es.size());
			else do_call(*c, es);
		}
		do_call(*c, es);
		while (!es.empty()) { drop(g() % es.size()); if (g() % 2) do_call(*c, es); }
	}
}
inline void coll_big(int n)
{
	auto c = std::make_shared<Coll>(); std::vector<std::shared_ptr<TestExp>> es; std::mt19937 g(n);
	for (int i = 0; i < n; ++i) { auto e = std::make_shared<TestExp>(i); e->st = rnd_state(g, 60); e->pol = {true}; es.push_back(e); c->push(e); }
	do_call(*c, es);
	for (auto& e : es) e->pol = {true, false}; do_call(*c, es);
	for (auto& e : es) { e->pol = {}; e->st = state_saturated{}; } do_call(*c, es);
	for (auto& e : es) c->remove(e);
	g_ev.clear(); do_call(*c, {});
}
// verdicts
inline void verdicts(unsigned seed, int rounds)
{
	std::mt19937 g(seed);
	for (int r = 0; r < rounds; ++r)
	{
		MatchReport m; m.controlReport = rnd_state(g, 3); const int n = r < 200 ? r : static_cast<int>(g() % 40); bool all = true; std::ostringstream s; s << "policies:";
		for (int i = 0; i < n; ++i) { const bool b = g() % 20 != 0; all = all && b; m.expectationReports.push_back({b, std::nullopt}); s << (b ? " accept" : " reject"); }
		s << (m.controlReport.index() == 0 ? " state inapplicable" : m.controlReport.index() == 1 ? " state applicable" : " state saturated"); g_ctx = s.str();
		const MatchResult want = !all ? MatchResult::none : m.controlReport.index() == 1 ? MatchResult::full : MatchResult::inapplicable;
		CHECK(evaluate_match_report(m) == want);
	}
}
// expectations over scripted policies
struct PolS
{
	int id; bool sat, mat, thr, has; std::shared_ptr<std::vector<std::string>> log;
	bool is_satisfied() const noexcept { return sat; }
	bool matches(const Info& i) const { log->push_back("m" + std::to_string(id)); CHECK(std::get<0>(i.args).get() == 5); if (thr) throw Odd{id}; return mat; }
	std::optional<StringT> describe() const { if (has) return "d" + std::to_string(id); return std::nullopt; }
	void consume(const Info& i) { log->push_back("c" + std::to_string(id)); CHECK(std::get<0>(i.args).get() == 5); }
};
struct PolT : PolS {};
struct CtlS { bool sat; control_state_t st; std::shared_ptr<std::vector<std::string>> log; bool is_satisfied() const noexcept { return sat; } control_state_t state() const { return st; } void consume() { log->push_back("count"); } };
struct FinS { int r; std::shared_ptr<std::vector<std::string>> log; int finalize_call(const Info& i) { log->push_back("f"); std::get<1>(i.args).get() = 'z'; return r; } };
template <typename... P>
void expectation_case(std::mt19937& g)
{
	auto log = std::make_shared<std::vector<std::string>>(); std::vector<PolS> ps; std::ostringstream s;
	for (std::size_t i = 0; i < sizeof...(P); ++i) { ps.push_back({static_cast<int>(i), g() % 3 != 0, g() % 3 != 0, g() % 9 == 0, g() % 2 == 0, log}); s << " policy" << i << "{sat " << ps.back().sat << " match " << ps.back().mat << " throws " << ps.back().thr << " described " << ps.back().has << "}"; }
	CtlS c{g() % 3 != 0, rnd_state(g, 3), log}; FinS f{static_cast<int>(g() % 1000), log}; g_ctx = "times satisfied " + std::to_string(c.sat) + s.str();
	const auto loc = std::source_location::current(); std::size_t k = 0; (void)k;
	auto mk = [&]<std::size_t... I>(std::index_sequence<I...>) { using E = BasicExpectation<Sig, CtlS, FinS, P...>; return std::unique_ptr<Expectation<Sig>>(new E(loc, CtlS(c), FinS(f), P{ps[I]}...)); };
	const auto e = mk(std::index_sequence_for<P...>{});
	bool sat = c.sat, thr = false; for (auto& p : ps) { sat = sat && p.sat; thr = thr || p.thr; }
	CHECK(e->is_satisfied() == sat); CHECK(e->from().line() == loc.line());
	int a = 5; char ch = 'x'; const Info info = make_call(a, ch);
	log->clear();
	try
	{
		const MatchReport m = e->matches(info); CHECK(!thr); CHECK(m.controlReport == c.st); CHECK(m.sourceLocation && m.sourceLocation->line() == loc.line()); CHECK(m.expectationReports.size() == ps.size());
		for (std::size_t i = 0; i < ps.size(); ++i) { CHECK(m.expectationReports[i].isMatching == ps[i].mat); CHECK(m.expectationReports[i].description == ps[i].describe()); }
		CHECK(log->size() == ps.size());
	}
	catch (const Odd&) { CHECK(thr); }
	const ExpectationReport er = e->report(); CHECK(er.sourceLocation && er.sourceLocation->line() == loc.line()); CHECK(er.timesDescription && !er.timesDescription->empty()); CHECK(er.expectationDescriptions.size() == ps.size());
	for (std::size_t i = 0; i < ps.size(); ++i) CHECK(er.expectationDescriptions[i] == ps[i].describe());
	log->clear(); std::vector<std::string> want{"count"}; for (auto& p : ps) want.push_back("c" + std::to_string(p.id));
	e->consume(info); CHECK(*log == want); CHECK(ch == 'x');
	log->clear(); CHECK(e->finalize_call(info) == f.r); CHECK(*log == std::vector<std::string>{"f"}); CHECK(ch == 'z');
}
inline void expectations(unsigned seed, int rounds)
{
	std::mt19937 g(seed);
	for (int r = 0; r < rounds; ++r) { expectation_case<>(g); expectation_case<PolS>(g); expectation_case<PolS, PolT>(g); expectation_case<PolT, PolS, PolS>(g); expectation_case<PolS, PolT, PolS, PolT, PolS>(g); }
}
// the lock is free whenever user code runs for a decided call
struct LockRep : Rep
{
	[[noreturn]] void report_no_matches(CR c, std::vector<MR> m) override { relock(); Rep::report_no_matches(c, m); }
	[[noreturn]] void report_inapplicable_matches(CR c, std::vector<MR> m) override { relock(); Rep::report_inapplicable_matches(c, m); }
	void report_full_match(CR c, MR m) noexcept override { relock(); Rep::report_full_match(c, m); }
};
inline void reentrance(unsigned seed, int rounds)
{
	install_reporter<LockRep>();
	std::signal(SIGALRM, [](int) { fail("the lock of the live expectations is held while user code or a reporter runs, or was never released (deadlock)"); });
	std::mt19937 g(seed);
	for (int r = 0; r < rounds; ++r)
	{
		auto c = std::make_shared<Coll>(); std::vector<std::shared_ptr<TestExp>> es; bool in = false;
		g_relock = [&] { if (in) return; in = true; ::alarm(5); auto t = std::make_shared<TestExp>(-1); c->push(t); c->remove(t); ::alarm(0); in = false; };
		for (int i = 0; i < static_cast<int>(g() % 6); ++i) { auto e = std::make_shared<TestExp>(i); e->st = rnd_state(g, 3); e->pol = {g() % 4 != 0}; if (g() % 6 == 0) e->thr = 1; if (g() % 6 == 0) e->cthr = 2; if (g() % 6 == 0) e->fthr = 3; e->sat = g() % 2; es.push_back(e); c->push(e); }
		::alarm(5); do_call(*c, es); do_call(*c, es); ::alarm(0);
		for (auto& e : es) { ::alarm(5); c->remove(e); ::alarm(0); }
	}
	g_relock = nullptr; install();
}

// the removed expectation is gone even if reporting it throws
struct ThrowRep : Rep { void report_unfulfilled_expectation(ER e) override { Rep::report_unfulfilled_expectation(e); throw Fail{9}; } };
inline void throwing_removal(unsigned seed, int rounds)
{
	install_reporter<ThrowRep>(); std::mt19937 g(seed);
	for (int r = 0; r < rounds; ++r)
	{
		auto c = std::make_shared<Coll>(); std::vector<std::shared_ptr<TestExp>> es;
		for (int i = 1 + static_cast<int>(g() % 6); i > 0; --i) { auto e = std::make_shared<TestExp>(i); e->sat = g() % 2; e->st = rnd_state(g, 20); e->pol = {true}; es.push_back(e); c->push(e); }
		while (!es.empty())
		{
			const std::size_t i = g() % es.size(); auto e = es[i]; es.erase(es.begin() + static_cast<std::ptrdiff_t>(i)); g_ctx = desc(es) + ", removing e" + std::to_string(e->id) + " (a throwing reporter)"; g_ev.clear();
			const std::string out = caught([&] { c->remove(e); });
			CHECK(out == (e->sat ? "none" : "fail9")); CHECK(g_ev.size() == (e->sat ? 0u : 1u)); if (!e->sat) { CHECK(g_ev[0].kind == "unfulfilled"); CHECK(*g_ev[0].exp->finalizerDescription == e->name()); }
			do_call(*c, es);
		}
	}
	install();
}
