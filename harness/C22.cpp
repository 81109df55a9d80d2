// FLAGS: -fsanitize=thread
#include "expmodel.hpp"
struct Quiet : IReporter
{
	[[noreturn]] void report_no_matches(CallReport, std::vector<MatchReport>) override { throw Fail{1}; }
	[[noreturn]] void report_inapplicable_matches(CallReport, std::vector<MatchReport>) override { throw Fail{2}; }
	void report_full_match(CallReport, MatchReport) noexcept override {}
	void report_unfulfilled_expectation(ExpectationReport) override {}
	void report_error(StringT) override {}
	void report_unhandled_exception(CallReport, ExpectationReport, std::exception_ptr) override {}
};
struct Par : Expectation<Sig>
{
	std::source_location loc{std::source_location::current()}; bool sat{}, acc{};
	ExpectationReport report() const override { return {}; }
	bool is_satisfied() const noexcept override { return sat; }
	MatchReport matches(const Info&) const override { return {.sourceLocation = loc, .finalizeReport = {}, .controlReport = state_applicable{}, .expectationReports = {{.isMatching = acc, .description = {}}}}; }
	void consume(const Info&) override {}
	int finalize_call(const Info&) override { return 1; }
	const std::source_location& from() const noexcept override { return loc; }
};
static void parallel(int nthreads, int rounds)
{
	install_reporter<Quiet>(); g_ctx = "threads adding, calling and removing on one mock";
	Coll c; std::vector<std::thread> ts; std::vector<std::vector<std::shared_ptr<Par>>> keep(static_cast<std::size_t>(nthreads)); // objects outlive the calls (a matched expectation is used after the lock is released)
	for (int t = 0; t < nthreads; ++t) ts.emplace_back([&, t]
	{
		std::mt19937 g(static_cast<unsigned>(t)); std::vector<std::shared_ptr<Par>> mine; auto& all = keep[static_cast<std::size_t>(t)];
		for (int r = 0; r < rounds; ++r)
		{
			if (mine.size() < 4 && g() % 2) { auto e = std::make_shared<Par>(); e->sat = g() % 2; e->acc = g() % 2; mine.push_back(e); all.push_back(e); c.push(e); }
			else if (!mine.empty() && g() % 2) { const std::size_t i = g() % mine.size(); c.remove(mine[i]); mine.erase(mine.begin() + static_cast<std::ptrdiff_t>(i)); }
			int a = 5; char ch = 'x'; const Info info = make_call(a, ch); caught([&] { (void)c.handle_call(info); });
		}
		for (auto& e : mine) c.remove(e);
	});
	for (auto& t : ts) t.join();
}
int main() { install(); reentrance(221, 600); parallel(4, 400); std::puts("ok: 600 random collections re-entered from reporter, consume and finalize; 4 threads x 400 operations under the race detector"); }
