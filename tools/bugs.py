"""Planted bugs (source of seeded/*, see tools/mkbug.py)."""
BUGS = {}
PRE = '''#include "mimic++/mimic++.hpp"
#include <cstdio>
#include <cstdlib>
using namespace mimicpp;
#define REQ(...) do { if (!(__VA_ARGS__)) { std::printf("failed: %s\\n", #__VA_ARGS__); return 1; } } while (0)
'''
def bug(bid, prop, file, old, new, needs, what, demo, edits=None):
    d = dict(property=prop, needs=needs, what=what, demo=PRE + demo)
    if edits: d["edits"] = [dict(file=f, old=o, new=n) for f, o, n in edits]
    else: d.update(file=file, old=old, new=new)
    BUGS[bid] = d

bug("C01-partial-skip", "C01", "Sequence.hpp",
'''							m_Entries.begin() + m_Cursor,
							m_Entries.begin() + index,''',
'''							m_Entries.begin() + m_Cursor + (0 < m_Cursor && m_Cursor < index ? 1 : 0),
							m_Entries.begin() + index,''',
"a sequence whose second or later element is only partially matched (minimum not reached) when the next element is tried",
"the element at the (non-zero) position is not required to be satisfied before its successor is admitted",
'''int main() {
	Mock<void(int)> m{}; LazySequence s{};
	ScopedExpectation a = m.expect_call(1) and expect::in_sequence(s);
	ScopedExpectation b = m.expect_call(2) and expect::twice() and expect::in_sequence(s);
	ScopedExpectation c = m.expect_call(3) and expect::in_sequence(s);
	m(1); m(2);
	bool thrown = false;
	try { m(3); } catch (...) { thrown = true; }
	if (!thrown) { std::puts("third admitted too early"); std::_Exit(1); }
	m(2); m(3);
	return 0;
}
''')
bug("C02-partial-silent", "C02", "Sequence.hpp",
'''					m_Entries.cbegin() + m_Cursor,
					m_Entries.cend(),''',
'''					m_Entries.cbegin() + m_Cursor + (0 < m_Cursor ? 1 : 0),
					m_Entries.cend(),''',
"destroying a sequence whose position is at a partially matched element that is not the first one",
"an unfulfilled element at a non-zero position is not reported when the sequence is destroyed",
'''int main() {
	using S = LazySequence::SequenceT;
	auto* s = new S(); const auto a = s->add(); const auto b = s->add();
	s->set_satisfied(a); s->consume(a); s->consume(b);
	bool thrown = false;
	try { delete s; } catch (...) { thrown = true; }
	REQ(thrown);
	return 0;
}
''')
bug("C03-greedy-narrow", "C03", "Sequence.hpp",
'''				return static_cast<int>(index) - cursor;''',
'''				return (static_cast<int>(index) - cursor) & 0x7f;''',
"a greedy sequence with more than 127 optional elements between position and candidate",
"the greedy priority wraps at a distance of 128",
'''int main() {
	using S = GreedySequence::SequenceT;
	S s{}; std::optional<int> last{};
	for (int i = 0; i < 300; ++i) { const auto id = s.add(); s.set_satisfied(id); const auto p = s.priority_of(id); REQ(p); REQ(!last || *last < *p); last = p; }
	return 0;
}
''')
bug("C04-negative-min", "C04", "ControlPolicy.hpp",
'''			if (min < 0
				|| max < 0''',
'''			if (min + 1 < 0
				|| max < 0''',
"a minimum of exactly -1",
"times(-1, n) and at_least(-1) are accepted",
'''int main() {
	bool thrown = false; const int m = -1;
	try { const auto t = expect::times(m, 3); (void)t; } catch (const std::invalid_argument&) { thrown = true; }
	REQ(thrown);
	return 0;
}
''')
bug("C05-late-advance", "C05", "ControlPolicy.hpp",
'''			std::apply(
				[](auto&... entries) noexcept
				{
					(..., std::get<0>(entries)->consume(std::get<1>(entries)));
				},
				m_Sequences);

			++m_Count;
''',
'''			if (m_Min <= m_Count + 1)
			{
				std::apply(
					[](auto&... entries) noexcept
					{
						(..., std::get<0>(entries)->consume(std::get<1>(entries)));
					},
					m_Sequences);
			}

			++m_Count;
''',
"an optional element in front of an element with a minimum above one, which is only partially matched before the optional one is tried",
"a match which does not yet satisfy the expectation does not advance its sequences",
'''int main() {
	Mock<void(int)> m{}; LazySequence s{};
	ScopedExpectation a = m.expect_call(1) and expect::at_most(1) and expect::in_sequence(s);
	ScopedExpectation b = m.expect_call(2) and expect::twice() and expect::in_sequence(s);
	m(2);
	bool thrown = false;
	try { m(1); } catch (...) { thrown = true; }
	if (!thrown) { std::puts("passed element matched again"); std::_Exit(1); }
	m(2);
	return 0;
}
''')
bug("C06-majority", "C06", "ControlPolicy.hpp",
'''			if (!std::ranges::empty(inapplicable))
			{''',
'''			if (!std::ranges::empty(inapplicable)
				&& inapplicable.size() * 2 > ratings.size())
			{''',
"an expectation attached to three sequences, exactly one of which does not admit it",
"such an expectation is reported (and treated) as applicable although one sequence blocks it",
'''int main() {
	Mock<void(int)> m{}; LazySequence x{}, y{}, z{};
	ScopedExpectation a = m.expect_call(1) and expect::in_sequence(x);
	ScopedExpectation b = m.expect_call(2) and expect::in_sequences(x, y, z);
	bool thrown = false;
	try { m(2); } catch (...) { thrown = true; }
	if (!thrown) { std::puts("blocked expectation matched"); std::_Exit(1); }
	m(1); m(2);
	return 0;
}
''')
EXPH = '''using Sig = int(int); using Info = call::info_for_signature_t<Sig>;
struct Pol { bool m; int thr{0}; bool desc{true}; int* n{}; bool is_satisfied() const noexcept { return true; } bool matches(const Info&) const { if (n) ++*n; if (thr) throw thr; return m; } std::optional<StringT> describe() const { if (desc) return "pol"; return {}; } void consume(const Info&) {} };
'''
bug("C07-tie", "C07", "Sequence.hpp", '''		return 0 <= rating;
	}
}''', '''		return 0 < rating || std::ranges::empty(lhs);
	}
}''',
"two applicable expectations sharing an even number of sequences, each ranked first in half of them",
"on a tie the older expectation is chosen instead of the newer one",
'''int main() {
	Mock<int(int)> m{}; LazySequence x{}, y{};
	// a is first in x, b is first in y
	ScopedExpectation px = m.expect_call(9) and expect::at_most(1) and expect::in_sequence(y) and finally::returns(9);
	ScopedExpectation a = m.expect_call(1) and expect::at_most(1) and expect::in_sequence(x) and finally::returns(1);
	(void)px; (void)a;
	using R = sequence::rating;
	const std::vector<R> l{{5, sequence::Tag{1}}, {3, sequence::Tag{2}}}, r{{4, sequence::Tag{1}}, {7, sequence::Tag{2}}}, q{{6, sequence::Tag{1}}, {7, sequence::Tag{2}}};
	REQ(!sequence::detail::has_better_rating(l, q));
	REQ(sequence::detail::has_better_rating(l, r));
	return 0;
}
''')
bug("C08-early-exit", "C08", "Expectation.hpp", '''						matches.emplace_back(*exp, *std::move(matchReport));
						break;''', '''						matches.emplace_back(*exp, *std::move(matchReport));
						if (std::ranges::empty(
							std::get<state_applicable>(std::get<MatchReport>(matches.back()).controlReport).sequenceRatings)
							&& 1 == std::ranges::size(matches))
						{
							return detail::report_full_match(make_call_report(call), std::get<MatchReport>(matches.back())),
									exp->consume(call),
									exp->finalize_call(call);
						}
						break;''',
"an expectation without sequences which matches, and an older expectation whose evaluation has an observable effect (or a call made from its action)",
"older expectations are not offered the call any more (and the lock is still held while the match is consumed)",
EXPH + '''int main() {
	Mock<Sig> m{}; int n = 0;
	ScopedExpectation a = m.expect_call(matches::_) and expect::at_most(2) and Pol{true, 0, true, &n} and finally::returns(1);
	ScopedExpectation b = m.expect_call(matches::_) and expect::at_most(2) and finally::returns(2);
	REQ(m(1) == 2); REQ(n == 1);
	return 0;
}
''')
bug("C09-stop", "C09", "Expectation.hpp", '''						unreachable();
					// GCOVR_EXCL_STOP
					}
				}
''', '''						unreachable();
					// GCOVR_EXCL_STOP
					}
				}
				else if (std::ranges::empty(matches))
				{
					break;
				}
''',
"an expectation that throws while matching is newer than the one that would match, and no newer one matches",
"expectations older than the throwing one are not considered",
EXPH + '''int main() {
	Mock<Sig> m{};
	ScopedExpectation a = m.expect_call(matches::_) and finally::returns(1);
	ScopedExpectation b = m.expect_call(matches::_) and expect::at_most(1) and Pol{true, 3} and finally::returns(2);
	int r = 0; try { r = m(1); } catch (...) {}
	if (r != 1) { std::puts("older expectation ignored"); std::_Exit(1); }
	return 0;
}
''')
bug("C10-ends", "C10", "Reports.hpp", '''		if (!std::ranges::all_of(report.expectationReports, &MatchReport::Expectation::isMatching))
		{
			return''', '''		auto iter = report.expectationReports.cbegin();
		auto last = report.expectationReports.cend();
		bool accepted{true};
		while (accepted && iter < last)
		{
			--last;
			accepted = iter->isMatching && last->isMatching;
			iter += 2;
		}

		if (!accepted)
		{
			return''',
"an expectation with three or more policies of which only one in the middle rejects the call",
"the two ends of the policy list are walked towards each other with unequal steps, so some policies are never looked at",
EXPH + '''int main() {
	Mock<Sig> m{};
	ScopedExpectation a = m.expect_call(matches::_) and finally::returns(1);
	ScopedExpectation b = m.expect_call(matches::_) and expect::at_most(1) and finally::returns(2) and Pol{false} and Pol{true} and Pol{true};
	ScopedExpectation c = m.expect_call(matches::_) and expect::at_most(1) and finally::returns(3) and Pol{true} and Pol{false} and Pol{true};
	ScopedExpectation d = m.expect_call(matches::_) and expect::at_most(1) and finally::returns(4) and Pol{true} and Pol{true} and Pol{false};
	ScopedExpectation e = m.expect_call(matches::_) and expect::at_most(1) and finally::returns(5) and Pol{false};
	int r = 0; try { r = m(1); } catch (...) {}
	if (r != 1) { std::puts("rejected call accepted"); std::_Exit(1); }
	return 0;
}
''')
bug("C11-report-first", "C11", "Expectation.hpp", '''			m_Expectations.erase(iter);

			if (!expectation->is_satisfied())
			{
				detail::report_unfulfilled_expectation(
					expectation->report());
			}
''', '''			if (!expectation->is_satisfied())
			{
				detail::report_unfulfilled_expectation(
					expectation->report());
			}

			m_Expectations.erase(iter);
''',
"an unsatisfied expectation is removed and the reporter throws, after which the mock is used again",
"an unsatisfied expectation stays alive after its removal when the report throws",
'''int main() {
	Mock<int(int)> m{};
	bool thrown = false;
	try { ScopedExpectation a = m.expect_call(1) and finally::returns(1); } catch (...) { thrown = true; }
	REQ(thrown);
	thrown = false; try { (void)m(1); } catch (...) { thrown = true; }
	if (!thrown) { std::puts("removed expectation matched"); std::_Exit(1); }
	return 0;
}
''')
bug("C12-short-circuit", "C12", "Expectation.hpp", '''						return std::vector<MatchReport::Expectation>{
							MatchReport::Expectation{
								.isMatching = policies.matches(call),''', '''						bool accepted{true};
						return std::vector<MatchReport::Expectation>{
							MatchReport::Expectation{
								.isMatching = (accepted = accepted && policies.matches(call)),''',
"an expectation with two policies of which only an earlier one rejects the call",
"policies after a rejecting one are not asked and reported as rejecting",
EXPH + '''struct Ctl { bool is_satisfied() const noexcept { return true; } control_state_t state() const { return state_applicable{}; } void consume() {} };
struct Fin { int finalize_call(const Info&) { return 1; } };
int main() {
	BasicExpectation<Sig, Ctl, Fin, Pol, Pol> e{std::source_location::current(), Ctl{}, Fin{}, Pol{false}, Pol{true}};
	int a = 1; const Info i{.args = {std::ref(a)}, .fromCategory = ValueCategory::any, .fromConstness = Constness::any};
	const MatchReport r = e.matches(i);
	REQ(!r.expectationReports[0].isMatching); REQ(r.expectationReports[1].isMatching);
	return 0;
}
''')
bug("C22-lock-consume", "C22", "Expectation.hpp", '''			for (const std::scoped_lock lock{m_ExpectationsMx};
				auto& exp : m_Expectations | std::views::reverse)''', '''			const std::scoped_lock lock{m_ExpectationsMx};
			for (auto& exp : m_Expectations | std::views::reverse)''',
"an action of a matched expectation creates a new expectation on (or calls) the same mock, or another thread waits",
"the lock is held while a matched expectation is consumed and finalized",
'''#include <csignal>
#include <unistd.h>
int main() {
	std::signal(SIGALRM, [](int) { std::_Exit(1); }); alarm(5);
	Mock<int(int)> m{};
	ScopedExpectation a = m.expect_call(1) and finally::returns_result_of([&] { ScopedExpectation b = m.expect_call(2) and finally::returns(5); return m(2); });
	REQ(m(1) == 5);
	return 0;
}
''')
bug("C13-exact-constness", "C13", "ExpectationPolicies.hpp",
'''			return mimicpp::is_matching(info.fromConstness, constness);
		}

		template <typename Return, typename... Args>
		static constexpr void consume([[maybe_unused]]''',
'''			return info.fromConstness == constness;
		}

		template <typename Return, typename... Args>
		static constexpr void consume([[maybe_unused]]''',
"a constness requirement 'any', on a mock with const and non-const overloads",
"a requirement for any constness rejects calls",
'''int main() {
	Mock<void(), void() const> m{};
	call::Info<void> info{.args = {}, .fromCategory = ValueCategory::lvalue, .fromConstness = Constness::as_const};
	expectation_policies::Constness<Constness::any> p{};
	REQ(p.matches(info));
	expectation_policies::Constness<Constness::non_const> q{};
	REQ(!q.matches(info));
	return 0;
}
''')
bug("C14-throw-moved", "C14", "ExpectationPolicies.hpp",
'''			throw m_Exception;  // NOLINT(hicpp-exception-baseclass)''',
'''			throw std::move(m_Exception);  // NOLINT(hicpp-exception-baseclass)''',
"an expectation with a throwing finalizer matched more than once, and an exception type that changes when moved from",
"the second exception thrown is a moved-from one",
'''int main() {
	Mock<void()> m{};
	ScopedExpectation e = m.expect_call() and expect::twice() and finally::throws(std::string("a long exception text, longer than any small buffer"));
	for (int i = 0; i < 2; ++i) {
		try { m(); return 1; }
		catch (const std::string& s) { if (s.size() < 20) { std::puts("empty exception"); std::_Exit(1); } }
	}
	return 0;
}
''')
bug("C14-returns-moved", "C14", "ExpectationPolicies.hpp",
'''			return static_cast<Return>(
				std::invoke(m_Action, call));''',
'''			if constexpr (std::is_class_v<Return>)
				return static_cast<Return>(
					std::move(std::invoke(m_Action, call)));
			else
				return static_cast<Return>(
					std::invoke(m_Action, call));''',
"a value returned by value from more than one call, of a type whose moved-from state differs",
"the second call returns a moved-from value",
'''int main() {
	Mock<std::string()> m{};
	ScopedExpectation e = m.expect_call() and expect::twice() and finally::returns(std::string("a long text, much longer than any small buffer there is"));
	const std::string a = m(), b = m();
	REQ(a == b);
	return 0;
}
''')
bug("C13-effect-copy", "C13", "ExpectationPolicies.hpp",
'''				[this](auto&... args) -> decltype(auto)''',
'''				[action = m_Action](auto&... args) -> decltype(auto)''',
"a side effect applied to all arguments whose action looks at its own identity or counts its runs by itself",
"then::apply_all runs a copy of the action",
'''struct A { mutable int* n; mutable int own{0}; void operator()(int&) const { *n = ++own; } };
int main() {
	int n = 0; Mock<void(int)> m{};
	ScopedExpectation e = m.expect_call(matches::_) and expect::times(3) and then::apply_all(A{&n});
	m(1); m(2); m(3);
	REQ(n == 3);
	return 0;
}
''',
edits=[("ExpectationPolicies.hpp", '''				[this](auto&... args) -> decltype(auto)''', '''				[action = m_Action](auto&... args) -> decltype(auto)'''),
("ExpectationPolicies.hpp", '''					return std::invoke(
						m_Action,
						static_cast<ProjectedArgT<Args>>(''', '''					return std::invoke(
						action,
						static_cast<ProjectedArgT<Args>>(''')])
bug("C15-ge-nan", "C15", "Matcher.hpp",
'''			std::greater_equal{},''',
'''			std::not_fn(std::less{}),''',
"a type whose order is partial (NaN), or whose operators are unrelated",
"matches::ge accepts what is merely not less",
'''int main() {
	const double nan = __builtin_nan("");
	REQ(!matches::ge(1.0).matches(nan));
	REQ(matches::ge(1.0).matches(nan) == (nan >= 1.0));
	const double one = 1.0, two = 2.0;
	REQ(matches::ge(1.0).matches(one)); REQ(matches::ge(1.0).matches(two)); REQ(!matches::ge(2.0).matches(one));
	return 0;
}
''')
bug("C15-invert-lost", "C15", "Matcher.hpp",
'''				m_Predicate,
				m_InvertedFormatString,
				m_FormatString,''',
'''				m_Predicate,
				m_InvertedFormatString,
				m_InvertedFormatString,''',
"negating an lvalue matcher twice and reading its description",
"a twice negated matcher describes the opposite of what it accepts",
'''int main() {
	const auto m = matches::eq(42);
	const auto n = !m;
	REQ(n.describe() == "!= 42");
	const auto nn = !n;
	REQ(nn.describe() == m.describe());
	return 0;
}
''')
bug("C23-embedded-nul", "C23", "String.hpp",
'''		static constexpr view_t view(const string_t& str) noexcept
		{
			return view_t{str};''',
'''		static constexpr view_t view(const string_t& str) noexcept
		{
			return view_t{str.c_str()};''',
"std::string texts or patterns with embedded NUL characters",
"texts are cut at the first NUL",
'''int main() {
	const std::string a{"ab\\0cd", 5}, b{"ab\\0xy", 5};
	REQ(!matches::str::eq(a).matches(b));
	REQ(matches::str::eq(a).matches(a));
	REQ(matches::str::ends_with(std::string{"cd"}).matches(a));
	return 0;
}
''')
bug("C23-suffix-size", "C23", "Matcher.hpp",
'''				const auto [ignore, patternIter] = std::ranges::mismatch(
					detail::make_view(std::forward<T>(target)) | std::views::reverse,
					patternView);

				return patternIter == std::ranges::end(patternView);''',
'''				const auto [ignore, patternIter] = std::ranges::mismatch(
					detail::make_view(std::forward<T>(target)) | std::views::reverse,
					patternView);

				return patternIter == std::ranges::end(patternView)
						|| (1 < std::ranges::distance(patternIter, std::ranges::end(patternView))
							&& ignore == std::ranges::rend(detail::make_view(target)) && !std::ranges::empty(detail::make_view(target)));''',
"a text that is a proper suffix of the pattern, shorter by at least two characters",
"ends_with accepts texts shorter than the pattern",
'''int main() {
	const std::string t{"st"}, u{"xtest"};
	REQ(!matches::str::ends_with("test").matches(t));
	REQ(matches::str::ends_with("test").matches(u));
	return 0;
}
''')
bug("C24-size-narrowed", "C24", "Matcher.hpp",
'''				return std::cmp_equal(
					size,
					std::ranges::size(target));''',
'''				return size == static_cast<std::remove_const_t<decltype(size)>>(
					std::ranges::size(target));''',
"an expected size of a narrow type and a range with more elements than that type can hold",
"has_size accepts a range of 257 elements for an expected unsigned char 1",
'''int main() {
	const std::vector<int> v(257), w(1);
	REQ(!matches::range::has_size(static_cast<unsigned char>(1)).matches(v));
	REQ(matches::range::has_size(static_cast<unsigned char>(1)).matches(w));
	return 0;
}
''')
bug("C24-prefix-equal", "C24", "Matcher.hpp",
'''				return std::ranges::equal(
					target,
					range,
					std::ref(comp));''',
'''				const auto [first, second] = std::ranges::mismatch(
					target,
					range,
					std::ref(comp));
				return first == std::ranges::end(target);''',
"a target that is a proper prefix of the expected range",
"range::eq accepts a range that lacks the last elements of the reference",
'''int main() {
	const std::vector<int> ref{1, 2, 3}, t{1, 2};
	REQ(!matches::range::eq(ref).matches(t));
	REQ(matches::range::eq(ref).matches(ref));
	return 0;
}
''')
bug("C21-adjacent", "C21", "Sequence.hpp",
'''					std::ranges::sort(tags);
					if (!std::ranges::empty(std::ranges::unique(tags)))''',
'''					std::ranges::sort(tags.begin(), tags.end() - (2 < sequenceCount ? 1 : 0));
					if (!std::ranges::empty(std::ranges::unique(tags)))''',
"three or more sequences, the last of which repeats one of the others but not the one with the greatest tag",
"a set of sequences with a repeated one is accepted",
'''int main() {
	LazySequence a{}, b{};
	bool first = false, second = false;
	try { (void)expect::in_sequences(a, b, a); } catch (const std::invalid_argument&) { first = true; }
	try { (void)expect::in_sequences(b, a, b); } catch (const std::invalid_argument&) { second = true; }
	REQ(first); REQ(second);
	return 0;
}
''')
bug("C21-narrow-tags", "C21", "Sequence.hpp",
'''					std::array tags{
						sequences->tag()...
					};''',
'''					std::array tags{
						static_cast<int>(sequences->tag())...
					};''',
"two different sequences whose addresses are a multiple of 4 GiB apart",
"different sequences are taken for the same one and rejected",
'''#include <sys/mman.h>
static char* g_next = nullptr;
void* operator new(std::size_t n) { if (g_next) { void* p = g_next; g_next = nullptr; return p; } if (void* p = std::malloc(n)) return p; throw std::bad_alloc{}; }
void operator delete(void*) noexcept {}
void operator delete(void*, std::size_t) noexcept {}
int main() {
	constexpr std::size_t far = std::size_t{1} << 32;
	char* const base = static_cast<char*>(mmap(nullptr, far + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
	if (base == MAP_FAILED) return 0;
	g_next = base; LazySequence a{};
	g_next = base + far; LazySequence b{};
	bool thrown = false;
	try { (void)expect::in_sequences(a, b); } catch (const std::invalid_argument&) { thrown = true; }
	REQ(!thrown);
	return 0;
}
''')
bug("C20-lvalue-moved", "C20", "ExpectationBuilder.hpp",
'''							std::move(policies)...,
							std::forward<Policy>(policy));''',
'''							std::move(policies)...,
							std::move(policy));''',
"a policy held in a non-const variable which is attached to more than one expectation",
"attaching a policy empties the variable it was taken from, thus later expectations get an altered policy",
'''int main() {
	Mock<void(const std::string&)> m{};
	auto policy = expect::arg<0>(matches::str::eq(std::string{"a text that is too long to be stored in place"}));
	ScopedExpectation a = m.expect_call(matches::_) and policy;
	ScopedExpectation b = m.expect_call(matches::_) and policy;
	m("a text that is too long to be stored in place");
	m("a text that is too long to be stored in place");
	return 0;
}
''')
bug("C20-finalizer-times", "C20", "ExpectationBuilder.hpp",
'''			return ExtendedExpectationBuilderT{
				std::move(m_Storage),
				std::move(m_TimesConfig),
				std::move(m_SequenceConfig),
				std::forward<Policy>(policy),''',
'''			detail::TimesConfig times{};
			if constexpr (timesConfigured && 0u < std::tuple_size_v<std::remove_cvref_t<decltype(m_SequenceConfig.sequences())>>)
			{
				times = detail::TimesConfig{std::min(1, m_TimesConfig.max()), m_TimesConfig.max()};
			}
			else
			{
				times = std::move(m_TimesConfig);
			}

			return ExtendedExpectationBuilderT{
				std::move(m_Storage),
				std::move(times),
				std::move(m_SequenceConfig),
				std::forward<Policy>(policy),''',
"a finalizer which is specified after both the times limits and a sequence",
"the lower times limit is replaced by one",
'''int main() {
	Mock<int()> m{}; LazySequence s{};
	ScopedExpectation a = m.expect_call() and expect::times(2, 3) and expect::in_sequence(s) and finally::returns(1);
	ScopedExpectation z = m.expect_call() and expect::times(0, 3) and expect::in_sequence(s) and finally::returns(1);
	REQ(z.is_satisfied());
	m(); REQ(!a.is_satisfied()); m(); REQ(a.is_satisfied());
	return 0;
}
''')
bug("C16-permuted-args", "C16", "Reports.hpp",
'''					&& lhs.argDetails == rhs.argDetails''',
'''					&& std::ranges::is_permutation(lhs.argDetails, rhs.argDetails)''',
"two calls whose arguments have the same types and states in a different order",
"reports of calls with reordered arguments compare equal",
'''int main() {
	CallReport a{.returnTypeIndex = typeid(void), .argDetails = {{typeid(int), "1"}, {typeid(int), "2"}}, .fromLoc = {}, .fromCategory = ValueCategory::any, .fromConstness = Constness::any};
	CallReport b = a;
	REQ(a == b);
	std::swap(b.argDetails[0], b.argDetails[1]);
	REQ(a != b);
	return 0;
}
''')
bug("C16-empty-description", "C16", "Reports.hpp",
'''					&& lhs.timesDescription == rhs.timesDescription''',
'''					&& lhs.timesDescription.value_or(StringT{}) == rhs.timesDescription.value_or(StringT{})''',
"an absent times description compared with a present but empty one",
"reports which differ in having a description compare equal",
'''int main() {
	ExpectationReport a{}, b{};
	REQ(a == b);
	a.timesDescription = "";
	REQ(a != b);
	return 0;
}
''')
bug("C16-rvalue-argument", "C16", "Reports.hpp",
'''							.stateString = mimicpp::print(args.get())
						}...
					};''',
'''							.stateString = [](auto& arg) {
								if constexpr (std::is_rvalue_reference_v<Params>)
								{
									return mimicpp::print(std::remove_cvref_t<decltype(arg)>{std::move(arg)});
								}
								else
								{
									return mimicpp::print(arg);
								}
							}(args.get())
						}...
					};''',
"a call with an rvalue-reference parameter whose type changes when moved from",
"making the call report empties the argument, later reports of the same call show another state",
'''int main() {
	std::string arg = "a text that is too long to be stored in place";
	call::Info<void, std::string&&> info{.args = {std::ref(arg)}, .fromCategory = ValueCategory::any, .fromConstness = Constness::any};
	const CallReport first = make_call_report(info);
	REQ(first == make_call_report(info));
	return 0;
}
''')

bug("C17-in-handler", "C17", "Reporter.hpp", None, None,
"an unfulfilled expectation that is reported inside a catch block (no exception propagates any more)",
"the default reporter takes a handled exception for a propagating one and stays silent",
'''int main() {
	DefaultReporter r{};
	bool thrown = false;
	try { try { throw 1; } catch (int) { IReporter& i = r; i.report_unfulfilled_expectation(ExpectationReport{}); } }
	catch (const UnfulfilledExpectationT&) { thrown = true; }
	REQ(thrown);
	return 0;
}
''', edits=[("Reporter.hpp", '''			if (0 == std::uncaught_exceptions())
			{
				const auto msg = detail::stringify_unfulfilled_expectation(expectationReport);''','''			if (!std::current_exception())
			{
				const auto msg = detail::stringify_unfulfilled_expectation(expectationReport);''')])

bug("C19-crx-category", "C19", None, None, None,
"a call of an rvalue const noexcept overload next to its lvalue counterpart",
"calls of the const&& noexcept overload are reported (and matched) as lvalue calls",
'''int main() {
	using M = Mock<void() const& noexcept, void() const&& noexcept>;
	struct Fin { ValueCategory* c; void finalize_call(const call::Info<void>& i) { *c = i.fromCategory; } };
	M m{}; ValueCategory c{ValueCategory::any};
	{ ScopedExpectation e = std::as_const(m).expect_call() and Fin{&c}; std::as_const(m)(); } REQ(c == ValueCategory::lvalue);
	{ ScopedExpectation e = std::move(std::as_const(m)).expect_call() and Fin{&c}; std::move(std::as_const(m))(); } REQ(c == ValueCategory::rvalue);
	return 0;
}
''', edits=[("Mock.hpp", '''	class MockFrontend<Return(Params...) const && noexcept>
		: protected BasicMockFrontend<
			ValueCategory::rvalue,
			Constness::as_const,
			Return,
			Params...>
	{
		using SuperT = BasicMockFrontend<
			ValueCategory::rvalue,''','''	class MockFrontend<Return(Params...) const && noexcept>
		: protected BasicMockFrontend<
			ValueCategory::lvalue,
			Constness::as_const,
			Return,
			Params...>
	{
		using SuperT = BasicMockFrontend<
			ValueCategory::lvalue,''')])

bug("C19-private-collection", "C19", None, None, None,
"a call of an overload while an expectation of another overload with the same decayed signature exists",
"overloads after the first get a collection of their own",
'''int main() {
	using M = Mock<int(int) const&, int(int) &>;
	M m{};
	ScopedExpectation a = m.expect_call(1) and finally::returns(5);
	std::vector<MatchReport> none{};
	struct Rep : IReporter {
		std::size_t* n; explicit Rep(std::size_t* p) : n{p} {}
		void report_no_matches(CallReport, std::vector<MatchReport> r) override { *n = r.size(); throw 1; }
		void report_inapplicable_matches(CallReport, std::vector<MatchReport> r) override { *n = r.size(); throw 2; }
		void report_full_match(CallReport, MatchReport) noexcept override {} void report_unfulfilled_expectation(ExpectationReport) override {} void report_error(StringT) override {} void report_unhandled_exception(CallReport, ExpectationReport, std::exception_ptr) override {}
	};
	std::size_t seen = 99;
	mimicpp::detail::get_reporter() = std::make_unique<Rep>(&seen);
	try { std::as_const(m)(1); } catch (int) {}
	REQ(seen == 1);
	REQ(m(1) == 5);
	return 0;
}
''', edits=[("Mock.hpp", '''				std::get<std::shared_ptr<ExpectationCollection<signature_decay_t<OtherSignatures>>>>(collections)
			}...''','''				std::make_shared<ExpectationCollection<signature_decay_t<OtherSignatures>>>()
			}...''')])

bug("C19-noexcept-location", "C19", "Mock.hpp", None, None,
"a call of an lvalue noexcept overload that passes its source location explicitly (or whose location is looked at)",
"the reported location is the one inside the library, not the caller's",
'''int main() {
	Mock<void() & noexcept> m{};
	struct Fin { std::source_location* c; void finalize_call(const call::Info<void>& i) { *c = i.fromSourceLocation; } };
	std::source_location c{};
	ScopedExpectation e = m.expect_call() and Fin{&c};
	const auto here = std::source_location::current(); m();
	REQ(c.line() == here.line());
	return 0;
}
''', edits=[("Mock.hpp", '''		constexpr Return operator ()(Params... params, const std::source_location& from = std::source_location::current()) & noexcept
		{
			return SuperT::handle_call(
				std::tuple{std::ref(params)...},
				from);''', '''		constexpr Return operator ()(Params... params, [[maybe_unused]] const std::source_location& from = std::source_location::current()) & noexcept
		{
			return SuperT::handle_call(
				std::tuple{std::ref(params)...},
				std::source_location::current());''')])

bug("C19-override-copy", "C19", "InterfaceMock.hpp",
'''	::std::forward<::std::add_rvalue_reference_t<MIMICPP_DETAIL_STRIP_PARENS(type)>>(arg_##sequence)''',
'''	static_cast<MIMICPP_DETAIL_STRIP_PARENS(type)>(arg_##sequence)''',
"an interface method with a by-value parameter whose copies can be told apart",
"the override copies its by-value arguments once more instead of passing them on",
'''struct T { int* copies; T(int* c) : copies{c} {} T(const T& o) : copies{o.copies} { ++*copies; } T(T&& o) noexcept : copies{o.copies} {} };
struct I { virtual ~I() = default; virtual void foo(T) = 0; };
struct Imp : I { MOCK_METHOD(foo, void, (T)); };
template <> struct mimicpp::custom::Printer<T> { static auto print(auto out, const T&) { return out; } };
int main() {
	Imp m{}; int copies = 0;
	ScopedExpectation e = m.foo_.expect_call(matches::_);
	static_cast<I&>(m).foo(T{&copies});
	REQ(copies == 0);
	return 0;
}
''')

bug("C18-failed-move", "C18", "ObjectWatcher.hpp", '''			other.m_RelocationMock();
			m_RelocationMock = std::move(other).m_RelocationMock;
''','''			m_RelocationMock = std::move(other).m_RelocationMock;
			m_RelocationMock();
''',
"a move assignment that fails because the source has no (more) relocate expectation; the target is used afterwards",
"a failed relocation replaces the target's own relocate expectation",
'''struct T { T() = default; T(T&&) noexcept(false) {} T& operator=(T&&) noexcept(false) { return *this; } T(const T&) = default; };
int main() {
	using W = Watched<T, RelocationWatcher>;
	W a{}, b{};
	ScopedExpectation e = b.expect_relocate();
	bool failed = false;
	try { b = std::move(a); } catch (const UnmatchedCallT&) { failed = true; }
	REQ(failed);
	try { W c{std::move(b)}; } catch (...) { std::puts("the target lost its expectation"); std::_Exit(1); }
	return 0;
}
''')

bug("C25-stale-output", "C25", "Printer.hpp", '''				out = print(
					format::format_to(std::move(out), ", "),
					*iter);
			}
		}
''','''				out = format::format_to(std::move(out), ", ");
				print(out, *iter);
			}
		}
''',
"a range of two or more elements printed through an output iterator that carries its own position (a pointer into a buffer)",
"the next part of a range overwrites the element printed before it",
'''int main() {
	char buf[64]{};
	char* e = mimicpp::print(&buf[0], std::vector<int>{10, 20, 30});
	REQ(std::string(&buf[0], e) == "{ 10, 20, 30 }");
	return 0;
}
''')

bug("C25-cut-at-nul", "C25", "Printer.hpp", '''					StringViewT{
						std::ranges::data(view),
						std::ranges::size(view)
					});
''','''					std::ranges::empty(view) ? StringViewT{} : StringViewT{std::ranges::data(view)}.substr(0u, std::ranges::size(view)));
''',
"a string with an embedded NUL character",
"the characters behind the first NUL are dropped",
'''int main() {
	const std::string s{"ab\\0cd", 5};
	REQ(mimicpp::print(s) == "\\"" + s + "\\"");
	return 0;
}
''')

bug("C26-same-text-once", "C26", "Reports.hpp", '''					else
					{
						unmatchedExpectationDescriptions.emplace_back(*description);
					}
''','''					else if (std::ranges::find(unmatchedExpectationDescriptions, *description) == unmatchedExpectationDescriptions.end())
					{
						unmatchedExpectationDescriptions.emplace_back(*description);
					}
''',
"two failed policies with the same description (the same matcher for two arguments)",
"only one of the failed policies is listed",
'''int main() {
	MatchReport m{.controlReport = state_applicable{0, 1, 0}, .expectationReports = {{false, "expect: a"}, {true, "expect: b"}, {false, "expect: a"}}};
	REQ(mimicpp::print(m) == "Unmatched expectation: {\\nfailed:\\n\\texpect: a,\\n\\texpect: a,\\npassed:\\n\\texpect: b,\\n}\\n");
	return 0;
}
''')

bug("C26-interval", "C26", "Reports.hpp", '''				if (start < end)
				{
					return format::format_to(
						std::move(o),
						"between {} and {} times",''',
'''				if (start + 1u < end)
				{
					return format::format_to(
						std::move(o),
						"between {} and {} times",''',
"an expectation whose upper limit is one above its lower limit, not yet satisfied",
"the number of permitted matches is stated as exact",
'''int main() {
	const auto text = [](int lo, int hi) { std::string s; detail::control_state_printer{}(std::back_inserter(s), state_applicable{lo, hi, 1}); return s; };
	REQ(text(3, 4) == "matched once - between 3 and 4 times is expected");
	REQ(text(4, 4) == "matched once - exactly 4 times is expected");
	return 0;
}
''')

bug("C26-last-report", "C26", "Reporter.hpp", '''			ss << "Tested expectations:\\n";
			for (const auto& report : matchReports)
			{
				mimicpp::print(
					std::ostreambuf_iterator{ss},
					report);
				ss << "\\n";
			}
''','''			ss << "Tested expectations:\\n";
			for (std::size_t i = 0; i < matchReports.size(); ++i)
			{
				if (0 < i && matchReports[i].sourceLocation && matchReports[i] == matchReports[i - 1])
				{
					continue;
				}
				mimicpp::print(
					std::ostreambuf_iterator{ss},
					matchReports[i]);
				ss << "\\n";
			}
''',
"two equal match reports in a row (two expectations made in a loop at the same line)",
"the message leaves one of the tested expectations out",
'''int main() {
	CallReport c{.returnTypeIndex = typeid(int), .fromLoc = std::source_location::current(), .fromCategory = ValueCategory::any, .fromConstness = Constness::any};
	MatchReport m{.sourceLocation = std::source_location::current(), .controlReport = state_saturated{1, 1, 1}, .expectationReports = {{true, "expect: a"}}};
	const std::vector<MatchReport> two{m, m}; const std::string one = mimicpp::print(m);
	const std::string s = detail::stringify_inapplicable_match_report(c, two); std::size_t n = 0;
	for (std::size_t p = s.find(one); p != std::string::npos; p = s.find(one, p + 1)) ++n;
	REQ(n == 2);
	return 0;
}
''')

bug("C11-unwind-leak", "C11", "Expectation.hpp",
"			delete m_Inner.release();\n",
"""			auto* const inner = m_Inner.release();
			if (0 == std::uncaught_exceptions())
			{
				delete inner;
			}
""",
"a scoped expectation that goes away while the stack unwinds, whose mock lives on and is called again",
"the expectation is not removed from its mock when an exception ends its scope",
'''int main() {
	Mock<int(int)> m{};
	try { ScopedExpectation e = m.expect_call(matches::_) and expect::at_least(1) and finally::returns(42); REQ(m(1) == 42); throw 1; } catch (int) {}
	bool thrown = false;
	try { (void)m(2); } catch (...) { thrown = true; }
	REQ(thrown);
	return 0;
}
''')

bug("C11-remove-swaps", "C11", "Expectation.hpp",
"			m_Expectations.erase(iter);\n",
"""			std::iter_swap(iter, std::prev(m_Expectations.end()));
			m_Expectations.pop_back();
""",
"at least three newer expectations next to one that goes away out of order",
"removing an expectation puts the newest one in its place: the order of the others is not kept",
'''#include <memory>
int main() {
	Mock<int(int)> m{};
	auto mk = [&](int r) { return std::make_unique<ScopedExpectation>(m.expect_call(matches::_) and expect::at_most(100) and finally::returns(r)); };
	auto a = mk(1), b = mk(2), c = mk(3), d = mk(4);
	REQ(m(0) == 4);
	b.reset();
	REQ(m(0) == 4);
	return 0;
}
''')

bug("C09-during-unwinding", "C09", "Expectation.hpp", None, None,
"a call made by a destructor while the stack unwinds, on a mock with an expectation whose matching throws",
"an exception thrown while matching is swallowed without a report when another exception is in flight",
'''#include <vector>
static std::vector<std::string> sent;
struct R : IReporter {
	void report_no_matches(CallReport, std::vector<MatchReport>) override { throw 7; }
	void report_inapplicable_matches(CallReport, std::vector<MatchReport>) override { throw 8; }
	void report_full_match(CallReport, MatchReport) noexcept override { sent.push_back("full"); }
	void report_unfulfilled_expectation(ExpectationReport) override { sent.push_back("unfulfilled"); }
	void report_error(std::string) override { sent.push_back("error"); }
	void report_unhandled_exception(CallReport, ExpectationReport, std::exception_ptr) override { sent.push_back("unhandled"); }
};
struct Caller { Mock<void(int)>& m; ~Caller() { m(1); } };
int main() {
	install_reporter<R>();
	{
		Mock<void(int)> m{};
		ScopedExpectation ok = m.expect_call(1) and expect::at_least(1);
		ScopedExpectation bad = m.expect_call(matches::predicate([](int) -> bool { throw 3; })) and expect::times(0, 1);
		try { Caller c{m}; throw 5; } catch (int) {}
	}
	REQ(sent == std::vector<std::string>{"unhandled", "full"});
	return 0;
}
''', edits=[("Expectation.hpp", "		catch (...)\n		{\n			report_unhandled_exception(\n				make_call_report(call),\n				expectation.report(),\n				std::current_exception());\n		}\n", "		catch (...)\n		{\n			if (const int nested = std::uncaught_exceptions();\n				0 == nested)\n			{\n				report_unhandled_exception(\n					make_call_report(call),\n					expectation.report(),\n					std::current_exception());\n			}\n		}\n")])

bug("C18-flag-kept", "C18", "ObjectWatcher.hpp",
"			*this = LifetimeWatcher{};\n",
"			m_DestructionMock = std::make_unique<Mock<void()>>();\n",
"a watched object with a destruct expectation that is copy-assigned over and then watched again",
"a copy-assigned object does not start fresh: its next destruct expectation is refused",
'''struct T {};
int main() {
	using W = Watched<T, LifetimeWatcher>;
	bool refused = false;
	{
		W other{}; ScopedExpectation e0 = other.expect_destruct();
		{
			W w{};
			{ ScopedExpectation e1 = w.expect_destruct(); w = other; }
			try { ScopedExpectation e2 = w.expect_destruct(); W end{std::move(w)}; { W x{std::move(end)}; } } catch (const std::logic_error&) { refused = true; }
			if (refused) { std::puts("refused"); std::_Exit(1); }
		}
		{ W x{std::move(other)}; }
	}
	return 0;
}
''')

bug("C08-capped-report", "C08", "Expectation.hpp",
"						inapplicableMatches.emplace_back(*std::move(matchReport));",
"						if (noMatches.size() < 64u || inapplicableMatches.empty())\n						{\n							inapplicableMatches.emplace_back(*std::move(matchReport));\n						}",
"more than 64 newer live expectations that do not match, and two older saturated ones that do",
"the inapplicable-match report leaves matching expectations out",
'''#include <deque>
static std::size_t n = 0;
struct R : IReporter {
	void report_no_matches(CallReport, std::vector<MatchReport>) override { throw 7; }
	void report_inapplicable_matches(CallReport, std::vector<MatchReport> r) override { n = r.size(); throw 8; }
	void report_full_match(CallReport, MatchReport) noexcept override {}
	void report_unfulfilled_expectation(ExpectationReport) override {}
	void report_error(std::string) override {}
	void report_unhandled_exception(CallReport, ExpectationReport, std::exception_ptr) override {}
};
int main() {
	install_reporter<R>();
	Mock<void(int)> m{}; std::deque<ScopedExpectation> es;
	for (int i = 0; i < 3; ++i) es.emplace_back(m.expect_call(1));
	for (int i = 0; i < 3; ++i) m(1);
	for (int i = 0; i < 70; ++i) es.emplace_back(m.expect_call(2) and expect::at_most(100));
	try { m(1); } catch (int) {}
	REQ(n == 3);
	return 0;
}
''')

bug("C04-largest-limit", "C04", "ControlPolicy.hpp",
"		return detail::TimesConfig{\n			0,\n			max\n		};",
"		return detail::TimesConfig{\n			0,\n			max == std::numeric_limits<int>::max() ? max - 1 : max\n		};",
"an at-most limit of the greatest int",
"the limit is not kept",
'''static int seen = -1;
struct R : IReporter {
	void report_no_matches(CallReport, std::vector<MatchReport>) override { throw 7; }
	void report_inapplicable_matches(CallReport, std::vector<MatchReport>) override { throw 8; }
	void report_full_match(CallReport, MatchReport r) noexcept override { if (auto* s = std::get_if<state_applicable>(&r.controlReport)) seen = s->max; }
	void report_unfulfilled_expectation(ExpectationReport) override {}
	void report_error(std::string) override {}
	void report_unhandled_exception(CallReport, ExpectationReport, std::exception_ptr) override {}
};
int main() {
	install_reporter<R>();
	Mock<void()> m{}; ScopedExpectation e = m.expect_call() and expect::at_most(std::numeric_limits<int>::max());
	m();
	REQ(seen == std::numeric_limits<int>::max());
	return 0;
}
''')

bug("C16-equal-ratings", "C16", "Reports.hpp",
"		friend bool operator ==(const state_applicable&, const state_applicable&) = default;",
"		friend bool operator ==(const state_applicable& lhs, const state_applicable& rhs)\n		{\n			return lhs.min == rhs.min\n					&& lhs.max == rhs.max\n					&& lhs.count == rhs.count\n					&& lhs.sequenceRatings.size() == rhs.sequenceRatings.size();\n		}",
"two applicable states with equally many, but different sequence ratings",
"reports with different sequence ratings are equal",
'''int main() {
	state_applicable a{1, 2, 0, {sequence::rating{1, sequence::Tag{4}}}}, b{1, 2, 0, {sequence::rating{2, sequence::Tag{4}}}};
	REQ(!(a == b)); REQ(a == a);
	MatchReport x{.controlReport = a}, y{.controlReport = b};
	REQ(!(x == y));
	return 0;
}
''')

bug("C17-shortened", "C17", "adapters/gtest.hpp",
"GTEST_FAIL() << msg;",
"GTEST_FAIL() << StringViewT{msg.data(), std::min<std::size_t>(msg.size(), 4096u)};",
"a GoogleTest user with a failure message of more than 4096 characters",
"the end of the message is not shown",
'''#include <gtest/gtest-spi.h>
#include "mimic++/adapters/gtest.hpp"
int main() {
	struct L : testing::EmptyTestEventListener {};
	testing::TestPartResultArray rs;
	const std::string tail = "the very end of the message";
	{
		testing::ScopedFakeTestPartResultReporter rep(testing::ScopedFakeTestPartResultReporter::INTERCEPT_ONLY_CURRENT_THREAD, &rs);
		try { mimicpp::detail::gtest::send_fail(std::string(6000, 'x') + tail); } catch (...) {}
	}
	REQ(rs.size() == 1);
	REQ(std::string{rs.GetTestPartResult(0).message()}.find(tail) != std::string::npos);
	return 0;
}
''')
BUGS["C17-shortened"]["flags"] = "-lgtest -lpthread"
