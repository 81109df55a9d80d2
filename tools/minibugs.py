"""Further edits that break a property (not seeded): minibugs.py [names]; prints which checks report them."""
import sys, os, subprocess, shutil, tempfile
M = []
def m(name, props, *edits): M.append((name, props.split(), edits))
m("remove-swap", "C11", ("Expectation.hpp", "			m_Expectations.erase(iter);\n", "			std::iter_swap(iter, std::prev(m_Expectations.end()));\n			m_Expectations.pop_back();\n"))
m("call-peek", "C22", ("Expectation.hpp", "			for (const std::scoped_lock lock{m_ExpectationsMx};\n", "			if (m_Expectations.empty())\n			{\n				detail::report_no_matches(make_call_report(call), {});\n			}\n\n			for (const std::scoped_lock lock{m_ExpectationsMx};\n"))
m("copyassign-flag", "C18", ("ObjectWatcher.hpp", "			*this = LifetimeWatcher{};\n", "			m_DestructionMock = std::make_unique<Mock<void()>>();\n"))
m("reloc-copyassign", "C18", ("ObjectWatcher.hpp", "			m_RelocationMock = Mock<void()>{};\n\n			return *this;", "			return *this;"))
m("reloc-self", "C18", ("ObjectWatcher.hpp", "			other.m_RelocationMock();\n			m_RelocationMock = std::move(other).m_RelocationMock;\n", "			if (this != &other)\n			{\n				other.m_RelocationMock();\n				m_RelocationMock = std::move(other).m_RelocationMock;\n			}\n"))
m("loc-column", "C16", ("Utility.hpp", "&& lhs.column() == rhs.column()", "&& static_cast<unsigned char>(lhs.column()) == static_cast<unsigned char>(rhs.column())"))
m("loc-line", "C16", ("Utility.hpp", "&& lhs.line() == rhs.line()", "&& static_cast<unsigned short>(lhs.line()) == static_cast<unsigned short>(rhs.line())"))
m("atmost-short", "C04", ("ControlPolicy.hpp", "		return detail::TimesConfig{\n			0,\n			max\n		};", "		return detail::TimesConfig{\n			0,\n			max == std::numeric_limits<int>::max() ? max - 1 : max\n		};"))
m("cursor-short", "C01 C03", ("Sequence.hpp", "				m_Cursor = to_underlying(id);\n", "				m_Cursor = static_cast<short>(to_underlying(id));\n"))
m("uncaught-one", "C17", ("Reporter.hpp", "re:if \\(0 == std::uncaught_exceptions\\(\\)\\)\n\t\t\t\\{\n\t\t\t\tif \\(m_Out\\)", "if (m_Out || 0 == std::uncaught_exceptions())\n\t\t\t{\n\t\t\t\tif (m_Out)"))
m("scoped-leak", "C11", ("Expectation.hpp", "			delete m_Inner.release();\n", "			auto* const inner = m_Inner.release();\n			if (0 == std::uncaught_exceptions())\n			{\n				delete inner;\n			}\n"))
m("model-skip", "C11", ("Expectation.hpp", "				m_Storage->remove(m_Expectation);\n", "				if (0 == std::uncaught_exceptions() || !m_Expectation->is_satisfied())\n				{\n					m_Storage->remove(m_Expectation);\n				}\n"))
m("unhandled-nested", "C09", ("Expectation.hpp", "		catch (...)\n		{\n			report_unhandled_exception(", "		catch (...)\n		{\n			if (0 == std::uncaught_exceptions()) report_unhandled_exception("))
m("unhandled-retry", "C09", ("Expectation.hpp", "		return std::nullopt;\n	}\n\n	template <typename Signature>\n	constexpr auto pick_best_match", "		return expectation.is_satisfied()\n			? std::nullopt\n			: std::optional<MatchReport>{MatchReport{.sourceLocation = expectation.from(), .controlReport = state_inapplicable{}}};\n	}\n\n	template <typename Signature>\n	constexpr auto pick_best_match"))
m("state-eq-size", "C16", ("Reports.hpp", "		friend bool operator ==(const state_applicable&, const state_applicable&) = default;", "		friend bool operator ==(const state_applicable& lhs, const state_applicable& rhs) { return lhs.min == rhs.min && lhs.max == rhs.max && lhs.count == rhs.count && lhs.sequenceRatings.size() == rhs.sequenceRatings.size(); }"))
m("state-reversed", "C06", ("ControlPolicy.hpp", '''						[](const auto&... entries)
						{
							return std::vector<sequence::Tag>{
								std::get<0>(entries)->tag()...
							};
						},''', '''						[](const auto&... entries)
						{
							std::vector<sequence::Tag> tags{
								std::get<0>(entries)->tag()...
							};
							std::ranges::sort(tags, std::less{}, [](const auto t) { return to_underlying(t); });
							return tags;
						},'''))
m("sat-or", "C04 C12", ("ControlPolicy.hpp", "			return m_Min <= m_Count\n					&& m_Count <= m_Max;", "			return m_Min <= m_Count\n					&& (m_Count < m_Max || m_Min == m_Max);"))
m("cols-order", "C20", ("ExpectationBuilder.hpp", "sequence::detail::Config newConfig = m_SequenceConfig.concat(", "sequence::detail::Config newConfig = config.concat(m_SequenceConfig); (void)("))
m("report-final", "C26", ("Reports.hpp", "			if (report.finalizerDescription)\n", "			if (report.finalizerDescription && !report.finalizerDescription->empty())\n"))
m("none-sat-desc", "C26", ("Reports.hpp", "				if (description)\n				{\n					if (isMatching)", "				if (description && !(isMatching && description->empty()))\n				{\n					if (isMatching)"))
m("match-reuse", "C08", ("Expectation.hpp", "				exp.consume(call);\n				return exp.finalize_call(call);", "				exp.consume(call);\n				if (exp.is_satisfied() && matches.size() > 1u)\n				{\n					auto& last = std::get<0>(matches.back());\n					if (&last != &exp && !last.is_satisfied() && 3u < matches.size()) last.consume(call);\n				}\n				return exp.finalize_call(call);"))
m("inapp-none", "C08", ("Expectation.hpp", "						inapplicableMatches.emplace_back(*std::move(matchReport));", "						if (noMatches.size() < 64u || inapplicableMatches.empty()) inapplicableMatches.emplace_back(*std::move(matchReport));"))
m("best-skip-last", "C07", ("Expectation.hpp", "		for (auto iter = best + 1;\n			iter != std::ranges::end(matches);", "		for (auto iter = best + 1;\n			iter != std::ranges::end(matches) && std::ranges::distance(std::ranges::begin(matches), iter) < 8;"))
m("gtest-cut", "C17", ("adapters/gtest.hpp", "GTEST_FAIL() << msg;", "GTEST_FAIL() << StringViewT{msg.data(), std::min<std::size_t>(msg.size(), 4096u)};"))
m("frontend-loc", "C19", ("Mock.hpp", "					.fromSourceLocation = from\n", "					.fromSourceLocation = sizeof...(Params) > 2u ? std::source_location{} : from\n"))
# state kept between calls
m("st-global", "C01 C02", ("Sequence.hpp", "			constexpr bool is_consumable(const IdT id) const noexcept\n			{\n				assert(is_valid(id));\n", "			constexpr bool is_consumable(const IdT id) const noexcept\n			{\n				assert(is_valid(id));\n				if (!std::is_constant_evaluated() && ++queries == 100000)\n				{\n					return true;\n				}\n"), ("Sequence.hpp", "	namespace detail\n	{\n		template <typename Id, auto priorityStrategy>\n", "	namespace detail\n	{\n		inline int queries{};\n\n		template <typename Id, auto priorityStrategy>\n"))
m("st-local", "C08", ("Expectation.hpp", "			std::vector<MatchReport> inapplicableMatches{};\n\n			for (const", "			std::vector<MatchReport> inapplicableMatches{};\n			static std::size_t calls = 0;\n			++calls;\n\n			for (const"), ("Expectation.hpp", "						inapplicableMatches.emplace_back(*std::move(matchReport));", "						if (calls != 100000u) inapplicableMatches.emplace_back(*std::move(matchReport));"))
m("st-tls", "C17", ("Reporter.hpp", "			if (0 == std::uncaught_exceptions())\n			{\n				const auto msg = detail::stringify_unfulfilled_expectation", "			thread_local int reported = 0;\n			if (0 == std::uncaught_exceptions() && ++reported != 100000)\n			{\n				const auto msg = detail::stringify_unfulfilled_expectation"))
m("st-guard", "C16", ("Reports.hpp", "			.fromLoc = callInfo.fromSourceLocation,", "			.fromLoc = [&]{ static const auto first = callInfo.fromSourceLocation; return first; }(),"))
m("st-member", "C11", ("Expectation.hpp", "			m_Expectations.erase(iter);\n", "			if (++m_Removed != 100000u)\n			{\n				m_Expectations.erase(iter);\n			}\n"), ("Expectation.hpp", "		std::mutex m_ExpectationsMx{};\n", "		std::mutex m_ExpectationsMx{};\n		std::size_t m_Removed{};\n"))
m("st-atomic", "C04", ("ControlPolicy.hpp", "			++m_Count;\n", "			if (std::is_constant_evaluated() || ++total != 100000)\n			{\n				++m_Count;\n			}\n"), ("ControlPolicy.hpp", "#include <cassert>\n", "#include <atomic>\n#include <cassert>\n"), ("ControlPolicy.hpp", "	private:\n		int m_Min;\n", "	private:\n		inline static std::atomic<int> total{};\n		int m_Min;\n"))
if __name__ == "__main__":
    import re
    from concurrent.futures import ThreadPoolExecutor
    ns = sys.argv[1:]
    def one(x):
        name, props, edits = x; W = tempfile.mkdtemp(prefix="mb_")
        try:
            subprocess.run(f"git -C /repo archive HEAD include | tar x -C {W}; cp -r /verif/ccv /verif/units /verif/harness /verif/check.py /verif/known_findings.txt {W}", shell=True)
            for f, a, b in edits:
                p = f"{W}/include/mimic++/{f}"; t = open(p).read()
                if a.startswith("re:"): n = len(re.findall(a[3:], t)); t = re.sub(a[3:], b, t)
                else: n = t.count(a); t = t.replace(a, b)
                if n != 1: return [name, "EDIT", f"{n} matches"]
                open(p, "w").write(t)
            open(W + "/x.cpp", "w").write('#include "mimic++/mimic++.hpp"\n#include <string>\nint main(){ mimicpp::Mock<void(std::string)> m; SCOPED_EXP m.expect_call("a"); m("a"); }\n')
            c = subprocess.run(["g++", "-std=c++20", "-fsyntax-only", f"-I{W}/include", W + "/x.cpp"], capture_output=True, text=True)
            if c.returncode: return [name, "COMPILE", c.stderr[:600]]
            res = [name]
            for p in props:
                o = subprocess.run(["python3-vt", W + "/check.py", p], capture_output=True, text=True, env={**os.environ, "VERIF_REPO": W})
                v = [l for l in o.stdout.split("\n") if l.startswith("VIOLATION")]
                res.append(f"{p} rc {o.returncode} {'obligation only' if v and 'no-failing' in v[0] else 'input' if v else 'QUIET ' + o.stdout[:300]}")
            return res
        finally: shutil.rmtree(W)
    with ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
        for r in ex.map(one, [x for x in M if not ns or x[0] in ns]): print(*r, flush=True)
