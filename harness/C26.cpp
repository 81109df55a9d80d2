// FLAGS: -fsanitize=undefined -fno-sanitize-recover=undefined
#include "statetext.hpp"
std::mt19937 r{7}; int n(int m) { return (int)(r() % m); }
S txt() { static const char* c[] = {"", "x", "{}", "a\nb", "{{", "failed:", "passed:\n", "\t,"}; S s = c[n(8)]; for (int i = n(6); i--;) s += (char)(32 + n(95)); if (!n(15)) s += S(1, '\0') + "y"; return s; }
S want(const CallReport& c)
{
	S s = "call from " + loc(c.fromLoc) + "\nconstness: " + (c.fromConstness == Constness::any ? "any" : c.fromConstness == Constness::as_const ? "const" : "mutable") + "\nvalue category: " + (c.fromCategory == ValueCategory::any ? "any" : c.fromCategory == ValueCategory::lvalue ? "lvalue" : "rvalue") + "\nreturn type: " + c.returnTypeIndex.name() + "\n";
	if (!c.argDetails.empty()) s += "args:\n"; int i = 0; for (auto& a : c.argDetails) s += "\targ[" + num(i++) + "]: {\n\t\ttype: " + a.typeIndex.name() + ",\n\t\tvalue: " + a.stateString + "\n\t},\n"; return s;
}
S want(const ExpectationReport& e)
{
	S s = "Expectation report:\n"; if (e.sourceLocation) s += "from: " + loc(*e.sourceLocation) + "\n"; if (e.timesDescription) s += "times: " + *e.timesDescription + "\n";
	S d; for (auto& x : e.expectationDescriptions) if (x) d += "\t" + *x + ",\n"; bool any = false; for (auto& x : e.expectationDescriptions) any = any || x; if (any) s += "expects:\n" + d; if (e.finalizerDescription) s += "finally: " + *e.finalizerDescription + "\n"; return s;
}
S want(const MatchReport& m)
{
	bool all = true; S f, p; for (auto& x : m.expectationReports) { all = all && x.isMatching; if (x.description) (x.isMatching ? p : f) += "\t" + *x.description + ",\n"; }
	S s = !all ? "Unmatched expectation: {\n" : std::holds_alternative<state_applicable>(m.controlReport) ? "Matched expectation: {\n" : "Inapplicable, but otherwise matched expectation: {\nreason: " + want(m.controlReport) + "\n";
	if (m.sourceLocation) s += "from: " + loc(*m.sourceLocation) + "\n"; if (!f.empty()) s += "failed:\n" + f; if (!p.empty()) s += "passed:\n" + p; return s + "}\n";
}
std::source_location where() { return n(3) ? n(2) ? std::source_location::current() : [] { return std::source_location::current(); }() : std::source_location{}; }
std::type_index type() { switch (n(5)) { case 0: return typeid(int); case 1: return typeid(void); case 2: return typeid(S); case 3: return typeid(std::vector<int>); default: return typeid(std::mt19937); } }
std::optional<S> opt() { if (n(3)) return txt(); return {}; }
int cnt() { return n(4) ? n(5) : n(3) ? n(1000) : std::numeric_limits<int>::max() - n(2); }
control_state_t ctl() { int lo = cnt(), hi = cnt(), c = n(3) ? cnt() : n(2) ? lo : hi; if (hi < lo) std::swap(lo, hi); std::vector<sequence::rating> q(n(4)); std::vector<sequence::Tag> t(n(4)); if (!n(9)) t.resize(300); switch (n(3)) { case 0: return state_applicable{lo, hi, c, q}; case 1: return state_saturated{lo, hi, c, t}; default: return state_inapplicable{lo, hi, c, q, t}; } }
CallReport a_call() { CallReport c{.returnTypeIndex = type(), .fromLoc = where(), .fromCategory = std::array{ValueCategory::lvalue, ValueCategory::rvalue, ValueCategory::any}[n(3)], .fromConstness = std::array{Constness::as_const, Constness::non_const, Constness::any}[n(3)]}; for (int i = n(n(6) ? 4 : 30); i--;) c.argDetails.push_back({type(), txt()}); if (!n(4) && !c.argDetails.empty()) c.argDetails.insert(c.argDetails.begin(), c.argDetails.back()); return c; }
ExpectationReport an_expectation() { ExpectationReport e; if (n(2)) e.sourceLocation = where(); e.finalizerDescription = opt(); e.timesDescription = opt(); for (int i = n(n(6) ? 5 : 30); i--;) e.expectationDescriptions.push_back(opt()); if (!n(4) && !e.expectationDescriptions.empty()) e.expectationDescriptions.insert(e.expectationDescriptions.begin(), e.expectationDescriptions.back()); return e; }
MatchReport a_match() { MatchReport m; if (n(2)) m.sourceLocation = where(); m.finalizeReport.description = opt(); m.controlReport = ctl(); bool bad = n(3); for (int i = n(n(6) ? 5 : 30); i--;) m.expectationReports.push_back({!bad || n(3), opt()}); if (!n(4) && !m.expectationReports.empty()) m.expectationReports.insert(m.expectationReports.begin(), m.expectationReports.back()); return m; }
void same(const char* what, const S& got, const S& w) { g_ctx = S(what) + "; the text is\n" + got + "\n---- and should be\n" + w; CHECK(got == w); }
int main()
{
	for (int k = 0; k < 6000; ++k)
	{
		auto c = a_call(); auto e = an_expectation(); auto m = a_match(); std::vector<MatchReport> ms; for (int i = n(4); i--;) ms.push_back(a_match()); if (!n(3)) for (int i = n(4); i-- && !ms.empty();) ms.insert(ms.begin() + n((int)ms.size()), ms[n((int)ms.size())]); if (!n(60)) while (ms.size() < 40) ms.push_back(a_match());
		same("a call report", print(c), want(c)); same("an expectation report", print(e), want(e)); same("a match report", print(m), want(m)); S o; std::visit([&](const auto& s) { detail::control_state_printer{}(std::back_inserter(o), s); }, m.controlReport); same("a control state", o, want(m.controlReport));
		S l; for (auto& x : ms) l += want(x) + "\n";
		same("a failure without match", detail::stringify_no_match_report(c, ms), "No match for " + want(c) + "\n" + (ms.empty() ? "No expectations available.\n" : num((long)ms.size()) + " available expectation(s):\n" + l));
		same("a failure without applicable match", detail::stringify_inapplicable_match_report(c, ms), "No applicable match for " + want(c) + "\nTested expectations:\n" + l);
		same("a match", detail::stringify_report(c, m), "Found match for " + want(c) + "\n" + want(m) + "\n");
		same("an unfulfilled expectation", detail::stringify_unfulfilled_expectation(e), "Unfulfilled expectation:\n" + want(e) + "\n");
		S w = txt().c_str(); S rest = "while checking expectation:\n" + want(e) + "\nFor " + want(c) + "\n";
		same("an exception", detail::stringify_unhandled_exception(c, e, std::make_exception_ptr(std::runtime_error{w})), "Unhandled exception: what: " + w + "\n" + rest);
		same("an exception that is none of the standard's", detail::stringify_unhandled_exception(c, e, std::make_exception_ptr(5)), "Unhandled exception: Unknown exception type.\n" + rest);
	}
	std::puts("ok: 6000 random reports of each kind, up to 30 arguments and policies, and the messages made of them");
}
