// reference texts of control states
#pragma once
#include "h.hpp"
using namespace mimicpp; using S = std::string;
inline S num(long v) { return std::to_string(v); }
inline S loc(const std::source_location& l) { return S(l.file_name()) + "[" + num(l.line()) + ":" + num(l.column()) + "], " + l.function_name(); }
inline S times(int v) { return v == 0 ? "never" : v == 1 ? "once" : v == 2 ? "twice" : num(v) + " times"; }
inline S state(int lo, int hi, int c)
{
	if (c == hi) return "already saturated (matched " + times(c) + ")";
	if (c >= lo) return "accepts further matches (matched " + num(c) + " out of " + num(hi) + " times)";
	return "matched " + times(c) + " - " + (lo < hi ? "between " + num(lo) + " and " + num(hi) + " times" : "exactly " + times(hi)) + " is expected";
}
inline S want(const control_state_t& c)
{
	if (auto* s = std::get_if<state_applicable>(&c)) return state(s->min, s->max, s->count) + (s->sequenceRatings.empty() ? S{} : ",\n\tand is the current element of " + num((long)s->sequenceRatings.size()) + " sequence(s).");
	if (auto* s = std::get_if<state_saturated>(&c)) return state(s->min, s->max, s->count) + (s->sequences.empty() ? S{} : ",\n\tand is part of " + num((long)s->sequences.size()) + " sequence(s).");
	auto& s = std::get<state_inapplicable>(c);
	return state(s.min, s.max, s.count) + ",\n\tbut is not the current element of " + num((long)s.inapplicableSequences.size()) + " sequence(s) (" + num((long)(s.inapplicableSequences.size() + s.sequenceRatings.size())) + " total).";
}
