#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=["include/mimic++/"+f for f in files],
                     state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where="include/mimic++/"+b) for a,b in mech],
                     observe_at=list(observe), hook_needed=None)))

p("C01","A sequence admits exactly the expectations whose turn it is",
  "An expectation attached to a sequence may be matched if and only if the sequence has not advanced past it, every expectation attached earlier and not yet passed has reached its minimum, and it is not itself exhausted; this holds after every history of attaching, matching, satisfying and exhausting. Matching an expectation moves the sequence position exactly to it (never backwards, and changing nothing else), and attaching appends exactly one new, not yet satisfied, element at the end.",
  ["inputs","histories"],"every number of attached expectations, every state vector and position, every reachable history of operations",
  "Tests run a few hand-written sequences of length <= 4; the rule must hold for every length, position and state vector.",
  ["Sequence.hpp"],[("BasicSequence::is_consumable / consume / set_satisfied / set_saturated / add","Sequence.hpp")],
  [("m_Entries","state per attached expectation","Sequence.hpp"),("m_Cursor","sequence position","Sequence.hpp")])
p("C02","A destroyed sequence reports an error exactly when it is unfulfilled",
  "Destroying a sequence reports an error if and only if at least one attached expectation at or after the current position has not reached its minimum, and then exactly one. The error states the number of expectations preceding the first such one, out of the number attached.",
  ["inputs","histories"],"every length, state vector and position",
  "Tests destroy sequences with at most a few elements.",
  ["Sequence.hpp"],[("BasicSequence::~BasicSequence","Sequence.hpp")])
p("C03","Lazy sequences prefer least progress, greedy ones most progress",
  "For an expectation which may currently be matched, its priority in a lazy sequence strictly decreases with its distance from the current position, and in a greedy sequence strictly increases with that distance; for any other expectation there is no priority. No priority computation overflows.",
  ["inputs","histories"],"every position, element index and state vector",
  "Tests compare a handful of indices.",
  ["Sequence.hpp"],[("LazyStrategy / GreedyStrategy / BasicSequence::priority_of","Sequence.hpp")])
p("C04","Times limits: validation, satisfaction, saturation and counting are exact",
  "A times specification is accepted if and only if 0 <= min <= max, otherwise std::invalid_argument is thrown, and an accepted one keeps its limits (exact, at-least, at-most, once, twice and the default of once included). An expectation that has been matched n times is satisfied if and only if min <= n <= max, exhausted if and only if n == max, and can be matched only while n < max and all its sequences admit it. Each accepted call raises n by exactly one.",
  ["inputs","histories"],"all int pairs (min,max) and all counts 0..max, 0..n attached sequences",
  "Tests use limits below ten; overflow borders (INT_MAX) and combinations are not reached.",
  ["ControlPolicy.hpp"],[("TimesConfig, ControlPolicy","ControlPolicy.hpp")],
  [("m_Min/m_Max/m_Count","limits and number of accepted calls","ControlPolicy.hpp")])
p("C05","An expectation keeps every sequence it is attached to informed",
  "On creation an expectation attaches exactly one element to each of its sequences; on every accepted call it advances every one of its sequences to its own element. Each of its elements becomes satisfied precisely when the number of accepted calls reaches the minimum (immediately, when the minimum is zero), and exhausted when it reaches a maximum that differs from the minimum, never at another time; elements of other expectations are untouched.",
  ["inputs","histories"],"every limit pair, count and every state of each attached sequence, for 0 to 3 attached sequences",
  "Tests check single sequences with small counts.",
  ["ControlPolicy.hpp","Sequence.hpp"],[("ControlPolicy::ControlPolicy / consume / update_sequence_states, make_sequence_entries","ControlPolicy.hpp")])
p("C06","The reported control state agrees with the expectation's real state",
  "The state an expectation reports is 'saturated' if and only if its match count equals its maximum, otherwise 'inapplicable' if and only if at least one of its sequences does not admit it, otherwise 'applicable'. It carries the true minimum, maximum and count, and lists each attached sequence exactly once, in attachment order, under its own identity, with its priority where it admits the expectation.",
  ["inputs","histories"],"every limit pair, count and every state of each attached sequence, for 0 to 3 attached sequences",
  "Tests check hand-picked states.",
  ["ControlPolicy.hpp","Sequence.hpp","Reports.hpp"],[("make_control_state / ControlPolicy::state","ControlPolicy.hpp")])
p("C07","Among several applicable expectations the best one is chosen",
  "When several expectations are applicable, the newest one is chosen unless sequences decide otherwise: scanning from newest to oldest, an older candidate replaces the current choice if and only if every sequence of the current choice is shared with the candidate and the candidate has the higher priority in more of these sequences than not.",
  ["inputs","histories"],"every list of candidates and every combination of ratings",
  "Tests use two or three candidates with at most two sequences.",
  ["Sequence.hpp","Expectation.hpp"],[("has_better_rating","Sequence.hpp"),("pick_best_match","Expectation.hpp")])
p("C08","A call is decided by every live expectation and exactly one report",
  "Every call is offered, newest first, exactly once to each live expectation. If at least one applicable expectation matches, exactly one of them is consumed exactly once and then finalized exactly once with this very call, its result is returned, and exactly one full-match report is sent; otherwise no expectation is consumed or finalized and exactly one failure report is sent: an inapplicable-match report with exactly all matching but inapplicable expectations if there are any, else a no-match report with exactly all expectations that could be evaluated.",
  ["inputs","histories"],"any number of live expectations with arbitrary match outcomes",
  "Tests use up to four mock expectations with fixed outcomes; and these unit tests do not even build without trompeloeil.",
  ["Expectation.hpp","Reporter.hpp"],[("ExpectationCollection::handle_call / make_match_report","Expectation.hpp")],
  [("m_Expectations","live expectations in order of creation","Expectation.hpp")])
p("C09","Exceptions thrown while matching never decide a call",
  "If evaluating an expectation against a call throws, whatever the exception is, exactly one unhandled-exception report with that call, that expectation and that exception is sent, this expectation is treated as if it were not there for this call, and every other expectation is still considered.",
  ["inputs","fault_sequences"],"any expectation at any position may throw anything",
  "Tests let single expectations throw one exception type.",
  ["Expectation.hpp"],[("make_match_report","Expectation.hpp")])
p("C10","A match is full, inapplicable or none exactly as its parts say",
  "An expectation's verdict on a call is 'none' if any of its policies rejects the call; otherwise 'full' if its control state is applicable, and 'inapplicable' in every other case (saturated or blocked by a sequence). This holds for every number and order of policy results.",
  ["inputs"],"any number of policy outcomes and any control state",
  "Tests enumerate up to two policies.",
  ["Reports.hpp"],[("evaluate_match_report","Reports.hpp")])
p("C11","Expectations live exactly from creation to removal",
  "A created expectation becomes the newest live expectation of its mock, and disturbs no other. When it goes away, exactly it is removed, with all the others and their order kept, and an unfulfilled report with its own description is sent if and only if it is not satisfied at that time, exactly once.",
  ["inputs","histories"],"any number of live expectations, any position of the removed one",
  "Tests use a few expectations only.",
  ["Expectation.hpp"],[("ExpectationCollection::push / remove","Expectation.hpp"),("ScopedExpectation::Model","Expectation.hpp")])
p("C12","An expectation is the conjunction of all its policies",
  "An expectation is satisfied if and only if its times and all of its policies are satisfied. Its match report contains the verdict and description of each of its policies, in order, for exactly this call, and its current control state; consuming a call counts once and forwards the call exactly once to each policy in order; finalizing forwards to its finalizer and returns that result. Its report of itself names its location, the text of its current control state and the description of each policy, in order, and changes nothing.",
  ["inputs","programs"],"arbitrary policies, finalizers and calls, for up to 3 policies",
  "Tests use mocks with fixed outcomes and do not build here.",
  ["Expectation.hpp"],[("BasicExpectation","Expectation.hpp")])
p("C13","Argument, category, constness and side-effect policies do what they say",
  "A value-category or constness requirement accepts a call if and only if the call was made with that category or constness ('any' accepts all). An argument requirement accepts exactly the calls whose selected argument(s), passed by reference and in the requested order, are accepted by its matcher, and never changes them; a side effect is run exactly once per accepted call on exactly the selected arguments, and never restricts matching.",
  ["inputs","programs"],"all calls, arbitrary matchers, projections and actions",
  "Tests use literals and few matchers.",
  ["ExpectationPolicies.hpp"],[("Category, Constness, ArgumentRequirement, SideEffectAction, ApplyAllArgsAction, ApplyArgsAction","ExpectationPolicies.hpp")])
p("C14","Finalizers return or throw exactly what was requested",
  "A call finalized with a stored value returns that very value every time (the stored object itself where a reference is returned), one finalized with an invocation runs it exactly once per call with the requested arguments and returns its result or passes on the exception it throws, and one finalized with an exception throws an equal exception every time and never returns.",
  ["inputs","programs","histories"],"arbitrary value types, exceptions, invocations and calls",
  "Tests use ints and strings with few calls.",
  ["ExpectationPolicies.hpp"],[("finally::returns / throws / returns_result_of / returns_arg ...","ExpectationPolicies.hpp")])
p("C15","Comparison matchers accept exactly the values they describe",
  "The matchers eq, ne, lt, le, gt and ge accept a value x for reference r if and only if x == r, x != r, x < r, x <= r, x > r and x >= r respectively holds by the type's own operator, the wildcard accepts everything, and a custom predicate is called with exactly the given values. A negated matcher accepts exactly what the original rejects, negating twice restores it, and each description names the relation it tests.",
  ["inputs","programs"],"all values of arbitrary types with arbitrary operators",
  "Tests use ints; wrong relations or swapped operands on other types go unnoticed.",
  ["Matcher.hpp"],[("PredicateMatcher, matches::eq..ge, predicate","Matcher.hpp")])
p("C16","Reports describe the call and the expectations faithfully",
  "A call report carries the call's return type, every argument's type and state in order, its source location, value category and constness. Two reports are equal if and only if all their parts are equal, and two call infos if and only if they have equal category, constness and location and refer to the very same argument objects.",
  ["inputs"],"all reports and calls, any parts differing",
  "Tests alter one part at a time for some reports only.",
  ["Reports.hpp","Call.hpp","Utility.hpp"],[("make_call_report, CallReport/ExpectationReport/MatchReport::operator==","Reports.hpp"),("call::Info::operator==","Call.hpp")])
p("C17","Failures always abort the call; successes never do",
  "The default reporter ends a no-match, inapplicable-match or unhandled failure of a call by throwing (or never returning), never lets such a call continue, and does not throw on full matches or ignored exceptions. An unfulfilled expectation or a plain error throws if and only if no exception is currently propagating. The adapters to test frameworks hand a failure on as a failing result of the framework that shows the message and ends by an exception, and full matches and warnings as results that do not fail and return.",
  ["inputs","fault_sequences"],"every report, with any number of exceptions in flight",
  "Tests cover single reports; Reporter tests do not build here.",
  ["Reporter.hpp","adapters/gtest.hpp","adapters/Catch2.hpp","adapters/BoostTest.hpp"],[("DefaultReporter, BasicReporter, report_* functions","Reporter.hpp"),("send_fail, send_success, send_warning","adapters/")])
p("C18","Lifetime watchers report exactly the violations",
  "The end of a watched object that was not moved from (its destruction, or its being copy-assigned over) counts exactly once, towards the destruct expectation made for that very object, which expects exactly one end and can be made only once per object. Moving carries the expectation along and ends nothing; copies and copy-assigned objects start fresh. Each move construction or move assignment of a relocation-watched object counts exactly once, towards the relocate expectation of the object moved from, which the target then takes over unless the move fails. So an unwatched or repeated end, an unexpected relocation, or an object that outlives its expectation is reported, and nothing else is.",
  ["inputs","histories"],"every history of create, watch, copy, move and destroy",
  "Tests run a dozen of short histories.",
  ["ObjectWatcher.hpp"],[("LifetimeWatcher, RelocationWatcher, Watched","ObjectWatcher.hpp")])
p("C19","A mock passes each call on faithfully",
  "Calling a mock hands exactly one call to its expectations, carrying every argument in order by reference, without copying or modifying it, together with the value category and constness of the call expression and the caller's source location, and returns what the matched expectation returns. All overloads with the same decayed signature share the same expectations.",
  ["inputs","programs"],"arbitrary argument values and types, all ref and const qualifications",
  "Tests use fixed arguments and do not build here.",
  ["Mock.hpp","Call.hpp"],[("Mock, BasicMockFrontend::handle_call, make_call_info","Mock.hpp")])
p("C20","Building an expectation keeps everything that was specified",
  "Whatever order they are chained in, the times limits, the sequences, the finalizer, and every policy specified while building an expectation end up unchanged, once each, in the expectation, with attachment order kept; adding one specification never alters or drops another.",
  ["inputs","programs"],"arbitrary policies, limits and chains up to length 4",
  "Tests check single steps.",
  ["ExpectationBuilder.hpp","Sequence.hpp"],[("BasicExpectationBuilder operators and finalize","ExpectationBuilder.hpp")])
p("C21","An expectation cannot join the same sequence twice",
  "Attaching an expectation to a set of sequences throws std::invalid_argument if and only if some sequence appears more than once in the set, in whatever order and however the set was put together; otherwise exactly the given sequences are kept in the given order.",
  ["inputs","programs"],"any identities of up to 4 sequences",
  "Tests check few combinations.",
  ["Sequence.hpp"],[("sequence::detail::Config","Sequence.hpp")])
p("C22","Live expectations are only touched under their lock",
  "Every read or write of a mock's list of live expectations happens while the list's lock is held, the lock is released exactly once on every way out including exceptions, and it is never held while a matched expectation is consumed or finalized or while a report is sent about a decided call.",
  ["schedules","fault_sequences"],"every path through adding, removing and calling, exceptions included",
  "A missing lock shows only under particular interleavings; there are no concurrent tests.",
  ["Expectation.hpp"],[("ExpectationCollection::push / remove / handle_call","Expectation.hpp")])
p("C23","String matchers compare whole texts, with or without case",
  "The string matchers for equality, prefix, suffix and containment accept a text if and only if the stated relation holds between the text and the pattern, by exact characters or, when requested, after the same case folding of both, for every length including empty ones.",
  ["inputs"],"all texts and patterns",
  "Tests use a handful of words.",
  ["Matcher.hpp","String.hpp"],[("matches::str","Matcher.hpp")])
p("C24","Range matchers accept exactly the ranges they describe",
  "The range matchers for equality, unordered equality, sortedness, emptiness and size accept a range if and only if it, respectively, equals the reference element-wise in order, is a permutation of it, is ordered under the comparator, has no elements, or has the given number of elements; the element matchers accept a range if and only if every (respectively some) element is accepted by the given matcher, which is itself left as it was.",
  ["inputs"],"all ranges and references of any length",
  "Tests use ranges of up to a few elements and do not build here.",
  ["Matcher.hpp"],[("matches::range","Matcher.hpp")])
p("C25","Printing picks the right form for every value and drops nothing",
  "Printing a value uses exactly the first applicable of: a custom printer, the built-in form for its kind (string, pointer, tuple-like, optional, source location), the range form, the formatter, a placeholder. Every element of a range or tuple, the value of an optional and every character of a string appears exactly once and in order; the output continues exactly where the former part ended, and the value itself is left as it was.",
  ["inputs","programs"],"all values and types, ranges and strings of any length, any output iterator",
  "Tests print a few small values; neither the length of a range or string nor the kinds of value and output are bounded.",
  ["Printer.hpp"],[("print, detail::Printer","Printer.hpp"),("detail::print overloads","Printer.hpp")])
p("C26","Report texts state every recorded fact, once and under the right heading",
  "A call report's text states the location, constness, category, return type and the type and value of every argument under its index; an expectation report's text states every recorded location, times text, policy description and finalizer and omits exactly the absent ones; a match report's text states its verdict, its location, why it is inapplicable, and every described policy once: the failed ones as failed, all others as passed; a control state's text states how often the expectation matched, how often it may, and its numbers of sequences; and each failure message consists of its parts, every match report once, in order.",
  ["inputs","histories"],"all reports: any number of arguments, policies, sequences and match reports, all counts",
  "Tests print a few reports with at most two arguments and policies, and the reporter tests do not build here.",
  ["Reports.hpp","Reporter.hpp"],[("detail::Printer<CallReport>","Reports.hpp"),("detail::Printer<ExpectationReport>","Reports.hpp"),("detail::Printer<MatchReport>","Reports.hpp"),("detail::print_times_state","Reports.hpp"),("detail::stringify_*","Reporter.hpp")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
