// common parts of the bounded oracle harnesses (run on the real code)
#pragma once
#include "mimic++/mimic++.hpp"
#include <cstdio>
#include <cstdlib>
#include <random>
#include <string>
#include <sstream>
#include <iostream>
inline std::string g_ctx;
[[noreturn]] inline void fail(const std::string& what) { std::printf("FAILING INPUT: %s\n  violated: %s\n", g_ctx.c_str(), what.c_str()); std::fflush(stdout); std::_Exit(1); }
#define CHECK(...) do { if (!(__VA_ARGS__)) fail(std::string(#__VA_ARGS__) + " (line " + std::to_string(__LINE__) + ")"); } while (0)
struct Fail { int kind; };
struct Ev
{
	std::string kind;
	std::optional<mimicpp::CallReport> call{};
	std::vector<mimicpp::MatchReport> matches{};
	std::optional<mimicpp::ExpectationReport> exp{};
	std::string text{};
	std::exception_ptr exc{};
};
inline std::vector<Ev> g_ev;
struct Rep : mimicpp::IReporter
{
	using CR = mimicpp::CallReport; using MR = mimicpp::MatchReport; using ER = mimicpp::ExpectationReport;
	[[noreturn]] void report_no_matches(CR c, std::vector<MR> m) override { g_ev.push_back({.kind = "no", .call = c, .matches = m}); throw Fail{1}; }
	[[noreturn]] void report_inapplicable_matches(CR c, std::vector<MR> m) override { g_ev.push_back({.kind = "inapp", .call = c, .matches = m}); throw Fail{2}; }
	void report_full_match(CR c, MR m) noexcept override { g_ev.push_back({.kind = "full", .call = c, .matches = {m}}); }
	void report_unfulfilled_expectation(ER e) override { g_ev.push_back({.kind = "unfulfilled", .exp = e}); }
	void report_error(mimicpp::StringT t) override { g_ev.push_back({.kind = "error", .text = t}); }
	void report_unhandled_exception(CR c, ER e, std::exception_ptr x) override { g_ev.push_back({.kind = "exc", .call = c, .exp = e, .exc = x}); }
};
inline void install() { mimicpp::install_reporter<Rep>(); std::set_terminate([] { fail("std::terminate was called"); }); }
extern "C" inline void h_abort(int) { std::printf("FAILING INPUT: %s\n  violated: abort / failed assertion\n", g_ctx.c_str()); std::fflush(stdout); std::_Exit(1); }
#include <csignal>
inline bool g_inst = (std::signal(SIGABRT, h_abort), true);
