"""Edits that keep the behaviour, to see that the checks stay quiet: refactors.py [names]; runs in a scratch copy."""
import sys, os, re, subprocess, json
R = []
def r(name, props, *edits): R.append((name, props.split(), edits))
SEQ = "C01 C02 C03 C04 C05 C06"
r("seq-dtor-loop", SEQ, ("Sequence.hpp", '''				const auto iter = std::ranges::find_if_not(
					m_Entries.cbegin() + m_Cursor,
					m_Entries.cend(),
					[](const State s) noexcept
					{
						return s == State::satisfied
								|| s == State::saturated;
					});
''', '''				auto iter = m_Entries.cbegin() + m_Cursor;
				while (iter != m_Entries.cend() && State::unsatisfied != *iter)
				{
					++iter;
				}
'''))
r("seq-consumable-loop", SEQ, ("Sequence.hpp", '''				const auto state = m_Entries[index];
				return m_Cursor <= index
						&& std::ranges::all_of(
							m_Entries.begin() + m_Cursor,
							m_Entries.begin() + index,
							[](const State s) noexcept
							{
								return s == State::satisfied
										|| s == State::saturated;
							})
						&& (state == State::unsatisfied
							|| state == State::satisfied);
''', '''				if (index < m_Cursor)
				{
					return false;
				}

				for (int i{m_Cursor}; i < index; ++i)
				{
					if (m_Entries[i] == State::unsatisfied)
					{
						return false;
					}
				}

				return m_Entries[index] != State::saturated;
'''))
r("seq-helper", SEQ, ("Sequence.hpp", '''				const auto state = m_Entries[index];
				return m_Cursor <= index
						&& std::ranges::all_of(
							m_Entries.begin() + m_Cursor,
							m_Entries.begin() + index,
							[](const State s) noexcept
							{
								return s == State::satisfied
										|| s == State::saturated;
							})
						&& (state == State::unsatisfied
							|| state == State::satisfied);
''', '''				return m_Cursor <= index
						&& m_Entries[index] != State::saturated
						&& std::ranges::none_of(
							m_Entries.begin() + m_Cursor,
							m_Entries.begin() + index,
							&BasicSequence::is_open);
'''), ("Sequence.hpp", '''			std::vector<State> m_Entries{};
			int m_Cursor{};
''', '''			std::vector<State> m_Entries{};
			int m_Cursor{};

			[[nodiscard]]
			static constexpr bool is_open(const State s) noexcept
			{
				return s == State::unsatisfied;
			}
'''))
r("seq-priority-ternary", SEQ, ("Sequence.hpp", '''				if (is_consumable(id))
				{
					return std::invoke(
						priorityStrategy,
						id,
						m_Cursor);
				}

				return std::nullopt;
''', '''				if (!is_consumable(id))
				{
					return {};
				}

				const int priority = priorityStrategy(id, m_Cursor);
				return std::optional<int>{priority};
'''))
r("seq-lazy-arith", SEQ, ("Sequence.hpp", '''				return std::numeric_limits<int>::max()
						- (static_cast<int>(index) - cursor);
''', '''				const int distance = static_cast<int>(index) - cursor;
				return std::numeric_limits<int>::max() - distance;
'''))
r("seq-add-index", SEQ, ("Sequence.hpp", '''				m_Entries.emplace_back(State::unsatisfied);
				return static_cast<IdT>(m_Entries.size() - 1);
''', '''				const auto index = m_Entries.size();
				m_Entries.push_back(State::unsatisfied);
				return static_cast<IdT>(index);
'''))
r("seq-tag-adjacent", SEQ, ("Sequence.hpp", '''					std::ranges::sort(tags);
					if (!std::ranges::empty(std::ranges::unique(tags)))
''', '''					std::ranges::sort(tags);
					if (std::ranges::adjacent_find(tags) != tags.end())
'''))
r("seq-tag-pairs", SEQ, ("Sequence.hpp", '''					std::ranges::sort(tags);
					if (!std::ranges::empty(std::ranges::unique(tags)))
					{
						throw std::invalid_argument{
							"Expectations can not be assigned to the same sequence multiple times."
						};
					}
''', '''					for (std::size_t i = 0; i < tags.size(); ++i)
					{
						for (std::size_t j = i + 1; j < tags.size(); ++j)
						{
							if (tags[i] == tags[j])
							{
								throw std::invalid_argument{
									"Expectations can not be assigned to the same sequence multiple times."
								};
							}
						}
					}
'''))
r("ctl-consume-order", SEQ, ("ControlPolicy.hpp", '''			std::apply(
				[](auto&... entries) noexcept
				{
					(..., std::get<0>(entries)->consume(std::get<1>(entries)));
				},
				m_Sequences);

			++m_Count;

			update_sequence_states();
''', '''			m_Count += 1;
			std::apply(
				[](auto&... entries) noexcept
				{
					(..., std::get<0>(entries)->consume(std::get<1>(entries)));
				},
				m_Sequences);

			update_sequence_states();
'''))
r("ctl-helper", SEQ, ("ControlPolicy.hpp", '''			if (m_Count == m_Min)
			{
				std::apply(
					[](auto&... entries) noexcept
					{
						(..., std::get<0>(entries)->set_satisfied(std::get<1>(entries)));
					},
					m_Sequences);
			}
			else if (m_Count == m_Max)
			{
				std::apply(
					[](auto&... entries) noexcept
					{
						(..., std::get<0>(entries)->set_saturated(std::get<1>(entries)));
					},
					m_Sequences);
			}
''', '''			const auto each = [this](const auto& action) noexcept
			{
				std::apply(
					[&](auto&... entries) noexcept { (..., action(*std::get<0>(entries), std::get<1>(entries))); },
					m_Sequences);
			};

			if (m_Count == m_Min)
			{
				each([](auto& seq, const auto id) noexcept { seq.set_satisfied(id); });
				return;
			}

			if (m_Count == m_Max)
			{
				each([](auto& seq, const auto id) noexcept { seq.set_saturated(id); });
			}
'''))
r("ctl-applicable", SEQ, ("ControlPolicy.hpp", '''			return m_Count < m_Max
					&& std::apply(''', '''			if (is_saturated())
			{
				return false;
			}

			return m_Count <= m_Max
					&& std::apply('''))
r("ctl-times", SEQ, ("ControlPolicy.hpp", '''			if (min < 0
				|| max < 0
				|| max < min)
''', '''			const bool valid = 0 <= min && min <= max;
			if (!valid)
'''))
r("ctl-state", SEQ, ("ControlPolicy.hpp", '''								if (const std::optional priority = seq->priority_of(id))
								{
''', '''								const std::optional<int> priority{seq->priority_of(id)};
								if (priority.has_value())
								{
'''), ("ControlPolicy.hpp", '''			if (!std::ranges::empty(inapplicable))
			{''', '''			if (inapplicable.size() != 0u)
			{'''))
EXP = "C07 C08 C09 C10 C11 C12 C22"
r("exp-loop-rbegin", EXP, ("Expectation.hpp", '''			for (const std::scoped_lock lock{m_ExpectationsMx};
				auto& exp : m_Expectations | std::views::reverse)
			{
				if (std::optional matchReport = detail::make_match_report(call, *exp))
''', '''			for (const std::scoped_lock lock{m_ExpectationsMx};
				auto& exp : std::ranges::subrange{m_Expectations.rbegin(), m_Expectations.rend()})
			{
				if (std::optional matchReport = detail::make_match_report(call, *exp))
'''))
r("exp-loop-index", EXP, ("Expectation.hpp", '''			for (const std::scoped_lock lock{m_ExpectationsMx};
				auto& exp : m_Expectations | std::views::reverse)
			{
				if (std::optional matchReport = detail::make_match_report(call, *exp))
				{
''', '''			std::unique_lock lock{m_ExpectationsMx};
			for (auto index = m_Expectations.size(); index != 0u; --index)
			{
				auto& exp = m_Expectations[index - 1u];
				if (std::optional matchReport = detail::make_match_report(call, *exp))
				{
'''), ("Expectation.hpp", '''			if (!std::ranges::empty(matches))
			{
				auto&''', '''			lock.unlock();

			if (!std::ranges::empty(matches))
			{
				auto&'''))
r("exp-if-else", EXP, ("Expectation.hpp", '''					switch (evaluate_match_report(*matchReport))
					{
						using enum MatchResult;
					case none:
						noMatches.emplace_back(*std::move(matchReport));
						break;
					case inapplicable:
						inapplicableMatches.emplace_back(*std::move(matchReport));
						break;
					case full:
						matches.emplace_back(*exp, *std::move(matchReport));
						break;
					// GCOVR_EXCL_START
					default:
						unreachable();
					// GCOVR_EXCL_STOP
					}
''', '''					const MatchResult verdict = evaluate_match_report(*matchReport);
					if (verdict == MatchResult::full)
					{
						matches.emplace_back(*exp, *std::move(matchReport));
					}
					else
					{
						auto& target = verdict == MatchResult::none ? noMatches : inapplicableMatches;
						target.push_back(*std::move(matchReport));
					}
'''))
r("exp-remove", EXP, ("Expectation.hpp", '''			auto iter = std::ranges::find(m_Expectations, expectation);
			assert(iter != std::ranges::end(m_Expectations) && "Expectation does not belong to this storage.");
			m_Expectations.erase(iter);

			if (!expectation->is_satisfied())
			{
				detail::report_unfulfilled_expectation(
					expectation->report());
			}
''', '''			const auto iter = std::find(m_Expectations.begin(), m_Expectations.end(), expectation);
			assert(iter != m_Expectations.end() && "Expectation does not belong to this storage.");
			m_Expectations.erase(iter);

			const bool fulfilled = expectation->is_satisfied();
			if (fulfilled)
			{
				return;
			}

			ExpectationReport report = expectation->report();
			detail::report_unfulfilled_expectation(std::move(report));
'''))
r("exp-push", EXP, ("Expectation.hpp", '''			m_Expectations.emplace_back(std::move(expectation));
''', '''			m_Expectations.push_back(std::move(expectation));
'''))
r("exp-best-index", EXP, ("Expectation.hpp", '''		auto best = std::ranges::begin(matches);
		for (auto iter = best + 1;
			iter != std::ranges::end(matches);
			++iter)
		{
			if (!sequence::detail::has_better_rating(
				ratings(*best),
				ratings(*iter)))
			{
				best = iter;
			}
		}

		return best;
''', '''		std::size_t best{0u};
		for (std::size_t i{1u}; i < matches.size(); ++i)
		{
			if (sequence::detail::has_better_rating(ratings(matches[best]), ratings(matches[i])))
			{
				continue;
			}

			best = i;
		}

		return matches.begin() + static_cast<std::ptrdiff_t>(best);
'''))
r("exp-makereport", EXP, ("Expectation.hpp", '''		try
		{
			return expectation.matches(call);
		}
		catch (...)
		{
			report_unhandled_exception(
				make_call_report(call),
				expectation.report(),
				std::current_exception());
		}

		return std::nullopt;
''', '''		std::optional<MatchReport> result{};
		try
		{
			result.emplace(expectation.matches(call));
		}
		catch (...)
		{
			std::exception_ptr error = std::current_exception();
			report_unhandled_exception(
				make_call_report(call),
				expectation.report(),
				std::move(error));
		}

		return result;
'''))
r("exp-satisfied", EXP, ("Expectation.hpp", '''			return m_ControlPolicy.is_satisfied()
					&& std::apply(
						[](const auto&... policies) noexcept
						{
							return (... && policies.is_satisfied());
						},
						m_Policies);
''', '''			const bool policiesSatisfied = std::apply(
				[](const auto&... policies) noexcept
				{
					bool all{true};
					((all = all && policies.is_satisfied()), ...);
					return all;
				},
				m_Policies);

			return policiesSatisfied && m_ControlPolicy.is_satisfied();
'''))
r("exp-consume", EXP, ("Expectation.hpp", '''			m_ControlPolicy.consume();
			std::apply(
				[&](auto&... policies) noexcept
				{
					(..., policies.consume(call));
				},
				m_Policies);
''', '''			m_ControlPolicy.consume();
			[&]<std::size_t... indices>(const std::index_sequence<indices...>) noexcept
			{
				(std::get<indices>(m_Policies).consume(call), ...);
			}(std::index_sequence_for<Policies...>{});
'''))
r("exp-matches", EXP, ("Expectation.hpp", '''			return MatchReport{
				.sourceLocation = m_SourceLocation,
				.finalizeReport = {std::nullopt},
				.controlReport = m_ControlPolicy.state(),
				.expectationReports = std::apply(
					[&](const auto&... policies)
					{
						return std::vector<MatchReport::Expectation>{
							MatchReport::Expectation{
								.isMatching = policies.matches(call),
								.description = policies.describe()
							}...
						};
					},
					m_Policies)
			};
''', '''			std::vector<MatchReport::Expectation> reports = std::apply(
				[&](const auto&... policies)
				{
					return std::vector<MatchReport::Expectation>{
						MatchReport::Expectation{
							.isMatching = policies.matches(call),
							.description = policies.describe()
						}...
					};
				},
				m_Policies);

			return MatchReport{
				.sourceLocation = m_SourceLocation,
				.finalizeReport = {std::nullopt},
				.controlReport = m_ControlPolicy.state(),
				.expectationReports = std::move(reports)
			};
'''))
r("exp-matches-push", EXP, ("Expectation.hpp", '''						return std::vector<MatchReport::Expectation>{
							MatchReport::Expectation{
								.isMatching = policies.matches(call),
								.description = policies.describe()
							}...
						};
''', '''						std::vector<MatchReport::Expectation> reports{};
						reports.reserve(sizeof...(policies));
						(..., reports.push_back(MatchReport::Expectation{policies.matches(call), policies.describe()}));
						return reports;
'''))
r("exp-scoped-dtor", EXP + " C20", ("Expectation.hpp", '''			delete m_Inner.release();
''', '''			const Concept* const inner = m_Inner.release();
			delete inner;
'''))
r("exp-model", EXP, ("Expectation.hpp", '''				m_Storage->remove(m_Expectation);
''', '''				StorageT& storage = *m_Storage;
				storage.remove(std::move(m_Expectation));
'''))
r("exp-best-first", EXP, ("Expectation.hpp", '''				auto&& [exp, report] = *detail::pick_best_match(matches);
				detail::report_full_match(
					make_call_report(call),
					std::move(report));
				exp.consume(call);
				return exp.finalize_call(call);
''', '''				auto best = matches.size() == 1u ? matches.begin() : detail::pick_best_match(matches);
				ExpectationT& matched = std::get<0>(*best);
				detail::report_full_match(
					make_call_report(call),
					std::get<1>(*std::move(best)));
				matched.consume(call);
				return matched.finalize_call(call);
'''))
r("exp-order-reports", EXP, ("Expectation.hpp", '''			if (!std::ranges::empty(inapplicableMatches))
			{
				detail::report_inapplicable_matches(
					make_call_report(call),
					std::move(inapplicableMatches));
			}

			detail::report_no_matches(
				make_call_report(call),
				std::move(noMatches));
''', '''			CallReport callReport = make_call_report(call);
			if (inapplicableMatches.empty())
			{
				detail::report_no_matches(std::move(callReport), std::move(noMatches));
			}

			detail::report_inapplicable_matches(std::move(callReport), std::move(inapplicableMatches));
'''))
r("exp-evaluate", EXP, ("Reports.hpp", '''		if (!std::ranges::all_of(report.expectationReports, &MatchReport::Expectation::isMatching))
		{
			return MatchResult::none;
		}
''', '''		for (const auto& [isMatching, description] : report.expectationReports)
		{
			if (!isMatching)
			{
				return MatchResult::none;
			}
		}
'''))
POL = "C13 C14"
r("pol-requirement", POL, ("ExpectationPolicies.hpp", '''			decltype(auto) projected = std::invoke(m_Projection, info);
			return detail::matches_hook::matches(
				m_Matcher,
				projected);
''', '''			auto&& projected = std::invoke(m_Projection, info);
			const bool accepted = detail::matches_hook::matches(m_Matcher, projected);
			return accepted;
'''))
r("pol-applyall-seq", POL, ("ExpectationPolicies.hpp", '''			return std::apply(
				[this](auto&... args) -> decltype(auto)
				{
					return std::invoke(
						m_Action,
						static_cast<ProjectedArgT<Args>>(
							args.get())...);
				},
				callInfo.args);
''', '''			return invoke_action(callInfo.args, std::index_sequence_for<Args...>{});
'''), ("ExpectationPolicies.hpp", '''	private:
		Action m_Action;
	};

	template <typename Action, template <typename> typename Projection, std::size_t... indices>
		requires std::same_as<Action, std::remove_cvref_t<Action>>
	class ApplyArgsAction''', '''	private:
		Action m_Action;

		template <typename... Args, std::size_t... indices>
		constexpr decltype(auto) invoke_action(const std::tuple<Args...>& args, const std::index_sequence<indices...>) const
		{
			return std::invoke(m_Action, static_cast<ProjectedArgT<typename Args::type>>(std::get<indices>(args).get())...);
		}
	};

	template <typename Action, template <typename> typename Projection, std::size_t... indices>
		requires std::same_as<Action, std::remove_cvref_t<Action>>
	class ApplyArgsAction'''))
r("pol-applyargs-call", POL, ("ExpectationPolicies.hpp", '''			return std::invoke(
				m_Action,
				static_cast<ProjectedArgListElementT<indices, Args...>>(
					std::get<indices>(callInfo.args).get())...);
''', '''			const auto& args = callInfo.args;
			return std::invoke(
				std::as_const(m_Action),
				static_cast<ProjectedArgListElementT<indices, Args...>>(
					std::get<indices>(args).get())...);
'''))
r("pol-sideeffect", POL, ("ExpectationPolicies.hpp", '''			std::invoke(m_Action, info);
		}
''', '''			auto& action = m_Action;
			static_cast<void>(action(info));
		}
'''))
r("pol-returns-direct", POL, ("ExpectationPolicies.hpp", '''			return static_cast<Return>(
				std::invoke(m_Action, call));
''', '''			if constexpr (std::is_reference_v<Return>)
			{
				auto&& result = std::invoke(m_Action, call);
				return static_cast<Return>(std::forward<decltype(result)>(result));
			}
			else
			{
				return static_cast<Return>(std::invoke(m_Action, call));
			}
'''))
r("pol-returns-ref", POL, ("ExpectationPolicies.hpp", '''			[v = std::forward<T>(value)]([[maybe_unused]] const auto& call) mutable noexcept -> auto& {
				return static_cast<std::unwrap_reference_t<decltype(v)>&>(v);
			}
''', '''			[v = std::forward<T>(value)]([[maybe_unused]] const auto& call) mutable noexcept -> auto& {
				std::unwrap_reference_t<decltype(v)>& result = v;
				return result;
			}
'''))
r("pol-throws", POL, ("ExpectationPolicies.hpp", '''			throw m_Exception;  // NOLINT(hicpp-exception-baseclass)
''', '''			const Exception& exception = m_Exception;
			throw Exception{exception};  // NOLINT(hicpp-exception-baseclass)
'''))
r("pol-category", POL, ("ExpectationPolicies.hpp", '''			return mimicpp::is_matching(info.fromCategory, expected);
		}
''', '''			const ValueCategory actual = info.fromCategory;
			return mimicpp::is_matching(actual, expected);
		}
'''))
r("pol-invoke-plain", POL, ("ExpectationPolicies.hpp", '''			]([[maybe_unused]] const auto& call) mutable noexcept(std::is_nothrow_invocable_v<Action&>)
			{
				std::invoke(fn);
''', '''			]([[maybe_unused]] const auto& call) mutable noexcept(std::is_nothrow_invocable_v<Action&>)
			{
				auto& action = fn;
				(void)std::invoke(action);
'''))
MAT = "C15 C23 C24"
r("mat-matches", MAT, ("Matcher.hpp", '''			return std::apply(
				[&, this](auto&... additionalArgs)
				{
					return std::invoke(
						m_Predicate,
						target,
						additionalArgs.as_matches_arg()...);
				},
				m_AdditionalArgs);
''', '''			const auto test = [&](auto&... additionalArgs) -> bool
			{
				return std::invoke(m_Predicate, target, additionalArgs.as_matches_arg()...);
			};

			return std::apply(test, m_AdditionalArgs);
'''))
r("mat-describe", MAT, ("Matcher.hpp", '''					return format::vformat(
						m_FormatString,
						format::make_format_args(
							std::invoke(
								// std::make_format_args requires lvalue-refs, so let's transform rvalue-refs to const lvalue-refs
								[](auto&& val) noexcept -> const auto& { return val; },
								additionalArgs.as_describe_arg())
							...));
''', '''					// std::make_format_args requires lvalue-refs, so let's transform rvalue-refs to const lvalue-refs
					constexpr auto asConst = [](auto&& val) noexcept -> const auto& { return val; };
					const StringViewT fmt = m_FormatString;
					return format::vformat(
						fmt,
						format::make_format_args(asConst(additionalArgs.as_describe_arg())...));
'''))
r("mat-invert", MAT, ("Matcher.hpp", '''			using NotFnT = decltype(std::not_fn(std::forward<Fn>(fn)));
			return PredicateMatcher<NotFnT, detail::to_arg_storage_t<AdditionalArgs>...>{
				std::not_fn(std::forward<Fn>(fn)),
				std::move(fmt),
''', '''			auto negated = std::not_fn(std::forward<Fn>(fn));
			return PredicateMatcher<decltype(negated), detail::to_arg_storage_t<AdditionalArgs>...>{
				std::move(negated),
				std::move(fmt),
'''))
r("mat-relambda", MAT, ("Matcher.hpp", '''		return PredicateMatcher{
			std::less{},
			"< {}",''', '''		return PredicateMatcher{
			[](const auto& lhs, const auto& rhs) -> bool { return lhs < rhs; },
			"< {}",'''))
r("str-eq-op", "C23", ("Matcher.hpp", '''				return std::ranges::equal(
					detail::make_view(std::forward<T>(target)),
					detail::make_view(std::forward<Stored>(stored)));
''', '''				return detail::make_view(std::forward<T>(target)) == detail::make_view(std::forward<Stored>(stored));
'''))
r("str-starts-member", "C23", ("Matcher.hpp", '''				auto patternView = detail::make_view(std::forward<Stored>(stored));
				const auto [ignore, patternIter] = std::ranges::mismatch(
					detail::make_view(std::forward<T>(target)),
					patternView);

				return patternIter == std::ranges::end(patternView);
''', '''				const auto patternView = detail::make_view(std::forward<Stored>(stored));
				const auto targetView = detail::make_view(std::forward<T>(target));
				return targetView.starts_with(patternView);
'''))
r("str-starts-loop", "C23", ("Matcher.hpp", '''				auto patternView = detail::make_view(std::forward<Stored>(stored));
				const auto [ignore, patternIter] = std::ranges::mismatch(
					detail::make_view(std::forward<T>(target)),
					patternView);

				return patternIter == std::ranges::end(patternView);
''', '''				const auto patternView = detail::make_view(std::forward<Stored>(stored));
				const auto targetView = detail::make_view(std::forward<T>(target));
				if (targetView.size() < patternView.size())
				{
					return false;
				}

				for (std::size_t i = 0; i < patternView.size(); ++i)
				{
					if (targetView[i] != patternView[i])
					{
						return false;
					}
				}

				return true;
'''))
r("str-ends-member", "C23", ("Matcher.hpp", '''				auto patternView = detail::make_view(std::forward<Stored>(stored))
									| std::views::reverse;
				const auto [ignore, patternIter] = std::ranges::mismatch(
					detail::make_view(std::forward<T>(target)) | std::views::reverse,
					patternView);

				return patternIter == std::ranges::end(patternView);
''', '''				const auto patternView = detail::make_view(std::forward<Stored>(stored));
				const auto targetView = detail::make_view(std::forward<T>(target));
				return patternView.size() <= targetView.size()
						&& std::ranges::equal(targetView.substr(targetView.size() - patternView.size()), patternView);
'''))
r("str-contains-find", "C23", ("Matcher.hpp", '''				auto patternView = detail::make_view(std::forward<Stored>(stored));
				return std::ranges::empty(patternView)
						|| !std::ranges::empty(
							std::ranges::search(
								detail::make_view(std::forward<T>(target)),
								std::move(patternView)));
''', '''				const auto patternView = detail::make_view(std::forward<Stored>(stored));
				const auto targetView = detail::make_view(std::forward<T>(target));
				if (patternView.empty())
				{
					return true;
				}

				const auto match = std::ranges::search(targetView, patternView);
				return match.begin() != match.end();
'''))
r("str-contains-std", "C23", ("Matcher.hpp", '''				auto patternView = detail::make_view(std::forward<Stored>(stored));
				return std::ranges::empty(patternView)
						|| !std::ranges::empty(
							std::ranges::search(
								detail::make_view(std::forward<T>(target)),
								std::move(patternView)));
''', '''				const auto patternView = detail::make_view(std::forward<Stored>(stored));
				const auto targetView = detail::make_view(std::forward<T>(target));
				return targetView.find(patternView) != targetView.npos;
'''))
r("str-ieq-size", "C23", ("Matcher.hpp", '''				return std::ranges::equal(
					detail::make_case_folded_string(std::forward<T>(target)),
					detail::make_case_folded_string(std::forward<Stored>(stored)));
''', '''				auto foldedTarget = detail::make_case_folded_string(std::forward<T>(target));
				auto foldedPattern = detail::make_case_folded_string(std::forward<Stored>(stored));
				return std::ranges::size(foldedTarget) == std::ranges::size(foldedPattern)
						&& std::ranges::equal(foldedTarget, foldedPattern);
'''))
r("rng-eq-size", "C24", ("Matcher.hpp", '''				return std::ranges::equal(
					target,
					range,
					std::ref(comp));
''', '''				auto [targetIter, rangeIter] = std::ranges::mismatch(target, range, std::ref(comp));
				return targetIter == std::ranges::end(target)
						&& rangeIter == std::ranges::end(range);
'''))
r("rng-each-loop", "C24", ("Matcher.hpp", '''				return std::ranges::all_of(
					target,
					[&](const auto& element) { return m.matches(element); });
''', '''				for (const auto& element : target)
				{
					if (!m.matches(element))
					{
						return false;
					}
				}

				return true;
'''))
r("rng-any-none", "C24", ("Matcher.hpp", '''				return std::ranges::any_of(
					target,
					[&](const auto& element) { return m.matches(element); });
''', '''				return !std::ranges::none_of(
					target,
					[&](const auto& element) { return m.matches(element); });
'''))
r("rng-sorted-adj", "C24", ("Matcher.hpp", '''				return std::ranges::is_sorted(
					target,
					std::ref(rel));
''', '''				return std::ranges::is_sorted_until(target, std::ref(rel)) == std::ranges::end(target);
'''))
r("rng-size", "C24", ("Matcher.hpp", '''				return std::cmp_equal(
					size,
					std::ranges::size(target));
''', '''				const auto actual = std::ranges::size(target);
				return std::cmp_equal(actual, size);
'''))
r("rng-empty", "C24", ("Matcher.hpp", '''				return std::ranges::empty(target);
''', '''				return std::ranges::begin(target) == std::ranges::end(target);
'''))
r("bld-seq-ctad", "C20 C21", ("ExpectationBuilder.hpp", '''			sequence::detail::Config newConfig = m_SequenceConfig.concat(std::move(config));
''', '''			auto newConfig{m_SequenceConfig.concat(std::move(config))};
'''))
r("bld-append", "C20", ("ExpectationBuilder.hpp", '''				std::apply(
					[&](auto&... policies) noexcept
					{
						return std::forward_as_tuple(
							std::move(policies)...,
							std::forward<Policy>(policy));
					},
					m_ExpectationPolicies)
			};
''', '''				std::tuple_cat(
					std::move(m_ExpectationPolicies),
					std::tuple<std::remove_cvref_t<Policy>>{std::forward<Policy>(policy)})
			};
'''))
r("bld-append-fwd", "C20", ("ExpectationBuilder.hpp", '''				std::apply(
					[&](auto&... policies) noexcept
					{
						return std::forward_as_tuple(
							std::move(policies)...,
							std::forward<Policy>(policy));
					},
					m_ExpectationPolicies)
			};
''', '''				std::apply(
					[&](Policies&... policies) noexcept
					{
						return std::tuple<Policies&&..., Policy&&>{
							std::move(policies)...,
							std::forward<Policy>(policy)};
					},
					m_ExpectationPolicies)
			};
'''))
r("bld-final", "C20", ("ExpectationBuilder.hpp", '''						return std::make_unique<ExpectationT>(
							sourceLocation,
							std::move(controlPolicy),
							std::move(m_FinalizePolicy),
							std::move(policies)...);
''', '''						return std::make_shared<ExpectationT>(
							sourceLocation,
							std::move(controlPolicy),
							std::move(m_FinalizePolicy),
							std::move(policies)...);
'''))
r("bld-final2", "C20", ("ExpectationBuilder.hpp", '''						return std::make_unique<ExpectationT>(
							sourceLocation,
							std::move(controlPolicy),
							std::move(m_FinalizePolicy),
							std::move(policies)...);
''', '''						auto expectation = std::make_unique<ExpectationT>(
							sourceLocation,
							std::move(controlPolicy),
							std::move(m_FinalizePolicy),
							std::move(policies)...);
						return expectation;
'''))
r("bld-argpolicy", "C20 C19", ("ExpectationBuilder.hpp", '''		return expect::arg<index>(
			detail::make_arg_matcher<Param, Arg>(
				std::forward<Arg>(arg),
				max_make_arg_matcher_tag));
''', '''		auto matcher = detail::make_arg_matcher<Param, Arg>(
			std::forward<Arg>(arg),
			max_make_arg_matcher_tag);
		return expect::arg<index>(std::move(matcher));
'''))
WAT = "C18"
r("wat-dtor", WAT, ("ObjectWatcher.hpp", '''			if (const auto destruction = std::exchange(
				m_DestructionMock,
				nullptr))
			{
				(*destruction)();
			}
''', '''			const std::unique_ptr<Mock<void()>> destruction = std::move(m_DestructionMock);
			if (!destruction)
			{
				return;
			}

			std::invoke(*destruction);
'''))
r("wat-expect", WAT, ("ObjectWatcher.hpp", '''			if (std::exchange(m_HasDestructExpectation, true))
			{
				throw std::logic_error{
					"LifetimeWatcher: A destruct expectation can not be created more than once for a single instance."
				};
			}
''', '''			if (m_HasDestructExpectation)
			{
				throw std::logic_error{
					"LifetimeWatcher: A destruct expectation can not be created more than once for a single instance."
				};
			}

			m_HasDestructExpectation = true;
'''))
r("wat-reloc", WAT, ("ObjectWatcher.hpp", '''			other.m_RelocationMock();
			m_RelocationMock = std::move(other).m_RelocationMock;
''', '''			auto& mock = other.m_RelocationMock;
			mock();
			m_RelocationMock = std::move(mock);
'''))
r("wat-copy", WAT, ("ObjectWatcher.hpp", '''			m_RelocationMock = Mock<void()>{};
''', '''			Mock<void()> fresh{};
			m_RelocationMock = std::move(fresh);
'''))
r("wat-init", WAT, ("ObjectWatcher.hpp", '''		bool m_HasDestructExpectation{};
		std::unique_ptr''', '''		bool m_HasDestructExpectation = false;
		std::unique_ptr'''))
r("wat-member-order", WAT, ("ObjectWatcher.hpp", '''		bool m_HasDestructExpectation{};
		std::unique_ptr<Mock<void()>> m_DestructionMock{
			std::make_unique<Mock<void()>>()
		};
''', '''		std::unique_ptr<Mock<void()>> m_DestructionMock{
			std::make_unique<Mock<void()>>()
		};
		bool m_HasDestructExpectation{};
'''))
r("wat-rename", WAT, ("ObjectWatcher.hpp", '''			if (std::exchange(m_HasDestructExpectation, true))''', '''			if (std::exchange(m_HasExpectation, true))'''), ("ObjectWatcher.hpp", '''		bool m_HasDestructExpectation{};''', '''		bool m_HasExpectation{};'''))
RPT = "C17 C26"
r("rpt-send", RPT, ("Reporter.hpp", '''			send_fail(
				detail::stringify_no_match_report(call, matchReports));
''', '''			const StringT message = detail::stringify_no_match_report(call, matchReports);
			send_fail(message);
'''))
r("rpt-uncaught", RPT, ("Reporter.hpp", '''			if (0 == std::uncaught_exceptions())
			{
				send_fail(message);
			}
''', '''			const bool inFlight = std::uncaught_exceptions() > 0;
			if (inFlight)
			{
				return;
			}

			send_fail(message);
'''))
r("rpt-get", RPT, ("Reporter.hpp", '''		get_reporter()
			->report_error(std::move(message));
''', '''		IReporter& reporter = *get_reporter();
		reporter.report_error(std::move(message));
'''))
r("rpt-install", RPT, ("Reporter.hpp", '''		detail::get_reporter() = std::make_unique<T>(
			std::forward<Args>(args)...);
''', '''		auto reporter = std::make_unique<T>(std::forward<Args>(args)...);
		detail::get_reporter() = std::move(reporter);
'''))
r("rpt-text-empty", RPT, ("Reporter.hpp", '''			if (std::ranges::empty(matchReports))
			{
				ss << "No expectations available.\\n";
			}
			else
			{
''', '''			const bool anyExpectation = matchReports.size() != 0u;
			if (!anyExpectation)
			{
				ss << "No expectations available.\\n";
			}
			else
			{
'''))
r("rpt-text-index", RPT, ("Reporter.hpp", '''				for (const auto& report : matchReports)
				{
					mimicpp::print(
						std::ostreambuf_iterator{ss},
						report);
					ss << "\\n";
				}
''', '''				for (std::size_t i = 0; i < matchReports.size(); ++i)
				{
					mimicpp::print(
						std::ostreambuf_iterator{ss},
						matchReports[i]);
					ss << "\\n";
				}
'''))
r("rpt-text-foreach", RPT, ("Reporter.hpp", '''				for (const auto& report : matchReports)
				{
					mimicpp::print(
						std::ostreambuf_iterator{ss},
						report);
					ss << "\\n";
				}
''', '''				std::ranges::for_each(
					matchReports,
					[&](const MatchReport& report)
					{
						mimicpp::print(std::ostreambuf_iterator{ss}, report);
						ss << "\\n";
					});
'''))
r("rpt-text-split", RPT, ("Reporter.hpp", '''			ss << "Unfulfilled expectation:\\n";
''', '''			ss << "Unfulfilled" << " expectation:" << "\\n";
'''))
r("rpt-text-what", RPT, ("Reporter.hpp", '''				ss << "what: "
					<< e.what()
					<< "\\n";
''', '''				const char* const what = e.what();
				ss << "what: " << what << "\\n";
'''))
MCK = "C19"
r("mck-info", MCK, ("Mock.hpp", '''			return m_Expectations->handle_call(
				CallInfoT{
					.args = std::move(params),
					.fromCategory = category,
					.fromConstness = constness,
					.fromSourceLocation = from
				});
''', '''			const CallInfoT info{
				.args = std::move(params),
				.fromCategory = category,
				.fromConstness = constness,
				.fromSourceLocation = from
			};
			ExpectationCollectionT& expectations = *m_Expectations;
			return expectations.handle_call(info);
'''))
r("mck-builder", MCK, ("Mock.hpp", '''			return detail::make_expectation_builder(
						m_Expectations,
						std::forward<Args>(args)...)
					&& expectation_policies::Category<category>{}
					&& expectation_policies::Constness<constness>{};
''', '''			auto builder = detail::make_expectation_builder(
				m_Expectations,
				std::forward<Args>(args)...);
			return std::move(builder)
					&& expectation_policies::Category<category>{}
					&& expectation_policies::Constness<constness>{};
'''))
r("mck-builder-order", MCK, ("Mock.hpp", '''					&& expectation_policies::Category<category>{}
					&& expectation_policies::Constness<constness>{};
''', '''					&& expectation_policies::Constness<constness>{}
					&& expectation_policies::Category<category>{};
'''))
PRT = "C25"
r("prt-range", PRT, ("Printer.hpp", '''			out = print(std::move(out), *iter++);

			for (; iter != end; ++iter)
''', '''			out = print(std::move(out), *iter);

			for (++iter; iter != end; ++iter)
'''))
r("prt-range-flag", PRT, ("Printer.hpp", '''		auto iter = std::ranges::begin(range);
		if (const auto end = std::ranges::end(range);
			iter != end)
		{
			constexpr PrintFn print{};
			out = print(std::move(out), *iter++);

			for (; iter != end; ++iter)
			{
				out = print(
					format::format_to(std::move(out), ", "),
					*iter);
			}
		}
''', '''		constexpr PrintFn print{};
		bool first{true};
		for (auto&& element : range)
		{
			if (!first)
			{
				out = format::format_to(std::move(out), ", ");
			}
			first = false;
			out = print(std::move(out), element);
		}
'''))
r("prt-opt", PRT, ("Printer.hpp", '''			if (opt)
			{
				out = format::format_to(std::move(out), "{{ value: ");
				out = print(std::move(out), *opt);
				return format::format_to(std::move(out), " }}");
			}
			return print(std::move(out), std::nullopt);
''', '''			if (!opt.has_value())
			{
				return print(std::move(out), std::nullopt);
			}

			return format::format_to(
				print(
					format::format_to(std::move(out), "{{ value: "),
					opt.value()),
				" }}");
'''))
r("prt-cat", PRT + " C26", ("Printer.hpp", '''			switch (cat)
			{
			case ValueCategoryT::lvalue: return "lvalue";
			case ValueCategoryT::rvalue: return "rvalue";
			case ValueCategoryT::any: return "any";
			}

			throw std::invalid_argument{"Unknown category value."};
''', '''			if (cat == ValueCategoryT::lvalue)
			{
				return "lvalue";
			}

			if (cat == ValueCategoryT::rvalue)
			{
				return "rvalue";
			}

			if (cat != ValueCategoryT::any)
			{
				throw std::invalid_argument{"Unknown category value."};
			}

			return "any";
'''))
ALLP = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C11 C12 C17 C18 C19 C20 C21 C22"
r("ren-seq", SEQ + " C07 C21", ("Sequence.hpp", "re:m_Cursor", "m_Position"), ("Sequence.hpp", "re:m_Entries", "m_States"))
r("ren-ctl", SEQ + " C12 C20", ("ControlPolicy.hpp", "re:m_Count", "m_MatchCount"), ("ControlPolicy.hpp", "re:m_Min", "m_Lower"), ("ControlPolicy.hpp", "re:m_Max", "m_Upper"), ("ControlPolicy.hpp", "re:m_Sequences", "m_Attached"))
r("ren-exp", EXP + " C19 C20", ("Expectation.hpp", "re:m_ExpectationsMx", "m_Mutex"), ("Expectation.hpp", "re:m_Expectations", "m_Live"), ("Expectation.hpp", "re:m_Inner", "m_Impl"))
r("ren-exp2", EXP + " C20", ("Expectation.hpp", "re:m_ControlPolicy", "m_Control"), ("Expectation.hpp", "re:m_Policies", "m_PolicyList"), ("Expectation.hpp", "re:m_SourceLocation", "m_From"), ("Expectation.hpp", "re:m_Finalizer", "m_Final"), ("Expectation.hpp", "re:m_Storage", "m_Owner"), ("Expectation.hpp", "re:m_Expectation\\b", "m_Self"))
r("ren-pol", POL, ("ExpectationPolicies.hpp", "re:m_Action", "m_Fn"), ("ExpectationPolicies.hpp", "re:m_Matcher", "m_M"), ("ExpectationPolicies.hpp", "re:m_Exception", "m_E"))
r("ren-mat", MAT, ("Matcher.hpp", "re:m_Predicate", "m_P"), ("Matcher.hpp", "re:m_FormatString", "m_Fmt"), ("Matcher.hpp", "re:m_InvertedFormatString", "m_InvFmt"), ("Matcher.hpp", "re:m_AdditionalArgs", "m_Args"))
r("ren-bld", "C20", ("ExpectationBuilder.hpp", "re:m_Storage", "m_Collection"), ("ExpectationBuilder.hpp", "re:m_TimesConfig", "m_Times"), ("ExpectationBuilder.hpp", "re:m_SequenceConfig", "m_Seqs"), ("ExpectationBuilder.hpp", "re:m_FinalizePolicy", "m_Fin"), ("ExpectationBuilder.hpp", "re:m_ExpectationPolicies", "m_Pols"))
r("ren-rpt", "C17", ("Reporter.hpp", "re:m_Out", "m_Stream"), ("Reporter.hpp", "re:m_Data", "m_Payload"), ("Reporter.hpp", "re:m_Loc\\b", "m_Where"))
r("ren-mck", "C19 C18", ("Mock.hpp", "re:m_Expectations", "m_Collection"), ("ObjectWatcher.hpp", "re:m_DestructionMock", "m_Destruction"), ("ObjectWatcher.hpp", "re:m_RelocationMock", "m_Reloc"))
r("ord-seq", SEQ + " C07 C21", ("Sequence.hpp", '''			std::vector<State> m_Entries{};
			int m_Cursor{};
''', '''			int m_Cursor{};
			std::vector<State> m_Entries{};
'''))
r("ord-exp", EXP + " C20 C19", ("Expectation.hpp", '''		std::vector<std::shared_ptr<ExpectationT>> m_Expectations{};
		std::mutex m_ExpectationsMx{};
''', '''		std::mutex m_ExpectationsMx{};
		std::vector<std::shared_ptr<ExpectationT>> m_Expectations{};
'''))
r("lock-guard", EXP, ("Expectation.hpp", "re:const std::scoped_lock lock\\{m_ExpectationsMx\\}", "const std::lock_guard<std::mutex> lock{m_ExpectationsMx}"))
r("lock-unique", EXP, ("Expectation.hpp", "re:const std::scoped_lock lock\\{m_ExpectationsMx\\}", "const std::unique_lock<std::mutex> lock{m_ExpectationsMx}"))
r("lock-manual", EXP, ("Expectation.hpp", '''		void push(std::shared_ptr<ExpectationT> expectation)
		{
			const std::scoped_lock lock{m_ExpectationsMx};
''', '''		void push(std::shared_ptr<ExpectationT> expectation)
		{
			std::unique_lock lock{m_ExpectationsMx, std::defer_lock};
			lock.lock();
'''))
r("exp-collect-helper", EXP, ("Expectation.hpp", '''				if (std::optional matchReport = detail::make_match_report(call, *exp))
				{
					switch (evaluate_match_report(*matchReport))
					{
						using enum MatchResult;
					case none:
						noMatches.emplace_back(*std::move(matchReport));
						break;
					case inapplicable:
						inapplicableMatches.emplace_back(*std::move(matchReport));
						break;
					case full:
						matches.emplace_back(*exp, *std::move(matchReport));
						break;
					// GCOVR_EXCL_START
					default:
						unreachable();
					// GCOVR_EXCL_STOP
					}
				}
''', '''				collect(call, *exp, matches, noMatches, inapplicableMatches);
'''), ("Expectation.hpp", '''	private:
		std::vector<std::shared_ptr<ExpectationT>> m_Expectations{};
''', '''	private:
		static void collect(
			const CallInfoT& call,
			ExpectationT& expectation,
			std::vector<std::tuple<ExpectationT&, MatchReport>>& full,
			std::vector<MatchReport>& none,
			std::vector<MatchReport>& inapplicable
		)
		{
			std::optional<MatchReport> report = detail::make_match_report(call, expectation);
			if (!report)
			{
				return;
			}

			const MatchResult result = evaluate_match_report(*report);
			if (MatchResult::none == result)
			{
				none.emplace_back(std::move(*report));
			}
			else if (MatchResult::inapplicable == result)
			{
				inapplicable.emplace_back(std::move(*report));
			}
			else
			{
				full.emplace_back(expectation, std::move(*report));
			}
		}

		std::vector<std::shared_ptr<ExpectationT>> m_Expectations{};
'''))
r("exp-split-fn", EXP, ("Expectation.hpp", '''			if (!std::ranges::empty(inapplicableMatches))
			{
				detail::report_inapplicable_matches(
					make_call_report(call),
					std::move(inapplicableMatches));
			}

			detail::report_no_matches(
				make_call_report(call),
				std::move(noMatches));
		}

	private:
''', '''			fail(call, std::move(inapplicableMatches), std::move(noMatches));
		}

	private:
		[[noreturn]]
		static void fail(const CallInfoT& call, std::vector<MatchReport> inapplicable, std::vector<MatchReport> none)
		{
			if (!inapplicable.empty())
			{
				detail::report_inapplicable_matches(make_call_report(call), std::move(inapplicable));
			}

			detail::report_no_matches(make_call_report(call), std::move(none));
		}

'''))
r("seq-cursor-size", SEQ, ("Sequence.hpp", '''				m_Cursor = to_underlying(id);
''', '''				const auto next = to_underlying(id);
				m_Cursor = next;
'''))
RPP = "C16 C26"
r("rpp-verbalize-if", RPP, ("Reports.hpp", '''				switch (value)
				{
				case 0: return format::format_to(std::move(o), "never");
				case 1: return format::format_to(std::move(o), "once");
				case 2: return format::format_to(std::move(o), "twice");
				default: return format::format_to(std::move(o), "{} times", value);
				}
''', '''				if (value == 0u)
				{
					return format::format_to(std::move(o), "never");
				}
				if (value == 1u)
				{
					return format::format_to(std::move(o), "once");
				}
				if (value == 2u)
				{
					return format::format_to(std::move(o), "twice");
				}

				return format::format_to(std::move(o), "{} times", value);
'''))
r("rpp-interval-inline", RPP, ("Reports.hpp", '''			const auto verbalizeInterval = [verbalizeValue](OutIter o, const std::size_t start, const std::size_t end)
			{
				if (start < end)
				{
					return format::format_to(
						std::move(o),
						"between {} and {} times",
						start,
						end);
				}

				o = format::format_to(std::move(o), "exactly ");
				return verbalizeValue(std::move(o), end);
			};

''', ''), ("Reports.hpp", '''			out = format::format_to(std::move(out), " - ");
			out = verbalizeInterval(std::move(out), min, max);
			return format::format_to(std::move(out), " is expected");
''', '''			out = format::format_to(std::move(out), " - ");
			if (max <= min)
			{
				out = format::format_to(std::move(out), "exactly ");
				out = verbalizeValue(std::move(out), max);
			}
			else
			{
				out = format::format_to(
					std::move(out),
					"between {} and {} times",
					min,
					max);
			}
			return format::format_to(std::move(out), " is expected");
'''))
r("rpp-times-merge", RPP, ("Reports.hpp", '''			out = format::format_to(std::move(out), " - ");
			out = verbalizeInterval(std::move(out), min, max);
			return format::format_to(std::move(out), " is expected");
''', '''			out = verbalizeInterval(
				format::format_to(std::move(out), " {} ", "-"),
				min,
				max);
			return format::format_to(std::move(out), " is {}", "expected");
'''))
r("rpp-call-merge", RPP, ("Reports.hpp", '''				report.fromLoc);
			out = format::format_to(
				std::move(out),
				"\\n");

			out = format::format_to(
				std::move(out),
				"constness: {}\\n"
''', '''				report.fromLoc);
			out = format::format_to(
				std::move(out),
				"\\nconstness: {}\\n"
'''))
r("rpp-call-split", RPP, ("Reports.hpp", '''			out = format::format_to(
				std::move(out),
				"constness: {}\\n"
				"value category: {}\\n"
				"return type: {}\\n",
				report.fromConstness,
				report.fromCategory,
				report.returnTypeIndex.name());
''', '''			out = format::format_to(
				std::move(out),
				"constness: {}\\n",
				report.fromConstness);
			out = format::format_to(
				std::move(out),
				"value category: {}\\n",
				report.fromCategory);
			out = format::format_to(
				std::move(out),
				"return type: {}\\n",
				report.returnTypeIndex.name());
'''))
r("rpp-call-index", RPP, ("Reports.hpp", '''for (const std::size_t i : std::views::iota(0u, std::ranges::size(report.argDetails)))
				{
''', '''for (std::size_t i{}; i != report.argDetails.size(); ++i)
				{
'''))
r("rpp-call-counter", RPP, ("Reports.hpp", '''				for (const std::size_t i : std::views::iota(0u, std::ranges::size(report.argDetails)))
				{
					out = format::format_to(
						std::move(out),
						"\\targ[{}]: {{\\n"
						"\\t\\ttype: {},\\n"
						"\\t\\tvalue: {}\\n"
						"\\t}},\\n",
						i,
						report.argDetails[i].typeIndex.name(),
						report.argDetails[i].stateString);
				}
''', '''				std::size_t index{0u};
				for (const auto& [typeIndex, stateString] : report.argDetails)
				{
					out = format::format_to(
						std::move(out),
						"\\targ[{}]: {{\\n"
						"\\t\\ttype: {},\\n"
						"\\t\\tvalue: {}\\n"
						"\\t}},\\n",
						index,
						typeIndex.name(),
						stateString);
					++index;
				}
'''))
r("rpp-desc-if", RPP, ("Reports.hpp", '''				for (const auto& desc
					: report.expectationDescriptions
					| std::views::filter([](const auto& desc) { return desc.has_value(); }))
				{
					out = format::format_to(
						std::move(out),
						"\\t{},\\n",
						*desc);
				}
''', '''				for (const auto& desc : report.expectationDescriptions)
				{
					if (!desc)
					{
						continue;
					}

					out = format::format_to(
						std::move(out),
						"\\t{},\\n",
						*desc);
				}
'''))
r("rpp-desc-none", RPP, ("Reports.hpp", '''			if (std::ranges::any_of(
				report.expectationDescriptions,
				[](const auto& desc) { return desc.has_value(); }))
''', '''			if (!std::ranges::none_of(
				report.expectationDescriptions,
				&std::optional<StringT>::has_value))
'''))
r("rpp-match-ternary", RPP, ("Reports.hpp", '''				if (description)
				{
					if (isMatching)
					{
						matchedExpectationDescriptions.emplace_back(*description);
					}
					else
					{
						unmatchedExpectationDescriptions.emplace_back(*description);
					}
				}
''', '''				if (!description)
				{
					continue;
				}

				auto& target = isMatching
					? matchedExpectationDescriptions
					: unmatchedExpectationDescriptions;
				target.push_back(*description);
'''))
r("rpp-match-lambda", RPP, ("Reports.hpp", '''			if (!std::ranges::empty(unmatchedExpectationDescriptions))
			{
				out = format::format_to(
					std::move(out),
					"failed:\\n");
				for (const auto& desc : unmatchedExpectationDescriptions)
				{
					out = format::format_to(
						std::move(out),
						"\\t{},\\n",
						desc);
				}
			}

			if (!std::ranges::empty(matchedExpectationDescriptions))
			{
				out = format::format_to(
					std::move(out),
					"passed:\\n");
				for (const auto& desc : matchedExpectationDescriptions)
				{
					out = format::format_to(
						std::move(out),
						"\\t{},\\n",
						desc);
				}
			}
''', '''			const auto printList = [&](const StringViewT title, const std::vector<StringT>& list)
			{
				if (list.empty())
				{
					return;
				}

				out = format::format_to(std::move(out), "{}:\\n", title);
				for (const auto& desc : list)
				{
					out = format::format_to(
						std::move(out),
						"\\t{},\\n",
						desc);
				}
			};
			printList("failed", unmatchedExpectationDescriptions);
			printList("passed", matchedExpectationDescriptions);
'''))
r("rpp-match-visit", RPP, ("Reports.hpp", '''				out = std::visit(
					std::bind_front(control_state_printer{}, std::move(out)),
					report.controlReport);
''', '''				out = std::visit(
					[&](const auto& state) { return control_state_printer{}(std::move(out), state); },
					report.controlReport);
'''))
r("rpp-match-getif", RPP, ("Reports.hpp", '''				out = std::visit(
					std::bind_front(control_state_printer{}, std::move(out)),
					report.controlReport);
''', '''				if (const auto* inapplicable = std::get_if<state_inapplicable>(&report.controlReport))
				{
					out = control_state_printer{}(std::move(out), *inapplicable);
				}
				else
				{
					out = control_state_printer{}(std::move(out), std::get<state_saturated>(report.controlReport));
				}
'''))
r("rpp-match-if", RPP, ("Reports.hpp", '''			switch (evaluate_match_report(report))
			{
			case MatchResult::full:
				out = format::format_to(
					std::move(out),
					"Matched expectation: {{\\n");
				break;
''', '''			const MatchResult result = evaluate_match_report(report);
			switch (result)
			{
			case MatchResult::full:
				out = format::format_to(
					std::move(out),
					"Matched expectation: {{\\n");
				break;
'''))
r("rpp-eval-reorder", "C08 C16 C26", ("Reports.hpp", '''		if (!std::ranges::all_of(report.expectationReports, &MatchReport::Expectation::isMatching))
		{
			return MatchResult::none;
		}

		if (!std::holds_alternative<state_applicable>(report.controlReport))
		{
			return MatchResult::inapplicable;
		}

		return MatchResult::full;
''', '''		for (const auto& expectation : report.expectationReports)
		{
			if (!expectation.isMatching)
			{
				return MatchResult::none;
			}
		}

		return std::get_if<state_applicable>(&report.controlReport)
			? MatchResult::full
			: MatchResult::inapplicable;
'''))
r("rpp-eq-order", "C16 C26 C17", ("Reports.hpp", '''			return lhs.finalizeReport == rhs.finalizeReport
					&& lhs.controlReport == rhs.controlReport
					&& lhs.expectationReports == rhs.expectationReports
''', '''			return lhs.expectationReports == rhs.expectationReports
					&& lhs.controlReport == rhs.controlReport
					&& lhs.finalizeReport == rhs.finalizeReport
'''))
r("rpp-make-push", "C16 C09", ("Reports.hpp", '''					return std::vector<CallReport::Arg>{
						CallReport::Arg{
							.typeIndex = typeid(Params),
							.stateString = mimicpp::print(args.get())
						}...
					};
''', '''					std::vector<CallReport::Arg> details{};
					details.reserve(sizeof...(args));
					(..., details.push_back(
						CallReport::Arg{
							.typeIndex = typeid(Params),
							.stateString = mimicpp::print(args.get())
						}));
					return details;
'''))
r("rpp-applicable-early", RPP, ("Reports.hpp", '''				if (const auto sequenceCount = std::ranges::ssize(state.sequenceRatings);
					0 < sequenceCount)
				{
					out = format::format_to(
						std::move(out),
						",\\n\\tand is the current element of {} sequence(s).",
						sequenceCount);
				}

				return out;
''', '''				if (state.sequenceRatings.empty())
				{
					return out;
				}

				return format::format_to(
					std::move(out),
					",\\n\\tand is the current element of {} sequence(s).",
					state.sequenceRatings.size());
'''))
UTL = "C09 C13 C19 C20"
r("utl-matching", UTL, ("Utility.hpp", '''	constexpr bool is_matching(const Constness lhs, const Constness rhs) noexcept
	{
		return std::cmp_not_equal(0, to_underlying(lhs) & to_underlying(rhs));
''', '''	constexpr bool is_matching(const Constness lhs, const Constness rhs) noexcept
	{
		return 0 != (static_cast<int>(lhs) & static_cast<int>(rhs));
'''), ("Utility.hpp", '''	constexpr bool is_matching(const ValueCategory lhs, const ValueCategory rhs) noexcept
	{
		return std::cmp_not_equal(0, to_underlying(lhs) & to_underlying(rhs));
''', '''	constexpr bool is_matching(const ValueCategory lhs, const ValueCategory rhs) noexcept
	{
		return lhs == rhs
			|| lhs == ValueCategory::any
			|| rhs == ValueCategory::any;
'''))
r("utl-srcloc", "C16 C26 C17", ("Utility.hpp", '''		return std::string_view{lhs.file_name()} == std::string_view{rhs.file_name()}
				&& std::string_view{lhs.function_name()} == std::string_view{rhs.function_name()}
				&& lhs.line() == rhs.line()
				&& lhs.column() == rhs.column();
''', '''		if (lhs.line() != rhs.line()
			|| lhs.column() != rhs.column())
		{
			return false;
		}

		return std::string_view{lhs.function_name()} == std::string_view{rhs.function_name()}
				&& std::string_view{lhs.file_name()} == std::string_view{rhs.file_name()};
'''))
r("mck-call-local", "C19 C08 C16", ("Mock.hpp", '''			using CallInfoT = call::Info<Return, Params...>;

			return m_Expectations->handle_call(
				CallInfoT{
					.args = std::move(params),
					.fromCategory = category,
					.fromConstness = constness,
					.fromSourceLocation = from
				});
''', '''			call::Info<Return, Params...> info{
				.args = params,
				.fromCategory = category,
				.fromConstness = constness,
				.fromSourceLocation = from
			};

			auto& collection = *m_Expectations;
			return collection.handle_call(std::move(info));
'''))
r("mck-frontend-tuple", "C19", ("Mock.hpp", '''re:return SuperT::handle_call\\(
				std::tuple\\{std::ref\\(params\\)\\.\\.\\.\\},
				from\\);''', '''std::tuple args{std::ref(params)...};
			return SuperT::handle_call(args, from);'''))
r("mck-frontend-this", "C19", ("Mock.hpp", "re:return SuperT::handle_call\\(", "return this->handle_call("))
r("adp-gtest-direct", "C17", ("adapters/gtest.hpp", '''		std::invoke(
			[&]
			{
				GTEST_FAIL() << msg;
			});
''', '''		const auto recordFailure = [&msg]() { GTEST_FAIL() << msg; };
		recordFailure();
'''))
PR = "C25 C26 C16"
r("prt-string-var", PR, ("Printer.hpp", '''				auto view = string_traits<String>::view(str);
				out = format::format_to(
					std::move(out),
					"{}",
					StringViewT{
						std::ranges::data(view),
						std::ranges::size(view)
					});
''', '''				const auto content = string_traits<String>::view(str);
				const StringViewT text{
					std::ranges::data(content),
					std::ranges::size(content)
				};
				out = format::format_to(std::move(out), "{}", text);
'''))
r("prt-hex-flag", PR, ("Printer.hpp", '''				auto iter = std::ranges::begin(view);
				if (const auto end = std::ranges::end(view);
					iter != end)
				{
					out = format::format_to(
						std::move(out),
						"{:#x}",
						to_dump(*iter++));

					for (; iter != end; ++iter)
					{
						out = format::format_to(
							std::move(out),
							", {:#x}",
							to_dump(*iter));
					}
				}
''', '''				bool isFirst{true};
				for (const string_char_t<String>& c : view)
				{
					if (!isFirst)
					{
						out = format::format_to(std::move(out), ", ");
					}

					isFirst = false;
					out = format::format_to(std::move(out), "{:#x}", to_dump(c));
				}
'''))
r("prt-tuple-apply", PR, ("Printer.hpp", '''			std::invoke(
				[&]<std::size_t... indices>([[maybe_unused]] const std::index_sequence<indices...>)
				{
					(...,
						(out = tuple_element_print<indices>(std::move(out), tuple)));
				},
				std::make_index_sequence<std::tuple_size_v<T>>{});
''', '''			const auto printAll = [&]<std::size_t... indices>([[maybe_unused]] const std::index_sequence<indices...>)
			{
				((out = tuple_element_print<indices>(std::move(out), tuple)), ...);
			};
			printAll(std::make_index_sequence<std::tuple_size_v<T>>{});
'''))
r("prt-pointer", PR, ("Printer.hpp", '''			return format::format_to(
				std::move(out),
				"0x{:0>16x}",
				std::bit_cast<std::uintptr_t>(ptr));
''', '''			const auto address = std::bit_cast<std::uintptr_t>(ptr);
			out = format::format_to(std::move(out), "0x");
			return format::format_to(std::move(out), "{:0>16x}", address);
'''))
r("prt-fn-direct", PR, ("Printer.hpp", '''			StringStreamT stream{};
			std::invoke(
				*this,
				std::ostreambuf_iterator{stream},
				std::forward<T>(value));
			return std::move(stream).str();
''', '''			StringStreamT buffer{};
			(*this)(std::ostreambuf_iterator{buffer}, std::forward<T>(value));
			return buffer.str();
'''))
r("prt-opt-neg", PR, ("Printer.hpp", '''			if (opt)
			{
				out = format::format_to(std::move(out), "{{ value: ");
				out = print(std::move(out), *opt);
				return format::format_to(std::move(out), " }}");
			}
			return print(std::move(out), std::nullopt);
''', '''			if (!opt.has_value())
			{
				return print(std::move(out), std::nullopt);
			}

			out = print(
				format::format_to(std::move(out), "{{ value: "),
				opt.value());
			return format::format_to(std::move(out), " }}");
'''))
r("prt-cons-if", PR, ("Printer.hpp", '''			switch (value)
			{
			case ConstnessT::non_const: return "mutable";
			case ConstnessT::as_const: return "const";
			case ConstnessT::any: return "any";
			}

			throw std::invalid_argument{"Unknown constness value."};
''', '''			if (value == ConstnessT::any)
			{
				return "any";
			}
			if (value == ConstnessT::as_const)
			{
				return "const";
			}
			if (value == ConstnessT::non_const)
			{
				return "mutable";
			}

			throw std::invalid_argument{"Unknown constness value."};
'''))
# state that outlives calls, without effect on the behaviour
r("st-text", "C13 C16 C20", ("ExpectationPolicies.hpp", """			return format::format(
				"expect: from {} category overload",
				expected);""", """			static const StringT text = format::format(
				"expect: from {} category overload",
				expected);

			return text;"""), ("ExpectationPolicies.hpp", """			return format::format(
				"expect: from {} qualified overload",
				constness);""", """			static const StringT text = format::format(
				"expect: from {} qualified overload",
				constness);

			return text;"""))
r("st-counter", "C08 C09 C11 C22", ("Expectation.hpp", "			std::vector<MatchReport> inapplicableMatches{};\n\n			for (const", "			std::vector<MatchReport> inapplicableMatches{};\n			static std::size_t calls = 0;\n			++calls;\n\n			for (const"))
r("st-default", "C17 C23", ("Reporter.hpp", "			if (0 == std::uncaught_exceptions())\n			{\n				const auto msg = detail::stringify_unfulfilled_expectation", "			static constexpr int none{0};\n			thread_local unsigned asked = 0;\n			++asked;\n			if (none == std::uncaught_exceptions())\n			{\n				const auto msg = detail::stringify_unfulfilled_expectation"))
if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    import shutil, tempfile
    ns = sys.argv[1:]
    def one(x):
        name, props, edits = x; W = tempfile.mkdtemp(prefix="refw_")
        try:
            subprocess.run(f"git -C /repo archive HEAD include | tar x -C {W}; cp -r /verif/ccv /verif/units /verif/harness /verif/check.py {W}", shell=True, check=True)
            for f, a, b in edits:
                p = f"{W}/include/mimic++/{f}"; t = open(p).read()
                if a.startswith("re:"): n = len(re.findall(a[3:], t)); t = re.sub(a[3:], b, t); open(p, "w").write(t); assert n, (name, a); continue
                if t.count(a) != 1: return [name, "EDIT", f"{f}: {t.count(a)} matches of {a.strip()[:60]}"]
                open(p, "w").write(t.replace(a, b))
            open(W + "/x.cpp", "w").write('#include "mimic++/mimic++.hpp"\nint main(){}\n')
            c = subprocess.run(["g++", "-std=c++20", "-fsyntax-only", f"-I{W}/include", W + "/x.cpp"], capture_output=True, text=True)
            if c.returncode: return [name, "COMPILE", c.stderr[:400]]
            res = [name]
            for p in props:
                o = subprocess.run(["python3-vt", W + "/check.py", p], capture_output=True, text=True, env={**os.environ, "VERIF_REPO": W})
                out = o.stdout.strip().split("\n"); ok = "failed 0 undecided 0 tool errors 0" in o.stdout
                if o.returncode or not ok: res += [f"{p} rc {o.returncode}"] + [x[:190] for x in out[:3 if o.returncode == 0 else 6]] + o.stderr.strip().split("\n")[-1:]
            return res + ["done"] if len(res) > 1 else [name, "ok"]
        finally: shutil.rmtree(W)
    with ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
        for res in ex.map(one, [x for x in R if not ns or any(x[0].startswith(n) for n in ns)]):
            print(*res, sep=" " if res[-1] == "ok" else "\n      ", flush=True)
