From a37b69152a92a2c62ac17c494a3fe2fba9984641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:56 +0000
Subject: [PATCH 1/2] fix: exceptions from callables passed to
 finally::returns_result_of no longer terminate

The noexcept specification was evaluated for the value category and constness
the callable was passed with, although the stored copy is invoked as a
non-const lvalue. A callable, whose overload for that differs in noexcept,
terminated the program when it threw.
---
 include/mimic++/ExpectationPolicies.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mimic++/ExpectationPolicies.hpp b/include/mimic++/ExpectationPolicies.hpp
index de5e020..0c20fce 100644
--- a/include/mimic++/ExpectationPolicies.hpp
+++ b/include/mimic++/ExpectationPolicies.hpp
@@ -473,7 +473,7 @@ namespace mimicpp::finally
 		return expectation_policies::ReturnsResultOf{
 			[
 				fn = std::forward<Fun>(fun)
-			]([[maybe_unused]] const auto& call) mutable noexcept(std::is_nothrow_invocable_v<decltype(fun)>) -> decltype(auto)
+			]([[maybe_unused]] const auto& call) mutable noexcept(std::is_nothrow_invocable_v<std::remove_cvref_t<Fun>&>) -> decltype(auto)
 			{
 				return std::invoke(fn);
 			}
-- 
2.43.0


From 655467b0497bde9059f2e9204a6d61fb34b5eca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:46 +0000
Subject: [PATCH 2/2] fix: range::each_element and any_element no longer move
 from lvalue matchers

std::forward was given the decayed type, thus a matcher passed as lvalue was
left in its moved-from state (and const lvalues were rejected).
---
 include/mimic++/Matcher.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mimic++/Matcher.hpp b/include/mimic++/Matcher.hpp
index db176c8..58459ed 100644
--- a/include/mimic++/Matcher.hpp
+++ b/include/mimic++/Matcher.hpp
@@ -954,7 +954,7 @@ namespace mimicpp::matches::range
 					MatcherT,
 					std::identity,
 					decltype([](const auto& m) { return mimicpp::detail::describe_hook::describe(m); })>{
-					std::forward<MatcherT>(matcher)
+					std::forward<Matcher>(matcher)
 				}
 			}
 		};
@@ -983,7 +983,7 @@ namespace mimicpp::matches::range
 					MatcherT,
 					std::identity,
 					decltype([](const auto& m) { return mimicpp::detail::describe_hook::describe(m); })>{
-					std::forward<MatcherT>(matcher)
+					std::forward<Matcher>(matcher)
 				}
 			}
 		};
-- 
2.43.0

