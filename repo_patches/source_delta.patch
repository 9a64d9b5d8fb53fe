From 36285467712156b937f76b88ac815cf1bdff0f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:23 +0000
Subject: [PATCH 01/17] fix: make the bool conversion of captures true for
 non-empty content

Both capture types converted to true exactly when they held no content.
---
 include/mregex/regex_capture.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mregex/regex_capture.hpp b/include/mregex/regex_capture.hpp
index d5ed574..1e96e40 100644
--- a/include/mregex/regex_capture.hpp
+++ b/include/mregex/regex_capture.hpp
@@ -101,7 +101,7 @@ namespace meta
 
         constexpr explicit operator bool() const noexcept
         {
-            return is_empty();
+            return !is_empty();
         }
 
         constexpr explicit(false) operator std::string_view() const noexcept
@@ -192,7 +192,7 @@ namespace meta
 
         explicit operator bool() const noexcept
         {
-            return is_empty();
+            return !is_empty();
         }
 
         explicit(false) operator std::string_view() const noexcept
-- 
2.43.0


From 38a2b857ae859c5df47398d8ad11d8feda9c193a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:23 +0000
Subject: [PATCH 02/17] fix: restore the previous content of a capture when
 backtracking

A failed attempt to re-enter a repeated group erased the content captured by its
last successful iteration, so (a)* on "aa" reported an empty group 1.
---
 include/mregex/ast/nodes/capture.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/mregex/ast/nodes/capture.hpp b/include/mregex/ast/nodes/capture.hpp
index e1e55df..6ceef52 100644
--- a/include/mregex/ast/nodes/capture.hpp
+++ b/include/mregex/ast/nodes/capture.hpp
@@ -23,9 +23,11 @@ namespace meta::ast
                 capture_matched_range(current, next, ctx);
                 return cont(next);
             };
+            auto const previous_capture = std::get<ID>(ctx.captures);
             if (auto inner_match = Inner::match(begin, end, current, ctx, continuation))
                 return inner_match;
-            std::get<ID>(ctx.captures).clear();
+            // Backtracking must not erase the content captured by an earlier iteration
+            std::get<ID>(ctx.captures) = previous_capture;
             return non_match(current);
         }
 
-- 
2.43.0


From 2c24e70add7e9a527ef5c219c0cd412af59e363f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:23 +0000
Subject: [PATCH 03/17] fix: discard captures of abandoned lookarounds, atomic
 groups and possessive loops

When the rest of the pattern failed after one of these constructs matched, the
content captured inside it leaked into the alternative that finally matched.
---
 include/mregex/ast/nodes/assertion.hpp             |  8 +++++++-
 .../ast/nodes/quantifiers/fixed_repetition.hpp     | 14 ++++++++++++--
 .../mregex/ast/nodes/quantifiers/repetition.hpp    |  6 +++++-
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/mregex/ast/nodes/assertion.hpp b/include/mregex/ast/nodes/assertion.hpp
index 5d634d3..b255d15 100644
--- a/include/mregex/ast/nodes/assertion.hpp
+++ b/include/mregex/ast/nodes/assertion.hpp
@@ -23,8 +23,14 @@ namespace meta::ast
         static constexpr auto match(Iter begin, Iter end, Iter current, Context &ctx, Cont &&cont) noexcept
         -> match_result<Iter>
         {
+            auto const previous_captures = ctx.captures;
             if (Predicate::is_match(begin, end, current, ctx))
-                return cont(current);
+            {
+                if (auto rest_match = cont(current))
+                    return rest_match;
+            }
+            // Discard everything captured inside an abandoned assertion
+            ctx.captures = previous_captures;
             return non_match(current);
         }
     };
diff --git a/include/mregex/ast/nodes/quantifiers/fixed_repetition.hpp b/include/mregex/ast/nodes/quantifiers/fixed_repetition.hpp
index e45f774..74fea32 100644
--- a/include/mregex/ast/nodes/quantifiers/fixed_repetition.hpp
+++ b/include/mregex/ast/nodes/quantifiers/fixed_repetition.hpp
@@ -29,8 +29,13 @@ namespace meta::ast
         static constexpr auto possessive_match(Iter begin, Iter end, Iter current, Context &ctx, Cont &&cont) noexcept
         -> match_result<Iter>
         {
+            auto const previous_captures = ctx.captures;
             if (auto result = backtracking_match(begin, end, current, ctx, continuations<Iter>::success))
-                return cont(result.end);
+            {
+                if (auto rest_match = cont(result.end))
+                    return rest_match;
+            }
+            ctx.captures = previous_captures;
             return non_match(current);
         }
 
@@ -142,8 +147,13 @@ namespace meta::ast
         static constexpr auto match(Iter begin, Iter end, Iter current, Context &ctx, Cont &&cont) noexcept
         -> match_result<Iter>
         {
+            auto const previous_captures = ctx.captures;
             if (auto inner_match = Inner::match(begin, end, current, ctx, continuations<Iter>::success))
-                return cont(inner_match.end);
+            {
+                if (auto rest_match = cont(inner_match.end))
+                    return rest_match;
+            }
+            ctx.captures = previous_captures;
             return non_match(current);
         }
     };
diff --git a/include/mregex/ast/nodes/quantifiers/repetition.hpp b/include/mregex/ast/nodes/quantifiers/repetition.hpp
index ff5a6c8..035b039 100644
--- a/include/mregex/ast/nodes/quantifiers/repetition.hpp
+++ b/include/mregex/ast/nodes/quantifiers/repetition.hpp
@@ -51,6 +51,7 @@ namespace meta::ast
         static constexpr auto bounded_possessive_match(Iter begin, Iter end, Iter current, Context &ctx, Cont &&cont) noexcept
         -> match_result<Iter>
         {
+            auto const previous_captures = ctx.captures;
             for (std::size_t match_count = 0; !symbol::equals<Bound>(match_count); ++match_count)
             {
                 auto inner_match = Inner::match(begin, end, current, ctx, continuations<Iter>::success);
@@ -58,7 +59,10 @@ namespace meta::ast
                     break;
                 current = inner_match.end;
             }
-            return cont(current);
+            if (auto rest_match = cont(current))
+                return rest_match;
+            ctx.captures = previous_captures;
+            return non_match(current);
         }
 
         template<symbol::quantifier Bound, std::forward_iterator Iter, typename Context, match_continuation<Iter> Cont>
-- 
2.43.0


From 6c6760f7881ac9fe0c82a22e5d545f6b538938f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:23 +0000
Subject: [PATCH 04/17] fix: leave group 0 empty when an exact or prefix match
 fails

A failed exact match exposed the range where the last attempt stopped, so
regex<"test">::match("test___") was not matched but reported a length of 4.
---
 include/mregex/regex_methods.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/mregex/regex_methods.hpp b/include/mregex/regex_methods.hpp
index 7d80024..d54a38d 100644
--- a/include/mregex/regex_methods.hpp
+++ b/include/mregex/regex_methods.hpp
@@ -20,7 +20,8 @@ namespace meta
         static constexpr auto invoke(Iter begin, Iter end, Iter current, Context &ctx) noexcept -> ast::match_result<Iter>
         {
             auto result = ast_type::match(begin, end, current, ctx, continuations<Iter>::equals(end));
-            std::get<0>(ctx.captures) = regex_capture_view<Iter>{current, result.end};
+            if (result)
+                std::get<0>(ctx.captures) = regex_capture_view<Iter>{current, result.end};
             return result;
         }
     };
@@ -38,7 +39,8 @@ namespace meta
         static constexpr auto invoke(Iter begin, Iter end, Iter current, Context &ctx) noexcept -> ast::match_result<Iter>
         {
             auto result = ast_type::match(begin, end, current, ctx, continuations<Iter>::success);
-            std::get<0>(ctx.captures) = regex_capture_view<Iter>{current, result.end};
+            if (result)
+                std::get<0>(ctx.captures) = regex_capture_view<Iter>{current, result.end};
             return result;
         }
     };
-- 
2.43.0


From 4b06ceb12716f1fc74be5b73c25c1010751cde42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:23 +0000
Subject: [PATCH 05/17] fix: mirror anchors when matching lookbehinds backwards

(?<=^a)b never matched because ^ was tested against the end of the reversed input.
---
 include/mregex/ast/inversion.hpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/mregex/ast/inversion.hpp b/include/mregex/ast/inversion.hpp
index 6e0c7e6..52b5487 100644
--- a/include/mregex/ast/inversion.hpp
+++ b/include/mregex/ast/inversion.hpp
@@ -31,6 +31,31 @@ namespace meta::ast
         using type = decltype(detail::to_sequence(reverse_t<type_sequence<invert_t<Nodes> ...>>{}));
     };
 
+    // Anchors swap their meaning when the input is traversed backwards
+    template<>
+    struct invert<beginning_of_line>
+    {
+        using type = end_of_line;
+    };
+
+    template<>
+    struct invert<end_of_line>
+    {
+        using type = beginning_of_line;
+    };
+
+    template<>
+    struct invert<beginning_of_input>
+    {
+        using type = end_of_input;
+    };
+
+    template<>
+    struct invert<end_of_input>
+    {
+        using type = beginning_of_input;
+    };
+
     template<typename Inner>
     struct invert<positive_lookahead<Inner>>
     {
-- 
2.43.0


From 11e889f07356c437f69e7d2fff5baf631951c743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:50 +0000
Subject: [PATCH 06/17] fix: number capturing groups consecutively across
 alternatives

Every alternative restarted from the same group number, so both groups of (a)|(b)
were stored in group 1 and group 2 could never be set.
---
 include/mregex/ast/indexing.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/mregex/ast/indexing.hpp b/include/mregex/ast/indexing.hpp
index 26b3b81..5bb595e 100644
--- a/include/mregex/ast/indexing.hpp
+++ b/include/mregex/ast/indexing.hpp
@@ -60,6 +60,15 @@ namespace meta::ast
                 }(inner_offsets{}));
             };
 
+            template<typename... Nodes>
+            struct index<alternation<Nodes ...>>
+            {
+                using inner_offsets = capture_index_offsets_t<Offset, capture_count<Nodes> ...>;
+                using type = decltype([]<std::size_t... Offsets>(std::index_sequence<Offsets ...>) {
+                    return alternation<typename capture_indexer<Offsets>::template index<Nodes>::type ...>{};
+                }(inner_offsets{}));
+            };
+
             template<typename Node>
             using index_t = typename index<Node>::type;
         };
-- 
2.43.0


From 86916723e0e4eafa9b03a2827bc40d114983844a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:50 +0000
Subject: [PATCH 07/17] fix: match lookarounds nested inside of lookbehinds in
 the right direction

The pattern of a nested lookaround was never mirrored together with its direction,
so (?<=a(?=bc))b did not match in "abc" and (?<=(?<=ab)c)d did not match in "abcd".
---
 .../ast/predicates/lookaround_predicate.hpp   | 26 ++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/mregex/ast/predicates/lookaround_predicate.hpp b/include/mregex/ast/predicates/lookaround_predicate.hpp
index 637a452..1ab9a20 100644
--- a/include/mregex/ast/predicates/lookaround_predicate.hpp
+++ b/include/mregex/ast/predicates/lookaround_predicate.hpp
@@ -13,7 +13,11 @@ namespace meta::ast::predicates
         template<std::forward_iterator Iter, typename Context>
         static constexpr bool is_match(Iter begin, Iter end, Iter current, Context &ctx) noexcept
         {
-            auto inner_match = Inner::match(begin, end, current, ctx, continuations<Iter>::success);
+            // Inside of a lookbehind, this is a mirrored lookbehind that continues backwards
+            constexpr bool is_mirrored = !std::is_same_v<Iter, typename Context::iterator>;
+            using ast_type = typename std::conditional_t<is_mirrored, invert<Inner>, std::type_identity<Inner>>::type;
+
+            auto inner_match = ast_type::match(begin, end, current, ctx, continuations<Iter>::success);
             return inner_match.matched;
         }
 
@@ -35,11 +39,21 @@ namespace meta::ast::predicates
             using ast_type = invert_t<Inner>;
             using iterator = std::reverse_iterator<Iter>;
 
-            auto rbegin = std::make_reverse_iterator(end); // Reversed end becomes new begin
-            auto rend = std::make_reverse_iterator(begin); // Reversed begin becomes new end
-            auto rcurrent = std::make_reverse_iterator(current);
-            auto result = ast_type::match(rbegin, rend, rcurrent, ctx, continuations<iterator>::success);
-            return result.matched;
+            if constexpr (std::is_same_v<Iter, typename Context::iterator>)
+            {
+                auto rbegin = std::make_reverse_iterator(end); // Reversed end becomes new begin
+                auto rend = std::make_reverse_iterator(begin); // Reversed begin becomes new end
+                auto rcurrent = std::make_reverse_iterator(current);
+                auto result = ast_type::match(rbegin, rend, rcurrent, ctx, continuations<iterator>::success);
+                return result.matched;
+            }
+            else
+            {
+                // Inside of a lookbehind, this is a mirrored lookahead that goes back to the original direction
+                using base_iterator = typename Context::iterator;
+                auto result = Inner::match(end.base(), begin.base(), current.base(), ctx, continuations<base_iterator>::success);
+                return result.matched;
+            }
         }
 
         template<std::bidirectional_iterator Iter, typename Context>
-- 
2.43.0


From 56c08fa9492960a4f6a995598a53015df6d43b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:50 +0000
Subject: [PATCH 08/17] fix: do not step backwards on forward iterators for a
 multiline ^

std::prev is undefined for iterators which are not bidirectional.
---
 .../ast/predicates/anchor_predicates.hpp      | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/mregex/ast/predicates/anchor_predicates.hpp b/include/mregex/ast/predicates/anchor_predicates.hpp
index 7b58fa1..1aa33c3 100644
--- a/include/mregex/ast/predicates/anchor_predicates.hpp
+++ b/include/mregex/ast/predicates/anchor_predicates.hpp
@@ -16,11 +16,28 @@ namespace meta::ast::predicates
                 return true;
             if constexpr (Mode == line_mode::multiline && Context::flags::multiline)
             {
-                if (linebreak::match_one(*std::prev(current), ctx))
+                if (linebreak::match_one(*previous(begin, current), ctx))
                     return true;
             }
             return false;
         }
+
+    private:
+        template<std::forward_iterator Iter>
+        static constexpr auto previous(Iter begin, Iter current) noexcept -> Iter
+        {
+            if constexpr (std::bidirectional_iterator<Iter>)
+            {
+                return std::prev(current);
+            }
+            else
+            {
+                // Forward iterators cannot be decremented
+                while (std::next(begin) != current)
+                    ++begin;
+                return begin;
+            }
+        }
     };
 
     template<line_mode Mode>
-- 
2.43.0


From 0a08bf833df1b41de52423465f546bd117c4c77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:50 +0000
Subject: [PATCH 09/17] fix: make the postfix increment of the input range
 iterator compile

The iterator cannot be constructed from a pointer to the range.
---
 include/mregex/utility/input_range_adapter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mregex/utility/input_range_adapter.hpp b/include/mregex/utility/input_range_adapter.hpp
index e85fbba..135b692 100644
--- a/include/mregex/utility/input_range_adapter.hpp
+++ b/include/mregex/utility/input_range_adapter.hpp
@@ -65,7 +65,7 @@ namespace meta
 
             constexpr iterator operator++(int) noexcept(is_nothrow_invocable)
             {
-                iterator old_iter{_target};
+                iterator old_iter{*this};
                 this->operator++();
                 return old_iter;
             }
-- 
2.43.0


From 9234542ce3c4f07bd3e4d1b163299969fd8cd88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:50 +0000
Subject: [PATCH 10/17] fix: allow backreferences to be matched with forward
 iterators

Only backreferences inside of lookbehinds need to traverse a capture backwards.
---
 include/mregex/ast/nodes/terminals/backref.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mregex/ast/nodes/terminals/backref.hpp b/include/mregex/ast/nodes/terminals/backref.hpp
index badc6f1..685a929 100644
--- a/include/mregex/ast/nodes/terminals/backref.hpp
+++ b/include/mregex/ast/nodes/terminals/backref.hpp
@@ -59,7 +59,7 @@ namespace meta::ast
         }
 
     private:
-        template<bool Condition, std::ranges::bidirectional_range Range>
+        template<bool Condition, std::ranges::forward_range Range>
         static constexpr auto reverse_if(Range &range) noexcept
         {
             if constexpr (Condition)
-- 
2.43.0


From b45bf3a7f7edd3f630e332072b212f8a60062e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:18 +0000
Subject: [PATCH 11/17] fix: do not use a line break class as the bound of a
 range in a set

[\R-a] was parsed as the range from \n to a instead of the class \R, a literal - and a.
---
 include/mregex/ast/build.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/mregex/ast/build.hpp b/include/mregex/ast/build.hpp
index 7e0fc85..58311c9 100644
--- a/include/mregex/ast/build.hpp
+++ b/include/mregex/ast/build.hpp
@@ -217,6 +217,13 @@ namespace meta::ast
         using type = type_sequence<set<First ..., Second ...>, Rest ...>;
     };
 
+    // A line break is a character class and cannot provide the bound of a range
+    template<typename Token, typename... Second, typename... Rest>
+    struct build<symbol::make_set_from_stack, Token, type_sequence<linebreak, set<Second ...>, Rest ...>>
+    {
+        using type = type_sequence<set<linebreak, Second ...>, Rest ...>;
+    };
+
     // Create a range inside the set
     template<char A, char B, typename... Second, typename... Rest>
     struct build<symbol::make_range, symbol::character<A>, type_sequence<set<literal<B>, Second ...>, Rest ...>>
-- 
2.43.0


From 7b1d3750ce896509f27974e41242773686d12dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:10 +0000
Subject: [PATCH 12/17] fix: keep alternation precedence after a literal brace

A '{' that starts no quantifier opened a nested sequence and alternation,
so xa{b|c was parsed as x(?:a{b|c).
---
 include/mregex/grammar/quantifiers.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/mregex/grammar/quantifiers.hpp b/include/mregex/grammar/quantifiers.hpp
index 254146e..07076ba 100644
--- a/include/mregex/grammar/quantifiers.hpp
+++ b/include/mregex/grammar/quantifiers.hpp
@@ -22,9 +22,7 @@ namespace meta::grammar
                 <
                     symbol::push_literal<C>,
                     symbol::mod,
-                    symbol::make_sequence,
-                    symbol::seq,
-                    symbol::alt
+                    symbol::make_sequence
                 >;
     };
 
-- 
2.43.0


From a50f259cb7e12fbd07ed8e86f5687eb21d59f8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:10 +0000
Subject: [PATCH 13/17] fix: make content() of a const expiring owned capture
 compile

---
 include/mregex/regex_capture.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mregex/regex_capture.hpp b/include/mregex/regex_capture.hpp
index 1e96e40..fff3fb1 100644
--- a/include/mregex/regex_capture.hpp
+++ b/include/mregex/regex_capture.hpp
@@ -177,7 +177,7 @@ namespace meta
 
         auto const &&content() const && noexcept
         {
-            return _capture;
+            return std::move(_capture);
         }
 
         auto &operator[](std::size_t index) noexcept
-- 
2.43.0


From 3329537840a1d581d1765bfe7bb5763e4e5d0aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:33 +0000
Subject: [PATCH 14/17] fix: hide abandoned content of a group from
 backreferences inside the group

---
 include/mregex/ast/nodes/capture.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/mregex/ast/nodes/capture.hpp b/include/mregex/ast/nodes/capture.hpp
index 6ceef52..5d153e2 100644
--- a/include/mregex/ast/nodes/capture.hpp
+++ b/include/mregex/ast/nodes/capture.hpp
@@ -20,15 +20,16 @@ namespace meta::ast
         -> match_result<Iter>
         {
             auto continuation = [=, &ctx, &cont](Iter next) noexcept -> match_result<Iter> {
+                auto const previous_capture = std::get<ID>(ctx.captures);
                 capture_matched_range(current, next, ctx);
-                return cont(next);
+                if (auto rest_match = cont(next))
+                    return rest_match;
+                // Backtracking must not erase the content captured by an earlier iteration,
+                // nor show the abandoned content to a backreference inside the group itself
+                std::get<ID>(ctx.captures) = previous_capture;
+                return non_match(next);
             };
-            auto const previous_capture = std::get<ID>(ctx.captures);
-            if (auto inner_match = Inner::match(begin, end, current, ctx, continuation))
-                return inner_match;
-            // Backtracking must not erase the content captured by an earlier iteration
-            std::get<ID>(ctx.captures) = previous_capture;
-            return non_match(current);
+            return Inner::match(begin, end, current, ctx, continuation);
         }
 
     private:
-- 
2.43.0


From 9a46b61439db1b410f65006ffbecb014626ccce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:40 +0000
Subject: [PATCH 15/17] fix: reject a pattern that ends right after a group
 prefix instead of failing to compile the parser

---
 include/mregex/grammar/grammar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mregex/grammar/grammar.hpp b/include/mregex/grammar/grammar.hpp
index fe73b06..0aaba67 100644
--- a/include/mregex/grammar/grammar.hpp
+++ b/include/mregex/grammar/grammar.hpp
@@ -574,7 +574,7 @@ namespace meta::grammar
     template<>
     struct rule<symbol::group_begin, symbol::empty>
     {
-        using type = ignore;
+        using type = reject;
     };
 
     template<>
-- 
2.43.0


From 0ebc1eec2b0f8fb12449342a60670ae6204509a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:06 +0000
Subject: [PATCH 16/17] fix: accept contiguous ranges of characters other than
 char

---
 include/mregex/regex_capture.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/mregex/regex_capture.hpp b/include/mregex/regex_capture.hpp
index fff3fb1..7d0407b 100644
--- a/include/mregex/regex_capture.hpp
+++ b/include/mregex/regex_capture.hpp
@@ -46,7 +46,8 @@ namespace meta
     template<std::forward_iterator Iter, typename Name = symbol::unnamed>
     struct regex_capture_view : regex_capture_base<Name>
     {
-        static constexpr bool is_contiguous_view = std::contiguous_iterator<Iter>;
+        // Only characters of type char can be viewed as a std::string_view
+        static constexpr bool is_contiguous_view = std::contiguous_iterator<Iter> && std::is_same_v<std::iter_value_t<Iter>, char>;
 
         constexpr regex_capture_view() noexcept = default;
 
@@ -105,7 +106,7 @@ namespace meta
         }
 
         constexpr explicit(false) operator std::string_view() const noexcept
-        requires std::contiguous_iterator<Iter>
+        requires is_contiguous_view
         {
             return {_begin, _end};
         }
-- 
2.43.0


From ed03090fd6a7bd4725013c3cb6956eddb473f45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:06 +0000
Subject: [PATCH 17/17] fix: do not measure the distance between iterators of
 groups that took no part

---
 include/mregex/regex_capture.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/mregex/regex_capture.hpp b/include/mregex/regex_capture.hpp
index 7d0407b..1b81dc4 100644
--- a/include/mregex/regex_capture.hpp
+++ b/include/mregex/regex_capture.hpp
@@ -67,7 +67,8 @@ namespace meta
 
         constexpr auto length() const noexcept -> std::size_t
         {
-            return std::distance(_begin, _end);
+            // The iterators of a group that took no part in the match do not point into the input
+            return is_empty() ? 0 : std::distance(_begin, _end);
         }
 
         constexpr auto begin() const noexcept
@@ -85,7 +86,7 @@ namespace meta
             if constexpr (is_contiguous_view)
                 return std::string_view{_begin, _end};
             else
-                return std::string{_begin, _end};
+                return is_empty() ? std::string{} : std::string{_begin, _end};
         }
 
         constexpr auto &operator[](std::size_t index) noexcept
@@ -128,7 +129,7 @@ namespace meta
 
         template<std::forward_iterator Iter>
         explicit regex_capture(regex_capture_view<Iter, Name> const &capture_view)
-            : _capture{capture_view.begin(), capture_view.end()}
+            : _capture{capture_view.content()}
         {}
 
         bool is_empty() const noexcept
-- 
2.43.0

