From 9d20652bf38503331e71fc53c933922a81a5374c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:12 +0000
Subject: [PATCH 01/15] fix: keep the last captured content when a later
 attempt to match the group fails

A capturing group inside a repetition was cleared by the final failed iteration,
so "(a)*" matched "aa" with an empty group 1 and "(a)+\1" compared against an
empty capture. Restore the previous content instead of clearing it.
---
 include/mregex/ast/nodes/capture.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/mregex/ast/nodes/capture.hpp b/include/mregex/ast/nodes/capture.hpp
index e1e55df..4aeea8e 100644
--- a/include/mregex/ast/nodes/capture.hpp
+++ b/include/mregex/ast/nodes/capture.hpp
@@ -20,13 +20,15 @@ namespace meta::ast
         -> match_result<Iter>
         {
             auto continuation = [=, &ctx, &cont](Iter next) noexcept -> match_result<Iter> {
+                // An earlier iteration of this group may have captured content, which is restored on backtracking
+                auto const previous_capture = std::get<ID>(ctx.captures);
                 capture_matched_range(current, next, ctx);
-                return cont(next);
+                if (auto rest_match = cont(next))
+                    return rest_match;
+                std::get<ID>(ctx.captures) = previous_capture;
+                return non_match(next);
             };
-            if (auto inner_match = Inner::match(begin, end, current, ctx, continuation))
-                return inner_match;
-            std::get<ID>(ctx.captures).clear();
-            return non_match(current);
+            return Inner::match(begin, end, current, ctx, continuation);
         }
 
     private:
-- 
2.43.0


From 13f91e7bc1b860e7bb2084ab2412ca4cb3c6d9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:12 +0000
Subject: [PATCH 02/15] fix: give capturing groups in different alternatives
 different numbers

All alternatives were indexed from the same offset, so both groups of "(a)|(b)"
were number 1 and named groups in alternatives did not compile.
---
 include/mregex/ast/indexing.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/mregex/ast/indexing.hpp b/include/mregex/ast/indexing.hpp
index 26b3b81..5bb595e 100644
--- a/include/mregex/ast/indexing.hpp
+++ b/include/mregex/ast/indexing.hpp
@@ -60,6 +60,15 @@ namespace meta::ast
                 }(inner_offsets{}));
             };
 
+            template<typename... Nodes>
+            struct index<alternation<Nodes ...>>
+            {
+                using inner_offsets = capture_index_offsets_t<Offset, capture_count<Nodes> ...>;
+                using type = decltype([]<std::size_t... Offsets>(std::index_sequence<Offsets ...>) {
+                    return alternation<typename capture_indexer<Offsets>::template index<Nodes>::type ...>{};
+                }(inner_offsets{}));
+            };
+
             template<typename Node>
             using index_t = typename index<Node>::type;
         };
-- 
2.43.0


From 1d7f4b37e17a93dcc39c4b486909be2a388411b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:12 +0000
Subject: [PATCH 03/15] fix: mirror anchors when inverting the content of a
 lookbehind

Anchors inside a lookbehind are evaluated on reverse iterators, where begin and
end are swapped, so "(?<=^a)b" did not match "ab".
---
 include/mregex/ast/inversion.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/mregex/ast/inversion.hpp b/include/mregex/ast/inversion.hpp
index 6e0c7e6..518b972 100644
--- a/include/mregex/ast/inversion.hpp
+++ b/include/mregex/ast/inversion.hpp
@@ -31,6 +31,30 @@ namespace meta::ast
         using type = decltype(detail::to_sequence(reverse_t<type_sequence<invert_t<Nodes> ...>>{}));
     };
 
+    template<>
+    struct invert<beginning_of_line>
+    {
+        using type = end_of_line;
+    };
+
+    template<>
+    struct invert<beginning_of_input>
+    {
+        using type = end_of_input;
+    };
+
+    template<>
+    struct invert<end_of_line>
+    {
+        using type = beginning_of_line;
+    };
+
+    template<>
+    struct invert<end_of_input>
+    {
+        using type = beginning_of_input;
+    };
+
     template<typename Inner>
     struct invert<positive_lookahead<Inner>>
     {
-- 
2.43.0


From b26c3e10412693879cc0087ec18263193372641e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:12 +0000
Subject: [PATCH 04/15] fix: do not reparse the rest of the alternation after a
 literal '{'

Giving up on a quantifier pushed extra seq and alt symbols, so "xa{b|c" was
parsed as "x(?:a{b|c)".
---
 include/mregex/grammar/quantifiers.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/mregex/grammar/quantifiers.hpp b/include/mregex/grammar/quantifiers.hpp
index 254146e..07076ba 100644
--- a/include/mregex/grammar/quantifiers.hpp
+++ b/include/mregex/grammar/quantifiers.hpp
@@ -22,9 +22,7 @@ namespace meta::grammar
                 <
                     symbol::push_literal<C>,
                     symbol::mod,
-                    symbol::make_sequence,
-                    symbol::seq,
-                    symbol::alt
+                    symbol::make_sequence
                 >;
     };
 
-- 
2.43.0


From b0292a65edb1ea09eb1e551ed37a827f2f8b830a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:12 +0000
Subject: [PATCH 05/15] fix: leave group 0 empty when match() or match_prefix()
 fails

A failed match exposed the range up to the position where matching stopped.
---
 include/mregex/regex_methods.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/mregex/regex_methods.hpp b/include/mregex/regex_methods.hpp
index 7d80024..239753a 100644
--- a/include/mregex/regex_methods.hpp
+++ b/include/mregex/regex_methods.hpp
@@ -20,7 +20,8 @@ namespace meta
         static constexpr auto invoke(Iter begin, Iter end, Iter current, Context &ctx) noexcept -> ast::match_result<Iter>
         {
             auto result = ast_type::match(begin, end, current, ctx, continuations<Iter>::equals(end));
-            std::get<0>(ctx.captures) = regex_capture_view<Iter>{current, result.end};
+            if (result.matched)
+                std::get<0>(ctx.captures) = regex_capture_view<Iter>{current, result.end};
             return result;
         }
     };
@@ -38,7 +39,8 @@ namespace meta
         static constexpr auto invoke(Iter begin, Iter end, Iter current, Context &ctx) noexcept -> ast::match_result<Iter>
         {
             auto result = ast_type::match(begin, end, current, ctx, continuations<Iter>::success);
-            std::get<0>(ctx.captures) = regex_capture_view<Iter>{current, result.end};
+            if (result.matched)
+                std::get<0>(ctx.captures) = regex_capture_view<Iter>{current, result.end};
             return result;
         }
     };
-- 
2.43.0


From 074136b319edde62ec6c31b7df1658670a7066ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:12 +0000
Subject: [PATCH 06/15] fix: make the post-increment operator of result range
 iterators compile

---
 .../mregex/utility/input_range_adapter.hpp    | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/mregex/utility/input_range_adapter.hpp b/include/mregex/utility/input_range_adapter.hpp
index e85fbba..d68e6d6 100644
--- a/include/mregex/utility/input_range_adapter.hpp
+++ b/include/mregex/utility/input_range_adapter.hpp
@@ -43,6 +43,16 @@ namespace meta
              */
             constexpr iterator() noexcept = default;
 
+            struct old_value
+            {
+                value_type value;
+
+                constexpr reference operator*() noexcept
+                {
+                    return value;
+                }
+            };
+
             constexpr iterator(input_range_adapter<Generator> &generator) noexcept
                 : _target{&generator}
             {}
@@ -63,11 +73,15 @@ namespace meta
                 return *this;
             }
 
-            constexpr iterator operator++(int) noexcept(is_nothrow_invocable)
+            /**
+             * All iterators of the range share the current result, so the value which was
+             * pointed to before the increment has to be stored in the returned object.
+             */
+            constexpr auto operator++(int)
             {
-                iterator old_iter{_target};
+                old_value old{_target->current_result()};
                 this->operator++();
-                return old_iter;
+                return old;
             }
 
             constexpr explicit operator bool() const noexcept
-- 
2.43.0


From 79a4eb55744e37441b1bf479e0fb237c271aa229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:12 +0000
Subject: [PATCH 07/15] fix: allow backreferences on forward iterators

Only lookbehinds need to reverse the captured range.
---
 include/mregex/ast/nodes/terminals/backref.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mregex/ast/nodes/terminals/backref.hpp b/include/mregex/ast/nodes/terminals/backref.hpp
index badc6f1..685a929 100644
--- a/include/mregex/ast/nodes/terminals/backref.hpp
+++ b/include/mregex/ast/nodes/terminals/backref.hpp
@@ -59,7 +59,7 @@ namespace meta::ast
         }
 
     private:
-        template<bool Condition, std::ranges::bidirectional_range Range>
+        template<bool Condition, std::ranges::forward_range Range>
         static constexpr auto reverse_if(Range &range) noexcept
         {
             if constexpr (Condition)
-- 
2.43.0


From d5a3dcb48b80ed4430a319d62b06795e5e09b829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:35 +0000
Subject: [PATCH 08/15] fix: do not use the literals of the \R class as range
 bounds in sets

The members of \R were merged into the set, so "[\R-a]" became the range \n-a
instead of the class, '-' and 'a' (as it is done for all other classes).
---
 include/mregex/ast/build.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/mregex/ast/build.hpp b/include/mregex/ast/build.hpp
index 7e0fc85..e04ee5e 100644
--- a/include/mregex/ast/build.hpp
+++ b/include/mregex/ast/build.hpp
@@ -217,6 +217,13 @@ namespace meta::ast
         using type = type_sequence<set<First ..., Second ...>, Rest ...>;
     };
 
+    // A class that begins with a literal stays nested, its literals must not be taken for the bound of a range
+    template<typename Token, char C, typename... First, typename... Second, typename... Rest>
+    struct build<symbol::make_set_from_stack, Token, type_sequence<set<literal<C>, First ...>, set<Second ...>, Rest ...>>
+    {
+        using type = type_sequence<set<set<literal<C>, First ...>, Second ...>, Rest ...>;
+    };
+
     // Create a range inside the set
     template<char A, char B, typename... Second, typename... Rest>
     struct build<symbol::make_range, symbol::character<A>, type_sequence<set<literal<B>, Second ...>, Rest ...>>
-- 
2.43.0


From fa1662b4b22cbf8a9cf4a9e9dcaa586e43dd92ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:35 +0000
Subject: [PATCH 09/15] fix: support the multiline '^' anchor on forward
 iterators

std::prev on an iterator that is not bidirectional is undefined behavior.
---
 include/mregex/ast/predicates/anchor_predicates.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/mregex/ast/predicates/anchor_predicates.hpp b/include/mregex/ast/predicates/anchor_predicates.hpp
index 7b58fa1..ae6c12b 100644
--- a/include/mregex/ast/predicates/anchor_predicates.hpp
+++ b/include/mregex/ast/predicates/anchor_predicates.hpp
@@ -16,11 +16,22 @@ namespace meta::ast::predicates
                 return true;
             if constexpr (Mode == line_mode::multiline && Context::flags::multiline)
             {
-                if (linebreak::match_one(*std::prev(current), ctx))
+                if (linebreak::match_one(*previous(begin, current), ctx))
                     return true;
             }
             return false;
         }
+
+    private:
+        template<std::forward_iterator Iter>
+        static constexpr auto previous(Iter begin, Iter current) noexcept -> Iter
+        {
+            if constexpr (std::bidirectional_iterator<Iter>)
+                return std::prev(current);
+            while (std::next(begin) != current)
+                ++begin;
+            return begin;
+        }
     };
 
     template<line_mode Mode>
-- 
2.43.0


From f79cdd39401a805cd3e042fa670b146d84ec3104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:35 +0000
Subject: [PATCH 10/15] fix: match the content of lookarounds nested inside a
 lookbehind in the right order

The content of a lookaround inside a lookbehind was matched mirrored, so
"(?<=a(?=bc))b" did not match in "abc" and "(?<=(?<=ab)c)d" did not match
in "abcd". Captures inside of such lookarounds did not compile.
---
 .../ast/predicates/lookaround_predicate.hpp   | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/mregex/ast/predicates/lookaround_predicate.hpp b/include/mregex/ast/predicates/lookaround_predicate.hpp
index 637a452..136b061 100644
--- a/include/mregex/ast/predicates/lookaround_predicate.hpp
+++ b/include/mregex/ast/predicates/lookaround_predicate.hpp
@@ -7,13 +7,21 @@
 
 namespace meta::ast::predicates
 {
+    /**
+     * @note Inverting an AST flips the direction of the lookarounds inside it but does not touch their content,
+     * which is always stored in source order. Inside of a lookbehind, where the input is accessed through
+     * reverse iterators, content has to be inverted by a lookahead and left as it is by a lookbehind.
+     */
     template<typename Inner>
     struct lookahead_predicate
     {
         template<std::forward_iterator Iter, typename Context>
         static constexpr bool is_match(Iter begin, Iter end, Iter current, Context &ctx) noexcept
         {
-            auto inner_match = Inner::match(begin, end, current, ctx, continuations<Iter>::success);
+            constexpr bool is_reversed = !std::is_same_v<Iter, typename Context::iterator>;
+            using ast_type = typename std::conditional_t<is_reversed, invert<Inner>, std::type_identity<Inner>>::type;
+
+            auto inner_match = ast_type::match(begin, end, current, ctx, continuations<Iter>::success);
             return inner_match.matched;
         }
 
@@ -42,6 +50,17 @@ namespace meta::ast::predicates
             return result.matched;
         }
 
+        template<std::bidirectional_iterator Iter, typename Context>
+        static constexpr bool is_match(Iter begin, Iter end, Iter current, Context &ctx) noexcept
+        requires (!is_trivially_matchable<Inner> && std::is_same_v<Iter, std::reverse_iterator<typename Context::iterator>>)
+        {
+            // Already matching backwards, the reverse direction is the original one
+            using iterator = typename Context::iterator;
+
+            auto result = Inner::match(end.base(), begin.base(), current.base(), ctx, continuations<iterator>::success);
+            return result.matched;
+        }
+
         template<std::bidirectional_iterator Iter, typename Context>
         static constexpr bool is_match(Iter begin, Iter /*end*/, Iter current, Context &ctx) noexcept
         requires is_trivially_matchable<Inner>
-- 
2.43.0


From 845060d7f6f1be6f7bb9967b05547ea809abec33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:49 +0000
Subject: [PATCH 11/15] fix: undo captures of atomic groups, possessive
 quantifiers and lookarounds on backtracking

These nodes are never backtracked into, so the content stored by groups inside
them was kept even if the branch was abandoned: "(?:(?>(a))b|ac)" matched "ac"
with "a" in group 1. Restore the captures if the rest of the regex fails, and
if the content of a negative lookaround matches.
---
 include/mregex/ast/nodes/assertion.hpp        |  8 +++-
 .../nodes/quantifiers/fixed_repetition.hpp    | 15 ++++++-
 .../ast/nodes/quantifiers/repetition.hpp      |  7 +++-
 .../ast/predicates/lookaround_predicate.hpp   |  6 +++
 include/mregex/ast/predicates/negate.hpp      |  7 +++-
 include/mregex/utility/capture_snapshot.hpp   | 41 +++++++++++++++++++
 6 files changed, 79 insertions(+), 5 deletions(-)
 create mode 100644 include/mregex/utility/capture_snapshot.hpp

diff --git a/include/mregex/ast/nodes/assertion.hpp b/include/mregex/ast/nodes/assertion.hpp
index 5d634d3..dc777ae 100644
--- a/include/mregex/ast/nodes/assertion.hpp
+++ b/include/mregex/ast/nodes/assertion.hpp
@@ -3,6 +3,7 @@
 
 #include <mregex/ast/match_result.hpp>
 #include <mregex/ast/traits.hpp>
+#include <mregex/utility/capture_snapshot.hpp>
 #include <mregex/utility/continuations.hpp>
 
 namespace meta::ast
@@ -23,8 +24,13 @@ namespace meta::ast
         static constexpr auto match(Iter begin, Iter end, Iter current, Context &ctx, Cont &&cont) noexcept
         -> match_result<Iter>
         {
+            capture_snapshot<Predicate, Context> snapshot{ctx};
             if (Predicate::is_match(begin, end, current, ctx))
-                return cont(current);
+            {
+                if (auto rest_match = cont(current))
+                    return rest_match;
+                snapshot.restore(ctx);
+            }
             return non_match(current);
         }
     };
diff --git a/include/mregex/ast/nodes/quantifiers/fixed_repetition.hpp b/include/mregex/ast/nodes/quantifiers/fixed_repetition.hpp
index e45f774..719578d 100644
--- a/include/mregex/ast/nodes/quantifiers/fixed_repetition.hpp
+++ b/include/mregex/ast/nodes/quantifiers/fixed_repetition.hpp
@@ -4,6 +4,7 @@
 #include <mregex/ast/nodes/terminals/empty.hpp>
 #include <mregex/ast/match_result.hpp>
 #include <mregex/ast/traits.hpp>
+#include <mregex/utility/capture_snapshot.hpp>
 #include <mregex/utility/continuations.hpp>
 #include <mregex/utility/distance.hpp>
 
@@ -29,8 +30,13 @@ namespace meta::ast
         static constexpr auto possessive_match(Iter begin, Iter end, Iter current, Context &ctx, Cont &&cont) noexcept
         -> match_result<Iter>
         {
+            capture_snapshot<Inner, Context> snapshot{ctx};
             if (auto result = backtracking_match(begin, end, current, ctx, continuations<Iter>::success))
-                return cont(result.end);
+            {
+                if (auto rest_match = cont(result.end))
+                    return rest_match;
+                snapshot.restore(ctx);
+            }
             return non_match(current);
         }
 
@@ -142,8 +148,13 @@ namespace meta::ast
         static constexpr auto match(Iter begin, Iter end, Iter current, Context &ctx, Cont &&cont) noexcept
         -> match_result<Iter>
         {
+            capture_snapshot<Inner, Context> snapshot{ctx};
             if (auto inner_match = Inner::match(begin, end, current, ctx, continuations<Iter>::success))
-                return cont(inner_match.end);
+            {
+                if (auto rest_match = cont(inner_match.end))
+                    return rest_match;
+                snapshot.restore(ctx);
+            }
             return non_match(current);
         }
     };
diff --git a/include/mregex/ast/nodes/quantifiers/repetition.hpp b/include/mregex/ast/nodes/quantifiers/repetition.hpp
index ff5a6c8..0187cf4 100644
--- a/include/mregex/ast/nodes/quantifiers/repetition.hpp
+++ b/include/mregex/ast/nodes/quantifiers/repetition.hpp
@@ -4,6 +4,7 @@
 #include <mregex/ast/astfwd.hpp>
 #include <mregex/ast/match_result.hpp>
 #include <mregex/ast/traits.hpp>
+#include <mregex/utility/capture_snapshot.hpp>
 #include <mregex/utility/continuations.hpp>
 
 namespace meta::ast
@@ -51,6 +52,7 @@ namespace meta::ast
         static constexpr auto bounded_possessive_match(Iter begin, Iter end, Iter current, Context &ctx, Cont &&cont) noexcept
         -> match_result<Iter>
         {
+            capture_snapshot<Inner, Context> snapshot{ctx};
             for (std::size_t match_count = 0; !symbol::equals<Bound>(match_count); ++match_count)
             {
                 auto inner_match = Inner::match(begin, end, current, ctx, continuations<Iter>::success);
@@ -58,7 +60,10 @@ namespace meta::ast
                     break;
                 current = inner_match.end;
             }
-            return cont(current);
+            auto rest_match = cont(current);
+            if (!rest_match)
+                snapshot.restore(ctx);
+            return rest_match;
         }
 
         template<symbol::quantifier Bound, std::forward_iterator Iter, typename Context, match_continuation<Iter> Cont>
diff --git a/include/mregex/ast/predicates/lookaround_predicate.hpp b/include/mregex/ast/predicates/lookaround_predicate.hpp
index 136b061..a955891 100644
--- a/include/mregex/ast/predicates/lookaround_predicate.hpp
+++ b/include/mregex/ast/predicates/lookaround_predicate.hpp
@@ -79,4 +79,10 @@ namespace meta::ast::predicates
     template<typename Inner>
     struct lookaround_predicate<lookaround_direction::behind, Inner> : lookbehind_predicate<Inner> {};
 }
+
+namespace meta::ast
+{
+    template<lookaround_direction Direction, typename Inner>
+    inline constexpr std::size_t capture_count<predicates::lookaround_predicate<Direction, Inner>> = capture_count<Inner>;
+}
 #endif //MREGEX_PREDICATES_LOOKAROUND_PREDICATE_HPP
\ No newline at end of file
diff --git a/include/mregex/ast/predicates/negate.hpp b/include/mregex/ast/predicates/negate.hpp
index b736e06..14f417b 100644
--- a/include/mregex/ast/predicates/negate.hpp
+++ b/include/mregex/ast/predicates/negate.hpp
@@ -2,6 +2,7 @@
 #define MREGEX_PREDICATES_NEGATE_HPP
 
 #include <iterator>
+#include <mregex/utility/capture_snapshot.hpp>
 
 namespace meta::ast::predicates
 {
@@ -11,7 +12,11 @@ namespace meta::ast::predicates
         template<std::forward_iterator Iter, typename Context>
         static constexpr bool is_match(Iter begin, Iter end, Iter current, Context &ctx) noexcept
         {
-            return !Predicate::is_match(begin, end, current, ctx);
+            capture_snapshot<Predicate, Context> snapshot{ctx};
+            if (!Predicate::is_match(begin, end, current, ctx))
+                return true;
+            snapshot.restore(ctx);
+            return false;
         }
     };
 }
diff --git a/include/mregex/utility/capture_snapshot.hpp b/include/mregex/utility/capture_snapshot.hpp
new file mode 100644
index 0000000..638388b
--- /dev/null
+++ b/include/mregex/utility/capture_snapshot.hpp
@@ -0,0 +1,41 @@
+#ifndef MREGEX_UTILITY_CAPTURE_SNAPSHOT_HPP
+#define MREGEX_UTILITY_CAPTURE_SNAPSHOT_HPP
+
+#include <mregex/ast/traits.hpp>
+
+namespace meta
+{
+    /**
+     * Saves the content of all capturing groups before matching an AST node that is never backtracked into.
+     * Such a node cannot undo its own captures, so they must be restored if the rest of the regex does not match.
+     * Does nothing when the node has no capturing groups.
+     *
+     * @tparam Node     The AST node to be matched
+     * @tparam Context  The match context that holds the captures
+     */
+    template<typename Node, typename Context>
+    struct capture_snapshot
+    {
+        constexpr explicit capture_snapshot(Context const &) noexcept {}
+
+        constexpr void restore(Context &) const noexcept {}
+    };
+
+    template<typename Node, typename Context>
+    requires (ast::capture_count<Node> > 0)
+    struct capture_snapshot<Node, Context>
+    {
+        constexpr explicit capture_snapshot(Context const &ctx) noexcept
+            : _captures{ctx.captures}
+        {}
+
+        constexpr void restore(Context &ctx) const noexcept
+        {
+            ctx.captures = _captures;
+        }
+
+    private:
+        decltype(Context::captures) _captures;
+    };
+}
+#endif //MREGEX_UTILITY_CAPTURE_SNAPSHOT_HPP
-- 
2.43.0


From dae831f9a3684d6633fb41fdee07c1b6ad9bf635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:16 +0000
Subject: [PATCH 12/15] fix: read and copy empty groups of results over node
 based containers

The distance between value-initialized std::list iterators cannot be computed
with libstdc++: a failed match of an expiring list crashed.
---
 include/mregex/regex_capture.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/mregex/regex_capture.hpp b/include/mregex/regex_capture.hpp
index d5ed574..12b64d2 100644
--- a/include/mregex/regex_capture.hpp
+++ b/include/mregex/regex_capture.hpp
@@ -66,7 +66,8 @@ namespace meta
 
         constexpr auto length() const noexcept -> std::size_t
         {
-            return std::distance(_begin, _end);
+            // the distance between value-initialized iterators of a group that was not captured may not be available
+            return is_empty() ? 0 : std::distance(_begin, _end);
         }
 
         constexpr auto begin() const noexcept
@@ -84,7 +85,7 @@ namespace meta
             if constexpr (is_contiguous_view)
                 return std::string_view{_begin, _end};
             else
-                return std::string{_begin, _end};
+                return is_empty() ? std::string{} : std::string{_begin, _end};
         }
 
         constexpr auto &operator[](std::size_t index) noexcept
@@ -127,7 +128,7 @@ namespace meta
 
         template<std::forward_iterator Iter>
         explicit regex_capture(regex_capture_view<Iter, Name> const &capture_view)
-            : _capture{capture_view.begin(), capture_view.end()}
+            : _capture{capture_view.is_empty() ? std::string{} : std::string{capture_view.begin(), capture_view.end()}}
         {}
 
         bool is_empty() const noexcept
-- 
2.43.0


From 19ba70b1b60e933784fc381510325151b5d13cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:22 +0000
Subject: [PATCH 13/15] fix: reject patterns that end right after the opening
 of a group

The parser has to give a syntax error instead of failing to instantiate when
the content of a lookaround, atomic or named group is missing at the end.
---
 include/mregex/grammar/grammar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mregex/grammar/grammar.hpp b/include/mregex/grammar/grammar.hpp
index fe73b06..0aaba67 100644
--- a/include/mregex/grammar/grammar.hpp
+++ b/include/mregex/grammar/grammar.hpp
@@ -574,7 +574,7 @@ namespace meta::grammar
     template<>
     struct rule<symbol::group_begin, symbol::empty>
     {
-        using type = ignore;
+        using type = reject;
     };
 
     template<>
-- 
2.43.0


From 6fa0fe0ec397d7a45758cab0a0c7feb6c688dba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:17 +0000
Subject: [PATCH 14/15] fix: make content() of const expiring captures compile

---
 include/mregex/regex_capture.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mregex/regex_capture.hpp b/include/mregex/regex_capture.hpp
index 12b64d2..1a4b9dd 100644
--- a/include/mregex/regex_capture.hpp
+++ b/include/mregex/regex_capture.hpp
@@ -178,7 +178,7 @@ namespace meta
 
         auto const &&content() const && noexcept
         {
-            return _capture;
+            return std::move(_capture);
         }
 
         auto &operator[](std::size_t index) noexcept
-- 
2.43.0


From c6fa2294e15adff3e0c65bd2e7376b0c6bce4391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:34 +0000
Subject: [PATCH 15/15] fix: step back over C++20 iterators whose legacy
 category is input

std::prev() goes by iterator_category, which is std::input_iterator_tag for iterators
that model std::bidirectional_iterator but return prvalues (e.g. std::views::transform).
It never returned for them.
---
 include/mregex/ast/predicates/anchor_predicates.hpp    | 4 ++--
 include/mregex/ast/predicates/lookaround_predicate.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mregex/ast/predicates/anchor_predicates.hpp b/include/mregex/ast/predicates/anchor_predicates.hpp
index ae6c12b..86401c3 100644
--- a/include/mregex/ast/predicates/anchor_predicates.hpp
+++ b/include/mregex/ast/predicates/anchor_predicates.hpp
@@ -27,7 +27,7 @@ namespace meta::ast::predicates
         static constexpr auto previous(Iter begin, Iter current) noexcept -> Iter
         {
             if constexpr (std::bidirectional_iterator<Iter>)
-                return std::prev(current);
+                return std::ranges::prev(current);
             while (std::next(begin) != current)
                 ++begin;
             return begin;
@@ -56,7 +56,7 @@ namespace meta::ast::predicates
         template<std::bidirectional_iterator Iter, typename Context>
         static constexpr bool is_match(Iter begin, Iter end, Iter current, Context &ctx) noexcept
         {
-            bool is_word_behind = current != begin && word::match_one(*std::prev(current), ctx);
+            bool is_word_behind = current != begin && word::match_one(*std::ranges::prev(current), ctx);
             bool is_word_ahead = current != end && word::match_one(*current, ctx);
             return is_word_behind ^ is_word_ahead;
         }
diff --git a/include/mregex/ast/predicates/lookaround_predicate.hpp b/include/mregex/ast/predicates/lookaround_predicate.hpp
index a955891..044cb75 100644
--- a/include/mregex/ast/predicates/lookaround_predicate.hpp
+++ b/include/mregex/ast/predicates/lookaround_predicate.hpp
@@ -66,7 +66,7 @@ namespace meta::ast::predicates
         requires is_trivially_matchable<Inner>
         {
             // For trivially matchable nodes, a single step backwards is enough
-            return current != begin && Inner::match_one(*std::prev(current), ctx);
+            return current != begin && Inner::match_one(*std::ranges::prev(current), ctx);
         }
     };
 
-- 
2.43.0

