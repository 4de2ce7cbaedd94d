From 946608f1f95d84d406f6935d87bf8391aed81b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:38 +0000
Subject: [PATCH 01/28] fix: wiki_sort no longer constructs over live elements
 of its cache

The small-merge path built elements with placement new on top of the live
elements of the cache, then destroyed them, leaving dead elements for the
rest of the sort and for the destructor of the buffer.
---
 include/cpp-sort/detail/wiki_sort.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/detail/wiki_sort.h b/include/cpp-sort/detail/wiki_sort.h
index 23fa5e7..c77f57c 100644
--- a/include/cpp-sort/detail/wiki_sort.h
+++ b/include/cpp-sort/detail/wiki_sort.h
@@ -492,8 +492,12 @@ namespace detail
                                 detail::rotate(A.start, A.end, B.end);
                             } else if (comp(proj(*B.start), proj(*std::prev(A.end)))) {
                                 // these two ranges weren't already in order, so we need to merge them
-                                buffered_inplace_merge(A.start, A.end, B.end, compare, projection,
-                                                       A.length(), B.length(), cache_begin);
+                                // (the cache already contains live elements, so A has to be move-assigned to it)
+                                detail::move(A.start, A.end, cache_begin);
+                                half_inplace_merge(cache_begin, cache_begin + A.length(),
+                                                   B.start, B.end, A.start,
+                                                   (std::min)(A.length(), B.length()),
+                                                   compare, projection);
                             }
                         }
                     }
-- 
2.43.0


From a4f9a8eeaa8c4c7dbd7d0dd2cec5dbbbbd3bd108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:38 +0000
Subject: [PATCH 02/28] fix: container_aware_adapter<merge_sorter> merges lists
 stably

merge() favours the elements of *this when elements are equivalent, so the
left part has to be the one into which the right part is merged.
---
 include/cpp-sort/detail/container_aware/merge_sort.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/detail/container_aware/merge_sort.h b/include/cpp-sort/detail/container_aware/merge_sort.h
index 5bf3c75..127c252 100644
--- a/include/cpp-sort/detail/container_aware/merge_sort.h
+++ b/include/cpp-sort/detail/container_aware/merge_sort.h
@@ -42,8 +42,10 @@ namespace cppsort
             // Recursively sort, then merge
             list_merge_sort(left, compare, projection);
             list_merge_sort(collection, compare, projection);
-            collection.merge(std::move(left), make_projection_compare(std::move(compare),
-                                                                      std::move(projection)));
+            // The left part has to come first for the merge to be stable
+            left.merge(collection, make_projection_compare(std::move(compare),
+                                                           std::move(projection)));
+            collection.swap(left);
         }
 
         template<typename Compare, typename Projection,
@@ -63,8 +65,10 @@ namespace cppsort
             // Recursively sort, then merge
             flist_merge_sort(left, size / 2, compare, projection);
             flist_merge_sort(collection, size - size / 2, compare, projection);
-            collection.merge(std::move(left), make_projection_compare(std::move(compare),
-                                                                      std::move(projection)));
+            // The left part has to come first for the merge to be stable
+            left.merge(collection, make_projection_compare(std::move(compare),
+                                                           std::move(projection)));
+            collection.swap(left);
         }
     }
 
-- 
2.43.0


From 049b8a1b5ecaa8183f4313715329d798b634fcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:42 +0000
Subject: [PATCH 03/28] fix: spin_sorter no longer reads past the end of the
 collection

merge_half() could ask for more blind merge steps than there were elements
in its second range when the first one is longer.
---
 include/cpp-sort/detail/boost_common/util/merge.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/boost_common/util/merge.h b/include/cpp-sort/detail/boost_common/util/merge.h
index ce26079..4ed06e1 100644
--- a/include/cpp-sort/detail/boost_common/util/merge.h
+++ b/include/cpp-sort/detail/boost_common/util/merge.h
@@ -20,6 +20,7 @@
 #define CPPSORT_DETAIL_BOOST_COMMON_UTIL_MERGE_H_
 
 #include <algorithm>
+#include <cstddef>
 #include <functional>
 #include <iterator>
 #include <memory>
@@ -131,7 +132,8 @@ namespace util
         }
 
         cppsort::detail::half_inplace_merge(buf1, end_buf1, buf2, end_buf2, buf_out,
-                                            end_buf1 - buf1, compare, projection);
+                                            std::min<std::ptrdiff_t>(end_buf1 - buf1, end_buf2 - buf2),
+                                            compare, projection);
         return end_buf2;
     }
 }}}}
-- 
2.43.0


From 6c2e6173ffef4387e7b66660918a36f9565eba0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 04/28] fix: forward merge no longer reads past the end when
 memory is short

recmerge() could ask for more blind merge steps than there were elements in
the right range when a small buffer forced it to split unevenly.
---
 include/cpp-sort/detail/recmerge_forward.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/recmerge_forward.h b/include/cpp-sort/detail/recmerge_forward.h
index 333711e..37b6e86 100644
--- a/include/cpp-sort/detail/recmerge_forward.h
+++ b/include/cpp-sort/detail/recmerge_forward.h
@@ -25,6 +25,7 @@
 ////////////////////////////////////////////////////////////
 // Headers
 ////////////////////////////////////////////////////////////
+#include <algorithm>
 #include <iterator>
 #include <memory>
 #include <utility>
@@ -116,7 +117,7 @@ namespace detail
 
             half_inplace_merge(
                 buffer, buff_ptr, f1, std::next(f1, n1), f0,
-                n0, std::move(compare), std::move(projection)
+                (std::min)(n0, n1), std::move(compare), std::move(projection)
             );
             return;
         }
-- 
2.43.0


From 3785c1dc7407d6913aa713c95df37bb04d8b6a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 05/28] fix: fixed_size_list merges keep lists valid when a
 comparison throws

When a comparison or projection threw during a merge, the spliced nodes were
still linked from the other list, which corrupted memory or crashed when the
lists of mel_sorter and slab_sorter were destroyed.
---
 include/cpp-sort/detail/fixed_size_list.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/cpp-sort/detail/fixed_size_list.h b/include/cpp-sort/detail/fixed_size_list.h
index 6ac8710..4ffdc09 100644
--- a/include/cpp-sort/detail/fixed_size_list.h
+++ b/include/cpp-sort/detail/fixed_size_list.h
@@ -669,6 +669,10 @@ namespace detail
                             ++other_it;
                         } while (other_it != other_end && comp(proj(*other_it), proj(*first)));
                         fast_splice_(first, insert_begin, other_it);
+                        // Unlink the spliced nodes from the other list: both lists
+                        // have to be valid if a comparison or projection throws
+                        other.sentinel_node_.next = other_it.base();
+                        other_it.base()->prev = &other.sentinel_node_;
                     } else {
                         ++first;
                     }
@@ -733,6 +737,9 @@ namespace detail
                         } while (other_it != other_end && comp(proj(*other_it), proj(*first)));
                         first.base()->prev->next = insert_first.base();
                         insert_last.base()->next = first.base();
+                        // Unlink the spliced nodes from the other list: no node can
+                        // be in both lists if a comparison or projection throws
+                        other.sentinel_node_.next = other_it.base();
                     } else {
                         ++first;
                     }
-- 
2.43.0


From 2ae9d0963e44611794eb26f3be27b378549422b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 06/28] fix: slab_sorter no longer leaks elements when a move
 throws

---
 include/cpp-sort/detail/slabsort.h | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/cpp-sort/detail/slabsort.h b/include/cpp-sort/detail/slabsort.h
index a647535..0eb2283 100644
--- a/include/cpp-sort/detail/slabsort.h
+++ b/include/cpp-sort/detail/slabsort.h
@@ -199,12 +199,24 @@ namespace detail
         // Reify encroaching lists
 
         for (auto& list : lists) {
-            // TODO: handle destruction when an exception is thrown during the loop
-            for (auto it = list.begin(), end = list.end() ; it != end ; ++it) {
-                auto node = it.base();
-                auto value_it = node->it;
-                detail::destroy_at(&node->it);
-                ::new(&node->value) rvalue_type(iter_move(value_it));
+            auto it = list.begin();
+            try {
+                for (auto end = list.end() ; it != end ; ++it) {
+                    auto node = it.base();
+                    auto value_it = node->it;
+                    detail::destroy_at(&node->it);
+                    ::new(&node->value) rvalue_type(iter_move(value_it));
+                }
+            } catch (...) {
+                // The nodes before it hold a value and the node at it holds nothing,
+                // make them all hold iterators again to match the node destructor
+                for (auto value_node = list.begin() ; value_node != it ; ++value_node) {
+                    auto node = value_node.base();
+                    detail::destroy_at(&node->value);
+                    ::new(&node->it) BidirectionalIterator();
+                }
+                ::new(&it.base()->it) BidirectionalIterator();
+                throw;
             }
             list.set_node_destructor(destroy_node_contents<rvalue_type, node_type, &node_type::value>);
         }
-- 
2.43.0


From 4102139bd64838f3383b4d61055f4fad227970db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 07/28] fix: throwing moves no longer terminate in
 schwartz_adapter and make_stable

association's move assignment moves user elements, it can't be noexcept.
---
 include/cpp-sort/detail/associate_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/associate_iterator.h b/include/cpp-sort/detail/associate_iterator.h
index 2d70e74..81c9d5a 100644
--- a/include/cpp-sort/detail/associate_iterator.h
+++ b/include/cpp-sort/detail/associate_iterator.h
@@ -64,7 +64,7 @@ namespace detail
             data(std::move(data))
         {}
 
-        auto operator=(association&& other) noexcept
+        auto operator=(association&& other)
             -> association&
         {
             *it = std::move(*other.it);
-- 
2.43.0


From 006d0fae82f87b815fc51853604e65c0741588f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:27 +0000
Subject: [PATCH 08/28] fix: vergesort rotates one-element runs inside of their
 own pair of runs

When the left run of a pair had a single element, merge_runs() rotated
everything from the beginning of the collection instead of the beginning of
the pair, leaving the collection unsorted.
---
 include/cpp-sort/detail/vergesort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/vergesort.h b/include/cpp-sort/detail/vergesort.h
index 8671b5a..9144953 100644
--- a/include/cpp-sort/detail/vergesort.h
+++ b/include/cpp-sort/detail/vergesort.h
@@ -67,7 +67,7 @@ namespace verge
                     auto&& target = proj(*begin);
                     if (comp(proj(*it->end), target)) {
                         auto insert_it = detail::lower_bound_n(it->end, next_it->size, target, compare, projection);
-                        detail::rotate_left(first, insert_it);
+                        detail::rotate_left(begin, insert_it);
                     } else {
                     }
                 } else if (next_it->size == 1) {
-- 
2.43.0


From 8421083112389ac5b92a7ca04ca476dfe5b9ad16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 09/28] fix: grail_sorter no longer loses elements with a
 buffer of one element

---
 include/cpp-sort/detail/grail_sort.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/grail_sort.h b/include/cpp-sort/detail/grail_sort.h
index 834d418..d3ec2e6 100644
--- a/include/cpp-sort/detail/grail_sort.h
+++ b/include/cpp-sort/detail/grail_sort.h
@@ -477,7 +477,9 @@ namespace grail
         }
 
         difference_type h;
-        if (kbuf) {
+        // The first pass shifts the elements by two positions,
+        // it needs a buffer of at least two elements
+        if (kbuf > 1) {
             detail::move(first - kbuf, first, extbuf);
             for (difference_type m = 1 ; m < size ; m += 2) {
                 difference_type u = 0;
-- 
2.43.0


From 4e2354f130fc8cd71ded38e4d048021d6f2dab6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:22 +0000
Subject: [PATCH 10/28] fix: forward merge no longer calls a moved-from
 comparison or projection

---
 include/cpp-sort/detail/recmerge_forward.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/detail/recmerge_forward.h b/include/cpp-sort/detail/recmerge_forward.h
index 37b6e86..9ca2f49 100644
--- a/include/cpp-sort/detail/recmerge_forward.h
+++ b/include/cpp-sort/detail/recmerge_forward.h
@@ -62,7 +62,7 @@ namespace detail
         f0_0 = std::move(f0);
         n0_0 = n0 / 2;
         f0_1 = std::next(f0_0, n0_0);
-        f1_1 = lower_bound_n(f1, n1, proj(*f0_1), std::move(compare), std::move(projection));
+        f1_1 = lower_bound_n(f1, n1, proj(*f0_1), compare, projection);
         f1_0 = detail::rotate(f0_1, std::move(f1), f1_1);
         n0_1 = std::distance(f0_1, f1_0);
         ++f1_0;
@@ -85,7 +85,7 @@ namespace detail
         f0_0 = f0;
         n0_1 = n1 / 2;
         f1_1 = std::next(f1, n0_1);
-        f0_1 = upper_bound_n(f0, n0, proj(*f1_1), std::move(compare), std::move(projection));
+        f0_1 = upper_bound_n(f0, n0, proj(*f1_1), compare, projection);
         ++f1_1;
         f1_0 = detail::rotate(f0_1, std::move(f1), f1_1);
         n0_0 = std::distance(f0_0, f0_1);
-- 
2.43.0


From f426632868de3329ffb511fe8e18e62491533d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:22 +0000
Subject: [PATCH 11/28] fix: integer_sort no longer calls a moved-from
 projection

---
 include/cpp-sort/detail/spreadsort/integer_sort.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/detail/spreadsort/integer_sort.h b/include/cpp-sort/detail/spreadsort/integer_sort.h
index 0e97453..7ca5957 100644
--- a/include/cpp-sort/detail/spreadsort/integer_sort.h
+++ b/include/cpp-sort/detail/spreadsort/integer_sort.h
@@ -89,9 +89,11 @@ Some performance plots of runtime vs. n and log(range) are provided:\n
     if (last - first < detail::min_sort_size)
       pdqsort(std::move(first), std::move(last),
               std::less<>{}, std::move(projection));
-    else
+    else {
+      auto div = proj(*first) >> 0;
       detail::integer_sort(std::move(first), std::move(last),
-                           proj(*first) >> 0, std::move(projection));
+                           div, std::move(projection));
+    }
   }
 }}}
 
-- 
2.43.0


From bf8470dcea7253e8c813207f8831a99e11935904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 12/28] fix: move elements of reversed proxy iterators through
 their iter_move

The iter_move and iter_swap overloads for the iterator adapters of the
standard library were discarded for precisely the iterators that have
dedicated functions, and spin_sorter swapped through a mix of iterators
and reverse iterators that only std::iter_swap accepts.
---
 include/cpp-sort/detail/spinsort.h   |  6 ++--
 include/cpp-sort/utility/iter_move.h | 45 +++++++++++++++++++++++++---
 2 files changed, 43 insertions(+), 8 deletions(-)

diff --git a/include/cpp-sort/detail/spinsort.h b/include/cpp-sort/detail/spinsort.h
index e68abe4..a95c863 100644
--- a/include/cpp-sort/detail/spinsort.h
+++ b/include/cpp-sort/detail/spinsort.h
@@ -37,7 +37,7 @@
 #include "iterator_traits.h"
 #include "memory.h"
 #include "move.h"
-#include "swap_ranges.h"
+#include "reverse.h"
 #include "type_traits.h"
 #include "upper_bound.h"
 
@@ -168,9 +168,7 @@ namespace detail
             }
 
             // reverse the elements between first and it1
-            auto nreverse = it - rng_data.first;
-            auto mid = rng_data.first + nreverse / 2;
-            detail::swap_ranges_overlap(rng_data.first, mid, std::make_reverse_iterator(it));
+            detail::reverse(rng_data.first, it);
 
             // insert the elements between it1 and last
             if (it != rng_data.last) {
diff --git a/include/cpp-sort/utility/iter_move.h b/include/cpp-sort/utility/iter_move.h
index ed1d2ac..aa85e9e 100644
--- a/include/cpp-sort/utility/iter_move.h
+++ b/include/cpp-sort/utility/iter_move.h
@@ -59,6 +59,43 @@ namespace cppsort
         template<typename Iterator>
         constexpr bool has_iter_swap_v = detail::is_invocable_v<call_iter_swap, Iterator, Iterator>;
 
+        ////////////////////////////////////////////////////////////
+        // Check whether the iterator adapters of the standard library
+        // come with dedicated iter_move and iter_swap of their own: the
+        // poison pills prevent the unconstrained std::iter_swap from
+        // being mistaken for one
+
+        namespace dedicated_iter
+        {
+            template<typename Iterator>
+            void iter_move(Iterator) = delete;
+
+            template<typename Iterator1, typename Iterator2>
+            void iter_swap(Iterator1, Iterator2) = delete;
+
+            struct call_iter_move
+            {
+                template<typename Iterator>
+                auto operator()(Iterator it) const
+                    -> decltype(iter_move(it));
+            };
+
+            struct call_iter_swap
+            {
+                template<typename Iterator>
+                auto operator()(Iterator it1, Iterator it2) const
+                    -> decltype(iter_swap(it1, it2));
+            };
+        }
+
+        template<typename Iterator>
+        constexpr bool has_dedicated_iter_move_v
+            = detail::is_invocable_v<dedicated_iter::call_iter_move, Iterator>;
+
+        template<typename Iterator>
+        constexpr bool has_dedicated_iter_swap_v
+            = detail::is_invocable_v<dedicated_iter::call_iter_swap, Iterator, Iterator>;
+
         ////////////////////////////////////////////////////////////
         // Result type of a non-specialized iter_move call
 
@@ -123,7 +160,7 @@ namespace cppsort
         template<
             typename Iterator,
             typename = cppsort::detail::enable_if_t<
-                not cppsort::detail::has_iter_move_v<std::reverse_iterator<Iterator>>
+                not cppsort::detail::has_dedicated_iter_move_v<std::reverse_iterator<Iterator>>
             >
         >
         auto iter_move(const std::reverse_iterator<Iterator>& it)
@@ -135,7 +172,7 @@ namespace cppsort
         template<
             typename Iterator,
             typename = cppsort::detail::enable_if_t<
-                not cppsort::detail::has_iter_swap_v<std::reverse_iterator<Iterator>>
+                not cppsort::detail::has_dedicated_iter_swap_v<std::reverse_iterator<Iterator>>
             >
         >
         auto iter_swap(std::reverse_iterator<Iterator> lhs, std::reverse_iterator<Iterator> rhs)
@@ -150,7 +187,7 @@ namespace cppsort
         template<
             typename Iterator,
             typename = cppsort::detail::enable_if_t<
-                not cppsort::detail::has_iter_move_v<std::move_iterator<Iterator>>
+                not cppsort::detail::has_dedicated_iter_move_v<std::move_iterator<Iterator>>
             >
         >
         auto iter_move(const std::move_iterator<Iterator>& it)
@@ -162,7 +199,7 @@ namespace cppsort
         template<
             typename Iterator,
             typename = cppsort::detail::enable_if_t<
-                not cppsort::detail::has_iter_swap_v<std::move_iterator<Iterator>>
+                not cppsort::detail::has_dedicated_iter_swap_v<std::move_iterator<Iterator>>
             >
         >
         auto iter_swap(std::move_iterator<Iterator> lhs, std::move_iterator<Iterator> rhs)
-- 
2.43.0


From 2c4b1131b57f236e25a72b89f19f54a1c0cdf701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 13/28] fix: do not keep references to destroyed proxy
 references

A projection may return a reference to its argument, which dangles when
the argument is a temporary proxy reference returned by the iterator.
---
 include/cpp-sort/detail/adaptive_quickselect.h |  9 ++++++---
 include/cpp-sort/detail/cartesian_tree_sort.h  |  3 ++-
 .../detail/front_inserter/inserter10.h         |  4 +++-
 .../detail/front_inserter/inserter11.h         |  4 +++-
 .../cpp-sort/detail/front_inserter/inserter3.h |  4 +++-
 .../cpp-sort/detail/front_inserter/inserter4.h |  4 +++-
 .../cpp-sort/detail/front_inserter/inserter5.h |  4 +++-
 .../cpp-sort/detail/front_inserter/inserter6.h |  4 +++-
 .../cpp-sort/detail/front_inserter/inserter7.h |  4 +++-
 .../cpp-sort/detail/front_inserter/inserter8.h |  4 +++-
 .../cpp-sort/detail/front_inserter/inserter9.h |  4 +++-
 include/cpp-sort/detail/grail_sort.h           |  3 ++-
 include/cpp-sort/detail/introselect.h          |  6 ++++--
 include/cpp-sort/detail/melsort.h              |  4 +++-
 include/cpp-sort/detail/merge_sort.h           |  6 ++++--
 include/cpp-sort/detail/quick_merge_sort.h     |  3 ++-
 include/cpp-sort/detail/quicksort.h            |  6 ++++--
 include/cpp-sort/detail/slabsort.h             | 18 ++++++++++++------
 include/cpp-sort/detail/splaysort.h            |  3 ++-
 include/cpp-sort/detail/vergesort.h            |  6 ++++--
 include/cpp-sort/probes/enc.h                  |  3 ++-
 include/cpp-sort/probes/osc.h                  |  3 ++-
 22 files changed, 76 insertions(+), 33 deletions(-)

diff --git a/include/cpp-sort/detail/adaptive_quickselect.h b/include/cpp-sort/detail/adaptive_quickselect.h
index 8668499..f5539e2 100644
--- a/include/cpp-sort/detail/adaptive_quickselect.h
+++ b/include/cpp-sort/detail/adaptive_quickselect.h
@@ -45,7 +45,8 @@ namespace detail
 
             CPPSORT_ASSERT(k < length);
             iter_swap(r, r + k); // Move pivot out of the way
-            auto&& pivot_proj = proj(*r);
+            auto&& pivot_ref = *r;
+            auto&& pivot_proj = proj(std::forward<decltype(pivot_ref)>(pivot_ref));
             auto pivot_pos = detail::partition(r, r + length, [&](auto&& elem) {
                 return not comp(pivot_proj, proj(elem));
             });
@@ -173,7 +174,8 @@ namespace detail
             CPPSORT_ASSERT(lo > 0 && lo <= pivot);
             difference_type_t<RandomAccessIterator> left = 0;
             const auto oldPivot = pivot;
-            auto&& old_pivot_proj = proj(r[oldPivot]);
+            auto&& old_pivot_ref = r[oldPivot];
+            auto&& old_pivot_proj = proj(std::forward<decltype(old_pivot_ref)>(old_pivot_ref));
             for (; lo < pivot ; ++left) {
                 if (left == lo) {
                     iter_swap(r + oldPivot, r + pivot);
@@ -218,7 +220,8 @@ namespace detail
             difference_type_t<RandomAccessIterator> pivot = 0;
             CPPSORT_ASSERT(pivot <= hi);
             CPPSORT_ASSERT(hi <= rite);
-            auto&& pivot_proj = proj(r[0]);
+            auto&& pivot_ref = r[0];
+            auto&& pivot_proj = proj(std::forward<decltype(pivot_ref)>(pivot_ref));
 
             // First loop: spend r[pivot .. hi]
             for (; pivot < hi ; --rite) {
diff --git a/include/cpp-sort/detail/cartesian_tree_sort.h b/include/cpp-sort/detail/cartesian_tree_sort.h
index 2f273ca..353e0ff 100644
--- a/include/cpp-sort/detail/cartesian_tree_sort.h
+++ b/include/cpp-sort/detail/cartesian_tree_sort.h
@@ -58,7 +58,8 @@ namespace detail
                 ++first;
 
                 for (; first != last ; ++first) {
-                    auto&& proj_value = proj(*first);
+                    auto&& elem = *first;
+                    auto&& proj_value = proj(std::forward<decltype(elem)>(elem));
                     node_type* new_parent = _find_insertion_parent(prev_node, proj_value, compare, projection);
                     if (new_parent == nullptr) {
                         root_ = buffer_.emplace_back(iter_move(first), nullptr, root_);
diff --git a/include/cpp-sort/detail/front_inserter/inserter10.h b/include/cpp-sort/detail/front_inserter/inserter10.h
index 3f44a3c..0f20724 100644
--- a/include/cpp-sort/detail/front_inserter/inserter10.h
+++ b/include/cpp-sort/detail/front_inserter/inserter10.h
@@ -8,6 +8,7 @@
 ////////////////////////////////////////////////////////////
 // Headers
 ////////////////////////////////////////////////////////////
+#include <utility>
 #include <cpp-sort/utility/as_function.h>
 #include "../rotate_left.h"
 
@@ -28,7 +29,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& first_ref = first[0u];
+            auto&& proj0 = proj(std::forward<decltype(first_ref)>(first_ref));
 
             if (comp(proj(first[5u]), proj0)) {
                 if (comp(proj(first[7u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter11.h b/include/cpp-sort/detail/front_inserter/inserter11.h
index 740e9c7..4c1dae4 100644
--- a/include/cpp-sort/detail/front_inserter/inserter11.h
+++ b/include/cpp-sort/detail/front_inserter/inserter11.h
@@ -8,6 +8,7 @@
 ////////////////////////////////////////////////////////////
 // Headers
 ////////////////////////////////////////////////////////////
+#include <utility>
 #include <cpp-sort/utility/as_function.h>
 #include "../rotate_left.h"
 
@@ -28,7 +29,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& first_ref = first[0u];
+            auto&& proj0 = proj(std::forward<decltype(first_ref)>(first_ref));
 
             if (comp(proj(first[5u]), proj0)) {
                 if (comp(proj(first[8u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter3.h b/include/cpp-sort/detail/front_inserter/inserter3.h
index 8fb1840..f546e8e 100644
--- a/include/cpp-sort/detail/front_inserter/inserter3.h
+++ b/include/cpp-sort/detail/front_inserter/inserter3.h
@@ -8,6 +8,7 @@
 ////////////////////////////////////////////////////////////
 // Headers
 ////////////////////////////////////////////////////////////
+#include <utility>
 #include <cpp-sort/utility/as_function.h>
 #include "../rotate_left.h"
 
@@ -28,7 +29,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& first_ref = first[0u];
+            auto&& proj0 = proj(std::forward<decltype(first_ref)>(first_ref));
 
             if (comp(proj(first[1u]), proj0)) {
                 if (comp(proj(first[2u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter4.h b/include/cpp-sort/detail/front_inserter/inserter4.h
index c0be542..87d49e9 100644
--- a/include/cpp-sort/detail/front_inserter/inserter4.h
+++ b/include/cpp-sort/detail/front_inserter/inserter4.h
@@ -8,6 +8,7 @@
 ////////////////////////////////////////////////////////////
 // Headers
 ////////////////////////////////////////////////////////////
+#include <utility>
 #include <cpp-sort/utility/as_function.h>
 #include "../rotate_left.h"
 
@@ -28,7 +29,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& first_ref = first[0u];
+            auto&& proj0 = proj(std::forward<decltype(first_ref)>(first_ref));
 
             if (comp(proj(first[2u]), proj0)) {
                 if (comp(proj(first[3u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter5.h b/include/cpp-sort/detail/front_inserter/inserter5.h
index 8caa078..99ae59b 100644
--- a/include/cpp-sort/detail/front_inserter/inserter5.h
+++ b/include/cpp-sort/detail/front_inserter/inserter5.h
@@ -8,6 +8,7 @@
 ////////////////////////////////////////////////////////////
 // Headers
 ////////////////////////////////////////////////////////////
+#include <utility>
 #include <cpp-sort/utility/as_function.h>
 #include "../rotate_left.h"
 
@@ -28,7 +29,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& first_ref = first[0u];
+            auto&& proj0 = proj(std::forward<decltype(first_ref)>(first_ref));
 
             if (comp(proj(first[2u]), proj0)) {
                 if (comp(proj(first[3u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter6.h b/include/cpp-sort/detail/front_inserter/inserter6.h
index e154152..ba865d9 100644
--- a/include/cpp-sort/detail/front_inserter/inserter6.h
+++ b/include/cpp-sort/detail/front_inserter/inserter6.h
@@ -8,6 +8,7 @@
 ////////////////////////////////////////////////////////////
 // Headers
 ////////////////////////////////////////////////////////////
+#include <utility>
 #include <cpp-sort/utility/as_function.h>
 #include "../rotate_left.h"
 
@@ -28,7 +29,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& first_ref = first[0u];
+            auto&& proj0 = proj(std::forward<decltype(first_ref)>(first_ref));
 
             if (comp(proj(first[3u]), proj0)) {
                 if (comp(proj(first[4u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter7.h b/include/cpp-sort/detail/front_inserter/inserter7.h
index b071342..9be98b6 100644
--- a/include/cpp-sort/detail/front_inserter/inserter7.h
+++ b/include/cpp-sort/detail/front_inserter/inserter7.h
@@ -8,6 +8,7 @@
 ////////////////////////////////////////////////////////////
 // Headers
 ////////////////////////////////////////////////////////////
+#include <utility>
 #include <cpp-sort/utility/as_function.h>
 #include "../rotate_left.h"
 
@@ -28,7 +29,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& first_ref = first[0u];
+            auto&& proj0 = proj(std::forward<decltype(first_ref)>(first_ref));
 
             if (comp(proj(first[3u]), proj0)) {
                 if (comp(proj(first[5u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter8.h b/include/cpp-sort/detail/front_inserter/inserter8.h
index a54200d..9684c59 100644
--- a/include/cpp-sort/detail/front_inserter/inserter8.h
+++ b/include/cpp-sort/detail/front_inserter/inserter8.h
@@ -8,6 +8,7 @@
 ////////////////////////////////////////////////////////////
 // Headers
 ////////////////////////////////////////////////////////////
+#include <utility>
 #include <cpp-sort/utility/as_function.h>
 #include "../rotate_left.h"
 
@@ -28,7 +29,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& first_ref = first[0u];
+            auto&& proj0 = proj(std::forward<decltype(first_ref)>(first_ref));
 
             if (comp(proj(first[4u]), proj0)) {
                 if (comp(proj(first[6u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter9.h b/include/cpp-sort/detail/front_inserter/inserter9.h
index d85553d..cc0570a 100644
--- a/include/cpp-sort/detail/front_inserter/inserter9.h
+++ b/include/cpp-sort/detail/front_inserter/inserter9.h
@@ -8,6 +8,7 @@
 ////////////////////////////////////////////////////////////
 // Headers
 ////////////////////////////////////////////////////////////
+#include <utility>
 #include <cpp-sort/utility/as_function.h>
 #include "../rotate_left.h"
 
@@ -28,7 +29,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& first_ref = first[0u];
+            auto&& proj0 = proj(std::forward<decltype(first_ref)>(first_ref));
 
             if (comp(proj(first[4u]), proj0)) {
                 if (comp(proj(first[6u]), proj0)) {
diff --git a/include/cpp-sort/detail/grail_sort.h b/include/cpp-sort/detail/grail_sort.h
index d3ec2e6..3ac964d 100644
--- a/include/cpp-sort/detail/grail_sort.h
+++ b/include/cpp-sort/detail/grail_sort.h
@@ -391,7 +391,8 @@ namespace grail
     {
         using difference_type = difference_type_t<RandomAccessIterator>;
         auto&& proj = utility::as_function(projection);
-        auto&& midkey_proj = proj(*midkey);
+        auto&& midkey_ref = *midkey;
+        auto&& midkey_proj = proj(std::forward<decltype(midkey_ref)>(midkey_ref));
 
         if (nblock == 0) {
             auto l = arr + nblock2 * lblock;
diff --git a/include/cpp-sort/detail/introselect.h b/include/cpp-sort/detail/introselect.h
index e33a530..6beece8 100644
--- a/include/cpp-sort/detail/introselect.h
+++ b/include/cpp-sort/detail/introselect.h
@@ -279,7 +279,8 @@ namespace detail
 
             // Put the pivot at position std::prev(last) and partition
             iter_swap(median_it, last_1);
-            auto&& pivot1 = proj(*last_1);
+            auto&& pivot1_ref = *last_1;
+            auto&& pivot1 = proj(std::forward<decltype(pivot1_ref)>(pivot1_ref));
             auto middle1 = detail::partition(
                 first, last_1,
                 [&](auto&& elem) { return comp(proj(elem), pivot1); }
@@ -287,7 +288,8 @@ namespace detail
 
             // Put the pivot in its final position and partition
             iter_swap(middle1, last_1);
-            auto&& pivot2 = proj(*middle1);
+            auto&& pivot2_ref = *middle1;
+            auto&& pivot2 = proj(std::forward<decltype(pivot2_ref)>(pivot2_ref));
             auto middle2 = detail::partition(
                 std::next(middle1), last,
                 [&](auto&& elem) { return not comp(pivot2, proj(elem)); }
diff --git a/include/cpp-sort/detail/melsort.h b/include/cpp-sort/detail/melsort.h
index aeefe25..49972a0 100644
--- a/include/cpp-sort/detail/melsort.h
+++ b/include/cpp-sort/detail/melsort.h
@@ -10,6 +10,7 @@
 ////////////////////////////////////////////////////////////
 #include <cmath>
 #include <iterator>
+#include <utility>
 #include <vector>
 #include <cpp-sort/comparators/flip.h>
 #include <cpp-sort/utility/as_function.h>
@@ -147,7 +148,8 @@ namespace detail
         // Create encroaching lists
 
         for (auto it = std::next(first) ; it != last ; ++it) {
-            auto&& value = proj(*it);
+            auto&& elem = *it;
+            auto&& value = proj(std::forward<decltype(elem)>(elem));
 
             // The heads of the lists form an ascending collection while the heads
             // form a descending collection, plus the we have the guarantee that the
diff --git a/include/cpp-sort/detail/merge_sort.h b/include/cpp-sort/detail/merge_sort.h
index 90452ff..9e41f25 100644
--- a/include/cpp-sort/detail/merge_sort.h
+++ b/include/cpp-sort/detail/merge_sort.h
@@ -53,7 +53,8 @@ namespace detail
         ));
 
         // Shrink the left partition to merge
-        auto&& middle_proj = proj(*middle);
+        auto&& middle_ref = *middle;
+        auto&& middle_proj = proj(std::forward<decltype(middle_ref)>(middle_ref));
         while (first != middle && not comp(middle_proj, proj(*first))) {
             ++first;
             --size_left;
@@ -105,7 +106,8 @@ namespace detail
         ));
 
         // Shrink the left partition to merge
-        auto&& middle_proj = proj(*middle);
+        auto&& middle_ref = *middle;
+        auto&& middle_proj = proj(std::forward<decltype(middle_ref)>(middle_ref));
         while (first != middle && not comp(middle_proj, proj(*first))) {
             ++first;
             --size_left;
diff --git a/include/cpp-sort/detail/quick_merge_sort.h b/include/cpp-sort/detail/quick_merge_sort.h
index 6609779..24ffe9c 100644
--- a/include/cpp-sort/detail/quick_merge_sort.h
+++ b/include/cpp-sort/detail/quick_merge_sort.h
@@ -110,7 +110,8 @@ namespace detail
         internal_mergesort(middle, last, size - size_left, buffer, compare, projection);
 
         // Reduce left partition even more if possible
-        auto&& mid_value = proj(*middle);
+        auto&& mid_ref = *middle;
+        auto&& mid_value = proj(std::forward<decltype(mid_ref)>(mid_ref));
         while (first != middle && not comp(mid_value, proj(*first))) {
             ++first;
             --size_left;
diff --git a/include/cpp-sort/detail/quicksort.h b/include/cpp-sort/detail/quicksort.h
index 8afda65..b0fdd4f 100644
--- a/include/cpp-sort/detail/quicksort.h
+++ b/include/cpp-sort/detail/quicksort.h
@@ -81,7 +81,8 @@ namespace detail
 
         // Put the pivot at position std::prev(last) and partition
         iter_swap(median_it, last_1);
-        auto&& pivot1 = proj(*last_1);
+        auto&& pivot1_ref = *last_1;
+        auto&& pivot1 = proj(std::forward<decltype(pivot1_ref)>(pivot1_ref));
         auto middle1 = detail::partition(
             first, last_1,
             [&](auto&& elem) { return comp(proj(elem), pivot1); }
@@ -89,7 +90,8 @@ namespace detail
 
         // Put the pivot in its final position and partition
         iter_swap(middle1, last_1);
-        auto&& pivot2 = proj(*middle1);
+        auto&& pivot2_ref = *middle1;
+        auto&& pivot2 = proj(std::forward<decltype(pivot2_ref)>(pivot2_ref));
         auto middle2 = detail::partition(
             std::next(middle1), last,
             [&](auto&& elem) { return not comp(pivot2, proj(elem)); }
diff --git a/include/cpp-sort/detail/slabsort.h b/include/cpp-sort/detail/slabsort.h
index 0eb2283..29c0faa 100644
--- a/include/cpp-sort/detail/slabsort.h
+++ b/include/cpp-sort/detail/slabsort.h
@@ -112,7 +112,8 @@ namespace detail
 
         // Put the pivot at position std::prev(last) and partition
         iter_swap(median_it, last_1);
-        auto&& pivot = proj(*last_1);
+        auto&& pivot_ref = *last_1;
+        auto&& pivot = proj(std::forward<decltype(pivot_ref)>(pivot_ref));
         auto middle = detail::stable_partition(
             first, last_1, size - 1,
             [&](auto&& elem) { return comp(proj(elem), pivot); }
@@ -141,6 +142,10 @@ namespace detail
             return true;
         }
 
+        // Project the values that the nodes point to, without going through
+        // references to temporaries when the iterators are proxy iterators
+        auto node_proj = utility::indirect{} | projection;
+
         // Encroaching lists
         std::vector<fixed_size_list<node_type>> lists;
         lists.emplace_back(node_pool, destroy_node_contents<BidirectionalIterator, node_type, &node_type::it>);
@@ -152,15 +157,16 @@ namespace detail
         // Create encroaching lists
 
         for (auto it = std::next(first) ; it != last ; ++it) {
-            auto&& value = proj(*it);
+            auto&& elem = *it;
+            auto&& value = proj(std::forward<decltype(elem)>(elem));
 
             auto& last_list = lists.back();
             if (not comp(value, proj(*std::prev(last_list.end()).base()->it))) {
                 // Element belongs to the tails (bigger elements)
                 auto insertion_point = detail::lower_bound(
                     lists.begin(), std::prev(lists.end()), value, cppsort::flip(compare),
-                    [&proj](auto& list) -> decltype(auto) {
-                        return proj(*std::prev(list.end()).base()->it);
+                    [&node_proj](auto& list) -> decltype(auto) {
+                        return node_proj(std::prev(list.end()).base()->it);
                     }
                 );
                 insertion_point->push_back([&it](node_type* node) {
@@ -170,8 +176,8 @@ namespace detail
                 // Element belongs to the heads (smaller elements)
                 auto insertion_point = detail::lower_bound(
                     lists.begin(), std::prev(lists.end()), value, compare,
-                    [&proj](auto& list) -> decltype(auto) {
-                        return proj(*list.begin().base()->it);
+                    [&node_proj](auto& list) -> decltype(auto) {
+                        return node_proj(list.begin().base()->it);
                     }
                 );
                 insertion_point->push_front([&it](node_type* node) {
diff --git a/include/cpp-sort/detail/splaysort.h b/include/cpp-sort/detail/splaysort.h
index c9defb1..641b307 100644
--- a/include/cpp-sort/detail/splaysort.h
+++ b/include/cpp-sort/detail/splaysort.h
@@ -210,7 +210,8 @@ namespace detail
                 auto&& comp = utility::as_function(compare);
                 auto&& proj = utility::as_function(projection);
 
-                auto&& value_proj = proj(*it);
+                auto&& elem = *it;
+                auto&& value_proj = proj(std::forward<decltype(elem)>(elem));
 
                 binary_tree_node_base* node = root();
                 CPPSORT_ASSERT(node != &sentinel_node_);
diff --git a/include/cpp-sort/detail/vergesort.h b/include/cpp-sort/detail/vergesort.h
index 9144953..22c76c8 100644
--- a/include/cpp-sort/detail/vergesort.h
+++ b/include/cpp-sort/detail/vergesort.h
@@ -64,14 +64,16 @@ namespace verge
                 // Merge the runs, micro-optimize for size 1 because it can happen,
                 // and the generic inplace_merge algorithm cares not
                 if (it->size == 1) {
-                    auto&& target = proj(*begin);
+                    auto&& elem = *begin;
+                    auto&& target = proj(std::forward<decltype(elem)>(elem));
                     if (comp(proj(*it->end), target)) {
                         auto insert_it = detail::lower_bound_n(it->end, next_it->size, target, compare, projection);
                         detail::rotate_left(begin, insert_it);
                     } else {
                     }
                 } else if (next_it->size == 1) {
-                    auto&& target = proj(*std::prev(next_it->end));
+                    auto&& elem = *std::prev(next_it->end);
+                    auto&& target = proj(std::forward<decltype(elem)>(elem));
                     if (comp(target, proj(*std::prev(it->end)))) {
                         auto insert_it = detail::upper_bound_n(begin, it->size, target, compare, projection);
                         detail::rotate_right(insert_it, next_it->end);
diff --git a/include/cpp-sort/probes/enc.h b/include/cpp-sort/probes/enc.h
index 2f8add6..96151bb 100644
--- a/include/cpp-sort/probes/enc.h
+++ b/include/cpp-sort/probes/enc.h
@@ -86,7 +86,8 @@ namespace probe
                 // Create encroaching lists
 
                 while (first != last) {
-                    auto&& value = proj(*first);
+                    auto&& elem = *first;
+                    auto&& value = proj(std::forward<decltype(elem)>(elem));
 
                     auto& last_list = lists.back();
                     if (not comp(value, proj(*last_list.second))) {
diff --git a/include/cpp-sort/probes/osc.h b/include/cpp-sort/probes/osc.h
index afa170b..a3cabe6 100644
--- a/include/cpp-sort/probes/osc.h
+++ b/include/cpp-sort/probes/osc.h
@@ -51,7 +51,8 @@ namespace probe
 
             difference_type count = 0;
             for (auto it = first; it != last; ++it) {
-                auto&& value = proj(*it);
+                auto&& elem = *it;
+                auto&& value = proj(std::forward<decltype(elem)>(elem));
 
                 auto current = first;
                 auto next = std::next(first);
-- 
2.43.0


From cdb7e32564e6341c682916be8b4f186ae1d503e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:46 +0000
Subject: [PATCH 14/28] fix: list sorts give all nodes back when an exception
 is thrown

container_aware_adapter for merge_sorter and mel_sorter moved nodes to
temporary lists, which destroyed their elements when a comparison or a
projection threw.
---
 include/cpp-sort/detail/container_aware/mel_sort.h  | 13 +++++++++++++
 .../cpp-sort/detail/container_aware/merge_sort.h    | 11 +++++++++++
 2 files changed, 24 insertions(+)

diff --git a/include/cpp-sort/detail/container_aware/mel_sort.h b/include/cpp-sort/detail/container_aware/mel_sort.h
index 1edbbc0..854d59e 100644
--- a/include/cpp-sort/detail/container_aware/mel_sort.h
+++ b/include/cpp-sort/detail/container_aware/mel_sort.h
@@ -23,6 +23,7 @@
 #include <cpp-sort/utility/as_function.h>
 #include <cpp-sort/utility/functional.h>
 #include "../lower_bound.h"
+#include "../scope_exit.h"
 #include "../type_traits.h"
 
 namespace cppsort
@@ -41,6 +42,12 @@ namespace cppsort
 
             // Encroaching lists
             std::vector<std::list<Args...>> lists;
+            // Give the nodes back even when an exception is thrown
+            auto restore = make_scope_exit([&collection, &lists] {
+                for (auto& list : lists) {
+                    collection.splice(collection.end(), list);
+                }
+            });
             lists.emplace_back();
             lists.back().splice(lists.back().begin(), collection, collection.begin());
 
@@ -126,6 +133,12 @@ namespace cppsort
 
             // Encroaching lists
             std::vector<flist> lists;
+            // Give the nodes back even when an exception is thrown
+            auto restore = make_scope_exit([&collection, &lists] {
+                for (auto& elem : lists) {
+                    collection.splice_after(collection.before_begin(), elem.list);
+                }
+            });
             lists.emplace_back();
             lists.back().list.splice_after(lists.back().list.before_begin(),
                                            collection, collection.before_begin());
diff --git a/include/cpp-sort/detail/container_aware/merge_sort.h b/include/cpp-sort/detail/container_aware/merge_sort.h
index 127c252..be8b31b 100644
--- a/include/cpp-sort/detail/container_aware/merge_sort.h
+++ b/include/cpp-sort/detail/container_aware/merge_sort.h
@@ -20,6 +20,7 @@
 #include <cpp-sort/sorter_traits.h>
 #include <cpp-sort/utility/functional.h>
 #include <cpp-sort/utility/size.h>
+#include "../scope_exit.h"
 #include "../type_traits.h"
 
 namespace cppsort
@@ -39,6 +40,11 @@ namespace cppsort
             std::list<Args...> left(collection.get_allocator());
             left.splice(left.begin(), collection, first, middle);
 
+            // Give the left part back even when an exception is thrown
+            auto restore = make_scope_exit([&collection, &left] {
+                collection.splice(collection.end(), left);
+            });
+
             // Recursively sort, then merge
             list_merge_sort(left, compare, projection);
             list_merge_sort(collection, compare, projection);
@@ -62,6 +68,11 @@ namespace cppsort
             std::forward_list<Args...> left(collection.get_allocator());
             left.splice_after(left.before_begin(), collection, first, middle);
 
+            // Give the left part back even when an exception is thrown
+            auto restore = make_scope_exit([&collection, &left] {
+                collection.splice_after(collection.before_begin(), left);
+            });
+
             // Recursively sort, then merge
             flist_merge_sort(left, size / 2, compare, projection);
             flist_merge_sort(collection, size - size / 2, compare, projection);
-- 
2.43.0


From 13fada518eacb64a037af1cb00c9aaacbb42e2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 15/28] fix: list melsort gives its temporary lists the
 allocator of the collection

Splicing nodes between lists whose allocators differ is undefined, and
aborts with libstdc++ (std::pmr::list for example).
---
 include/cpp-sort/detail/container_aware/mel_sort.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cpp-sort/detail/container_aware/mel_sort.h b/include/cpp-sort/detail/container_aware/mel_sort.h
index 854d59e..a7a38b5 100644
--- a/include/cpp-sort/detail/container_aware/mel_sort.h
+++ b/include/cpp-sort/detail/container_aware/mel_sort.h
@@ -48,7 +48,7 @@ namespace cppsort
                     collection.splice(collection.end(), list);
                 }
             });
-            lists.emplace_back();
+            lists.emplace_back(collection.get_allocator());
             lists.back().splice(lists.back().begin(), collection, collection.begin());
 
             ////////////////////////////////////////////////////////////
@@ -75,7 +75,7 @@ namespace cppsort
                 } else {
                     // Element does not belong to the existing encroaching lists,
                     // create a new list for it
-                    lists.emplace_back();
+                    lists.emplace_back(collection.get_allocator());
                     lists.back().splice(lists.back().begin(), collection, collection.begin());
                 }
             }
@@ -122,8 +122,8 @@ namespace cppsort
             // to implement melsort for forward iterators
             struct flist
             {
-                flist():
-                    list(),
+                explicit flist(const typename std::forward_list<Args...>::allocator_type& alloc):
+                    list(alloc),
                     last(list.begin())
                 {}
 
@@ -139,7 +139,7 @@ namespace cppsort
                     collection.splice_after(collection.before_begin(), elem.list);
                 }
             });
-            lists.emplace_back();
+            lists.emplace_back(collection.get_allocator());
             lists.back().list.splice_after(lists.back().list.before_begin(),
                                            collection, collection.before_begin());
             lists.back().last = lists.back().list.begin();
@@ -171,7 +171,7 @@ namespace cppsort
                 } else {
                     // Element does not belong to the existing encroaching lists,
                     // create a new list for it
-                    lists.emplace_back();
+                    lists.emplace_back(collection.get_allocator());
                     lists.back().list.splice_after(lists.back().list.before_begin(),
                                                    collection, collection.before_begin());
                     lists.back().last = lists.back().list.begin();
-- 
2.43.0


From f067b3916fa6a177c637c7d66f96fef5e976bf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:40 +0000
Subject: [PATCH 16/28] fix: weak and partial comparators are not ambiguous for
 floating point numbers

The generic overloads of weak_less and weak_greater competed with the ones for
floating point numbers, so that neither comparator could be called with them.
---
 include/cpp-sort/comparators/partial_greater.h | 5 ++++-
 include/cpp-sort/comparators/partial_less.h    | 5 ++++-
 include/cpp-sort/comparators/weak_greater.h    | 5 ++++-
 include/cpp-sort/comparators/weak_less.h       | 5 ++++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/comparators/partial_greater.h b/include/cpp-sort/comparators/partial_greater.h
index fe5c2bf..0011035 100644
--- a/include/cpp-sort/comparators/partial_greater.h
+++ b/include/cpp-sort/comparators/partial_greater.h
@@ -35,7 +35,10 @@ namespace cppsort
         template<typename T>
         auto partial_greater(const T& lhs, const T& rhs)
             noexcept(noexcept(cppsort::weak_greater(lhs, rhs)))
-            -> decltype(cppsort::weak_greater(lhs, rhs))
+            -> detail::enable_if_t<
+                not std::is_floating_point<T>::value,
+                decltype(cppsort::weak_greater(lhs, rhs))
+            >
         {
             return cppsort::weak_greater(lhs, rhs);
         }
diff --git a/include/cpp-sort/comparators/partial_less.h b/include/cpp-sort/comparators/partial_less.h
index 7bebbaf..aa658aa 100644
--- a/include/cpp-sort/comparators/partial_less.h
+++ b/include/cpp-sort/comparators/partial_less.h
@@ -35,7 +35,10 @@ namespace cppsort
         template<typename T>
         auto partial_less(const T& lhs, const T& rhs)
             noexcept(noexcept(cppsort::weak_less(lhs, rhs)))
-            -> decltype(cppsort::weak_less(lhs, rhs))
+            -> detail::enable_if_t<
+                not std::is_floating_point<T>::value,
+                decltype(cppsort::weak_less(lhs, rhs))
+            >
         {
             return cppsort::weak_less(lhs, rhs);
         }
diff --git a/include/cpp-sort/comparators/weak_greater.h b/include/cpp-sort/comparators/weak_greater.h
index 00ed693..3f96de3 100644
--- a/include/cpp-sort/comparators/weak_greater.h
+++ b/include/cpp-sort/comparators/weak_greater.h
@@ -43,7 +43,10 @@ namespace cppsort
         template<typename T>
         auto weak_greater(const T& lhs, const T& rhs)
             noexcept(noexcept(cppsort::total_greater(lhs, rhs)))
-            -> decltype(cppsort::total_greater(lhs, rhs))
+            -> detail::enable_if_t<
+                not std::is_floating_point<T>::value,
+                decltype(cppsort::total_greater(lhs, rhs))
+            >
         {
             return cppsort::total_greater(lhs, rhs);
         }
diff --git a/include/cpp-sort/comparators/weak_less.h b/include/cpp-sort/comparators/weak_less.h
index f4ecda3..6254146 100644
--- a/include/cpp-sort/comparators/weak_less.h
+++ b/include/cpp-sort/comparators/weak_less.h
@@ -43,7 +43,10 @@ namespace cppsort
         template<typename T>
         auto weak_less(const T& lhs, const T& rhs)
             noexcept(noexcept(cppsort::total_less(lhs, rhs)))
-            -> decltype(cppsort::total_less(lhs, rhs))
+            -> detail::enable_if_t<
+                not std::is_floating_point<T>::value,
+                decltype(cppsort::total_less(lhs, rhs))
+            >
         {
             return cppsort::total_less(lhs, rhs);
         }
-- 
2.43.0


From 80aa1aeded5f9c7319bf8ac4de01bc71b6d9b2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:19 +0000
Subject: [PATCH 17/28] fix: natural_less compares what follows equal numbers,
 within bounds

The comparison of two numbers of the same length went on past their last digit,
up to the end of the first sequence: it could read past the end of the second
one, and compared later numbers digit by digit. Texts with zeros in the same
place were equivalent whatever followed.
---
 include/cpp-sort/comparators/natural_less.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/cpp-sort/comparators/natural_less.h b/include/cpp-sort/comparators/natural_less.h
index 8e511a2..c40a22e 100644
--- a/include/cpp-sort/comparators/natural_less.h
+++ b/include/cpp-sort/comparators/natural_less.h
@@ -54,12 +54,9 @@ namespace cppsort
                     if (size1 != size2) {
                         return size1 < size2;
                     }
-                    if (size1 == 0) {
-                        return false;
-                    }
 
-                    // Sizes are equal and not 0
-                    while (begin1 != end1) {
+                    // Sizes are equal
+                    while (begin1 != last1) {
                         if (*begin1 != *begin2) {
                             return *begin1 < *begin2;
                         }
-- 
2.43.0


From 29a2369ec718bd28d9c065fe7c435d4273d8063d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:39 +0000
Subject: [PATCH 18/28] fix: ska_sorter sorts char and wchar_t like operator<

---
 include/cpp-sort/detail/ska_sort.h | 38 ++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/detail/ska_sort.h b/include/cpp-sort/detail/ska_sort.h
index a39bdc7..f572a13 100644
--- a/include/cpp-sort/detail/ska_sort.h
+++ b/include/cpp-sort/detail/ska_sort.h
@@ -56,7 +56,8 @@ namespace detail
     inline auto to_unsigned_or_bool(char c)
         -> unsigned char
     {
-        return static_cast<unsigned char>(c);
+        // char might be either signed or unsigned
+        return static_cast<unsigned char>(c - (std::numeric_limits<char>::min)());
     }
 
     inline auto to_unsigned_or_bool(char16_t c)
@@ -74,7 +75,9 @@ namespace detail
     inline auto to_unsigned_or_bool(wchar_t c)
         -> std::uint32_t
     {
-        return static_cast<std::uint32_t>(c);
+        // wchar_t might be either signed or unsigned
+        return static_cast<std::uint32_t>(c)
+             - static_cast<std::uint32_t>((std::numeric_limits<wchar_t>::min)());
     }
 
     inline auto to_unsigned_or_bool(short i)
@@ -440,11 +443,38 @@ namespace detail
                           std::ptrdiff_t, Projection, void*);
     };
 
+    // Contrary to operator<, std::char_traits<char> always compares
+    // characters as if they were unsigned
+    struct CharTraitsSubKey:
+        SubKey<unsigned char>
+    {
+        static auto sub_key(char value, void*)
+            -> unsigned char
+        {
+            return static_cast<unsigned char>(value);
+        }
+    };
+
+    template<typename T, typename Enable=void>
+    struct ListElementBaseSubKey
+    {
+        using type = SubKey<remove_cvref_t<decltype(std::declval<T>()[0])>>;
+    };
+
+    template<typename T>
+    struct ListElementBaseSubKey<
+        T,
+        detail::enable_if_t<std::is_same<typename T::traits_type::char_type, char>::value>
+    >
+    {
+        using type = CharTraitsSubKey;
+    };
+
     template<typename CurrentSubKey, typename T>
     struct ListElementSubKey:
-        SubKey<remove_cvref_t<decltype(std::declval<T>()[0])>>
+        ListElementBaseSubKey<T>::type
     {
-        using base = SubKey<remove_cvref_t<decltype(std::declval<T>()[0])>>;
+        using base = typename ListElementBaseSubKey<T>::type;
         using next = ListElementSubKey;
 
         template<typename U>
-- 
2.43.0


From 0396f7d79433f726b397a7ced00058da16afb773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:39 +0000
Subject: [PATCH 19/28] fix: ska_sorter gives the same key to both floating
 point zeros

---
 include/cpp-sort/detail/ska_sort.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/detail/ska_sort.h b/include/cpp-sort/detail/ska_sort.h
index f572a13..fc392d3 100644
--- a/include/cpp-sort/detail/ska_sort.h
+++ b/include/cpp-sort/detail/ska_sort.h
@@ -120,7 +120,8 @@ namespace detail
     inline auto to_unsigned_or_bool(float f)
         -> std::uint32_t
     {
-        auto u = memcpy_cast<std::uint32_t>(f);
+        // -0.0f and 0.0f compare equal, give them the same key
+        auto u = f == 0.0f ? std::uint32_t(0) : memcpy_cast<std::uint32_t>(f);
         std::uint32_t sign_bit = -std::int32_t(u >> 31);
         return u ^ (sign_bit | 0x80000000);
     }
@@ -128,7 +129,8 @@ namespace detail
     inline auto to_unsigned_or_bool(double f)
         -> std::uint64_t
     {
-        auto u = memcpy_cast<std::uint64_t>(f);
+        // -0.0 and 0.0 compare equal, give them the same key
+        auto u = f == 0.0 ? std::uint64_t(0) : memcpy_cast<std::uint64_t>(f);
         std::uint64_t sign_bit = -std::int64_t(u >> 63);
         return u ^ (sign_bit | 0x8000000000000000);
     }
-- 
2.43.0


From 391a8c2e635bf5cfbe00cdfd83cef81d932067aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:39 +0000
Subject: [PATCH 20/28] fix: ska_sorter no longer looks for a prefix in an
 empty partition

---
 include/cpp-sort/detail/ska_sort.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/ska_sort.h b/include/cpp-sort/detail/ska_sort.h
index fc392d3..dbb374d 100644
--- a/include/cpp-sort/detail/ska_sort.h
+++ b/include/cpp-sort/detail/ska_sort.h
@@ -799,9 +799,13 @@ namespace detail
 
         template<typename RandomAccessIterator, typename Projection>
         static auto sort_from_recursion(RandomAccessIterator begin, RandomAccessIterator end,
-                                        std::ptrdiff_t, Projection projection, void* next_sort_data)
+                                        std::ptrdiff_t num_elements, Projection projection,
+                                        void* next_sort_data)
             -> void
         {
+            if (StdSortIfLessThanThreshold<StdSortThreshold>(begin, end, num_elements, projection)) {
+                return;
+            }
             ListSortData<RandomAccessIterator, Projection> offset
                 = *static_cast<ListSortData<RandomAccessIterator, Projection>*>(next_sort_data);
             ++offset.current_index;
-- 
2.43.0


From f23b07de951de90e99325ed44aac69841ebeb4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:39 +0000
Subject: [PATCH 21/28] fix: ska_sorter compares all the keys of the elements
 of lists

---
 include/cpp-sort/detail/ska_sort.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/cpp-sort/detail/ska_sort.h b/include/cpp-sort/detail/ska_sort.h
index dbb374d..9ce7d2f 100644
--- a/include/cpp-sort/detail/ska_sort.h
+++ b/include/cpp-sort/detail/ska_sort.h
@@ -824,6 +824,13 @@ namespace detail
                          void *next_sort_data)
             -> void
         {
+            if (not std::is_same<SubKey<void>, typename ElementSubKey::base::next>::value) {
+                // The elements of the list have several keys, but the algorithm
+                // only knows how to handle the first one
+                StdSortFallback(std::move(begin), std::move(end), std::move(projection));
+                return;
+            }
+
             ListSortData<RandomAccessIterator, Projection> offset;
             offset.current_index = 0;
             offset.recursion_limit = 16;
-- 
2.43.0


From 869aebfaa3102c2111fba231cd31af7c38eb22a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:25 +0000
Subject: [PATCH 22/28] fix: counting_sorter reports ranges of values that do
 not fit in memory

---
 include/cpp-sort/detail/counting_sort.h | 42 ++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/detail/counting_sort.h b/include/cpp-sort/detail/counting_sort.h
index 8c0b366..57c83f0 100644
--- a/include/cpp-sort/detail/counting_sort.h
+++ b/include/cpp-sort/detail/counting_sort.h
@@ -9,16 +9,50 @@
 // Headers
 ////////////////////////////////////////////////////////////
 #include <algorithm>
+#include <cstdint>
 #include <functional>
 #include <iterator>
+#include <new>
 #include "immovable_vector.h"
 #include "iterator_traits.h"
 #include "minmax_element_and_is_sorted.h"
+#include "type_traits.h"
 
 namespace cppsort
 {
 namespace detail
 {
+    // Distance between two integers, computed with unsigned integers
+    // because the result might not be representable in their own type
+
+    template<typename Integer>
+    auto counting_distance(Integer from, Integer to)
+        -> detail::enable_if_t<sizeof(Integer) <= sizeof(std::uintmax_t), std::uintmax_t>
+    {
+        return static_cast<std::uintmax_t>(to) - static_cast<std::uintmax_t>(from);
+    }
+
+#ifdef __SIZEOF_INT128__
+    template<typename Integer>
+    auto counting_distance(Integer from, Integer to)
+        -> detail::enable_if_t<(sizeof(Integer) > sizeof(std::uintmax_t)), __uint128_t>
+    {
+        return static_cast<__uint128_t>(to) - static_cast<__uint128_t>(from);
+    }
+#endif
+
+    // Number of values to count between two integers
+    template<typename DifferenceType, typename Integer>
+    auto counting_range(Integer min, Integer max)
+        -> DifferenceType
+    {
+        auto distance = counting_distance(min, max);
+        if (distance >= PTRDIFF_MAX / sizeof(DifferenceType)) {
+            throw std::bad_alloc();
+        }
+        return static_cast<DifferenceType>(distance) + 1;
+    }
+
     template<typename ForwardIterator>
     auto counting_sort(ForwardIterator first, ForwardIterator last)
         -> void
@@ -30,7 +64,7 @@ namespace detail
 
         auto min = *info.min;
         auto max = *info.max;
-        difference_type value_range = max - min + 1;
+        difference_type value_range = counting_range<difference_type>(min, max);
 
         immovable_vector<difference_type> counts(value_range);
         for (difference_type n = 0; n < value_range; ++n) {
@@ -38,7 +72,7 @@ namespace detail
         }
 
         for (auto it = first; it != last; ++it) {
-            ++counts[*it - min];
+            ++counts[counting_distance(min, *it)];
         }
 
         for (auto count: counts) {
@@ -57,7 +91,7 @@ namespace detail
 
         auto min = *info.max;
         auto max = *info.min;
-        difference_type value_range = max - min + 1;
+        difference_type value_range = counting_range<difference_type>(min, max);
 
         immovable_vector<difference_type> counts(value_range);
         for (difference_type n = 0; n < value_range; ++n) {
@@ -65,7 +99,7 @@ namespace detail
         }
 
         for (auto it = first; it != last; ++it) {
-            ++counts[*it - min];
+            ++counts[counting_distance(min, *it)];
         }
 
         for (auto rit = counts.end(); rit != counts.begin(); --rit) {
-- 
2.43.0


From 14fb1c1f6217e6d3a61b3b0b0d95184990893637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:22 +0000
Subject: [PATCH 23/28] fix: Exc takes quadratic time with forward and
 bidirectional iterators

---
 include/cpp-sort/probes/exc.h | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/include/cpp-sort/probes/exc.h b/include/cpp-sort/probes/exc.h
index 7930159..8ff220a 100644
--- a/include/cpp-sort/probes/exc.h
+++ b/include/cpp-sort/probes/exc.h
@@ -19,6 +19,7 @@
 #include <cpp-sort/utility/size.h>
 #include <cpp-sort/utility/static_const.h>
 #include "../detail/immovable_vector.h"
+#include "../detail/indiesort.h"
 #include "../detail/iterator_traits.h"
 #include "../detail/pdqsort.h"
 #include "../detail/type_traits.h"
@@ -46,16 +47,20 @@ namespace probe
             ////////////////////////////////////////////////////////////
             // Indirectly sort the iterators
 
-            // Copy the iterators in a vector
-            cppsort::detail::immovable_vector<ForwardIterator> iterators(size);
+            // Copy the iterators in a vector along with their position,
+            // so that the latter never has to be computed again
+            using item_type = cppsort::detail::it_and_index<ForwardIterator>;
+            cppsort::detail::immovable_vector<item_type> iterators(size);
+            difference_type index = 0;
             for (auto it = first; it != last; ++it) {
-                iterators.emplace_back(it);
+                iterators.emplace_back(it, index);
+                ++index;
             }
 
             // Sort the iterators on pointed values
             cppsort::detail::pdqsort(
-                iterators.begin(), iterators.end(),
-                compare, utility::indirect{} | projection
+                iterators.begin(), iterators.end(), compare,
+                &item_type::original_location | utility::indirect{} | projection
             );
 
             ////////////////////////////////////////////////////////////
@@ -65,18 +70,19 @@ namespace probe
 
             // Element where the current cycle starts
             auto start = first;
+            difference_type start_pos = 0;
 
             difference_type cycles = 0;
             while (start != last) {
                 // Find the element to put in current's place
                 auto current = start;
-                auto next_pos = std::distance(first, current);
-                auto next = iterators[next_pos];
-                sorted[next_pos] = true;
+                auto next = iterators[start_pos].original_location;
+                auto next_pos = iterators[start_pos].original_index;
+                sorted[start_pos] = true;
 
                 // Process the current cycle
-                if (next != current) {
-                    while (next != start) {
+                if (next_pos != start_pos) {
+                    while (next_pos != start_pos) {
                         // If an element is in the place of another element that compares
                         // equivalent, it means that this element was actually already in
                         // a suitable place, so we count one more cycle as if it was an
@@ -88,20 +94,19 @@ namespace probe
                         }
                         // Locate the next element of the cycle
                         current = next;
-                        auto next_pos = std::distance(first, next);
-                        next = iterators[next_pos];
                         sorted[next_pos] = true;
+                        next = iterators[next_pos].original_location;
+                        next_pos = iterators[next_pos].original_index;
                     }
                 }
 
                 ++cycles;
 
                 // Find the next cycle
-                auto&& sorted_it = sorted.begin() + std::distance(first, start);
                 do {
                     ++start;
-                    ++sorted_it;
-                } while (start != last && *sorted_it);
+                    ++start_pos;
+                } while (start != last && sorted[start_pos]);
             }
             return size - cycles;
         }
-- 
2.43.0


From a4518d841068c3515f2a3c6442d17de1937182d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:22 +0000
Subject: [PATCH 24/28] fix: Insertion sort of a sorted list takes more than
 linear time

---
 .../detail/container_aware/insertion_sort.h       | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/cpp-sort/detail/container_aware/insertion_sort.h b/include/cpp-sort/detail/container_aware/insertion_sort.h
index fec76a8..7d87cff 100644
--- a/include/cpp-sort/detail/container_aware/insertion_sort.h
+++ b/include/cpp-sort/detail/container_aware/insertion_sort.h
@@ -32,6 +32,7 @@ namespace cppsort
                                  Compare compare, Projection projection)
             -> void
         {
+            auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
 
             auto it = collection.begin();
@@ -43,6 +44,13 @@ namespace cppsort
 
             ++it;
             while (it != last) {
+                // Nothing to search when the value is already in place
+                if (not comp(proj(*it), proj(*std::prev(it)))) {
+                    ++it;
+                    ++size;
+                    continue;
+                }
+
                 auto insertion_point = upper_bound_n(collection.begin(), size, proj(*it),
                                                      compare, projection);
                 if (insertion_point == it) {
@@ -72,6 +80,13 @@ namespace cppsort
             typename std::forward_list<Args...>::difference_type size = 1;
 
             while (std::next(it) != last) {
+                // Nothing to search when the value is already in place
+                if (not comp(proj(*std::next(it)), proj(*it))) {
+                    ++it;
+                    ++size;
+                    continue;
+                }
+
                 // Binary search to find where to insert the value, we can't
                 // use upper_bound because of the specificities of forward_list
                 auto&& value = proj(*std::next(it));
-- 
2.43.0


From b929d5d26e068c914a77576c3d3166fa2c08b5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:27 +0000
Subject: [PATCH 25/28] fix: Storage of over-aligned types is misaligned

Buffers, lists and vectors of temporary elements were allocated with the
functions for types of default alignment.
---
 include/cpp-sort/detail/fixed_size_list.h  |   6 +-
 include/cpp-sort/detail/immovable_vector.h |  10 +-
 include/cpp-sort/detail/memory.h           | 113 ++++++++++++++++-----
 include/cpp-sort/detail/spinsort.h         |   6 +-
 include/cpp-sort/detail/timsort.h          |   8 +-
 5 files changed, 101 insertions(+), 42 deletions(-)

diff --git a/include/cpp-sort/detail/fixed_size_list.h b/include/cpp-sort/detail/fixed_size_list.h
index 4ffdc09..1eed887 100644
--- a/include/cpp-sort/detail/fixed_size_list.h
+++ b/include/cpp-sort/detail/fixed_size_list.h
@@ -142,8 +142,8 @@ namespace detail
 
             explicit fixed_size_list_node_pool(std::ptrdiff_t capacity):
                 // Allocate enough space to store N nodes
-                buffer_(static_cast<node_type*>(::operator new(capacity * sizeof(node_type))),
-                       operator_deleter(capacity * sizeof(node_type))),
+                buffer_(detail::allocate_storage<node_type>(capacity),
+                        storage_deleter(capacity)),
                 first_free_(buffer_.get()),
                 capacity_(capacity)
             {
@@ -239,7 +239,7 @@ namespace detail
             // Data members
 
             // Backing storage
-            std::unique_ptr<node_type, operator_deleter> buffer_;
+            std::unique_ptr<node_type, storage_deleter> buffer_;
 
             // First free node of the pool
             list_node_base* first_free_;
diff --git a/include/cpp-sort/detail/immovable_vector.h b/include/cpp-sort/detail/immovable_vector.h
index 5527621..46346ec 100644
--- a/include/cpp-sort/detail/immovable_vector.h
+++ b/include/cpp-sort/detail/immovable_vector.h
@@ -47,9 +47,7 @@ namespace detail
 
             explicit immovable_vector(std::ptrdiff_t n):
                 capacity_(n),
-                memory_(
-                    static_cast<T*>(::operator new(n * sizeof(T)))
-                ),
+                memory_(detail::allocate_storage<T>(n)),
                 end_(memory_)
             {}
 
@@ -62,11 +60,7 @@ namespace detail
                 detail::destroy(memory_, end_);
 
                 // Free the allocated memory
-#ifdef __cpp_sized_deallocation
-                ::operator delete(memory_, capacity_ * sizeof(T));
-#else
-                ::operator delete(memory_);
-#endif
+                detail::deallocate_storage(memory_, capacity_);
             }
 
             ////////////////////////////////////////////////////////////
diff --git a/include/cpp-sort/detail/memory.h b/include/cpp-sort/detail/memory.h
index baee595..0e698bc 100644
--- a/include/cpp-sort/detail/memory.h
+++ b/include/cpp-sort/detail/memory.h
@@ -61,33 +61,105 @@ namespace detail
     }
 
     ////////////////////////////////////////////////////////////
-    // Deleter for ::operator new(std::size_t)
+    // Raw storage for objects of type T: when the language has
+    // support for it, use the allocation functions for types
+    // with a new-extended alignment if needed
 
-    struct operator_deleter
+    template<typename T, typename... Args>
+    auto allocate_storage(std::false_type, std::ptrdiff_t count, const Args&... args)
+        -> T*
     {
-        operator_deleter() = default;
+        return static_cast<T*>(::operator new(count * sizeof(T), args...));
+    }
 
+    template<typename T>
+    auto deallocate_storage(std::false_type, T* ptr, std::ptrdiff_t count) noexcept
+        -> void
+    {
 #ifdef __cpp_sized_deallocation
-        std::size_t size = 0;
+        ::operator delete(ptr, count * sizeof(T));
+#else
+        (void)count;
+        ::operator delete(ptr);
+#endif
+    }
 
-        constexpr explicit operator_deleter(std::size_t size) noexcept:
-            size(size)
-        {}
+#ifdef __cpp_aligned_new
+    template<typename T>
+    struct has_new_extended_alignment:
+        std::integral_constant<bool, (alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__)>
+    {};
 
-        inline auto operator()(void* pointer) const noexcept
-            -> void
-        {
-            ::operator delete(pointer, size);
-        }
+    template<typename T, typename... Args>
+    auto allocate_storage(std::true_type, std::ptrdiff_t count, const Args&... args)
+        -> T*
+    {
+        return static_cast<T*>(::operator new(
+            count * sizeof(T), static_cast<std::align_val_t>(alignof(T)), args...
+        ));
+    }
+
+    template<typename T>
+    auto deallocate_storage(std::true_type, T* ptr, std::ptrdiff_t count) noexcept
+        -> void
+    {
+#ifdef __cpp_sized_deallocation
+        ::operator delete(ptr, count * sizeof(T), static_cast<std::align_val_t>(alignof(T)));
 #else
-        constexpr explicit operator_deleter(std::size_t) noexcept {}
+        (void)count;
+        ::operator delete(ptr, static_cast<std::align_val_t>(alignof(T)));
+#endif
+    }
+#else
+    template<typename T>
+    struct has_new_extended_alignment:
+        std::false_type
+    {};
+#endif
 
-        inline auto operator()(void* pointer) const noexcept
+    // Allocate storage for count objects, throw on failure
+    template<typename T>
+    auto allocate_storage(std::ptrdiff_t count)
+        -> T*
+    {
+        return detail::allocate_storage<T>(has_new_extended_alignment<T>{}, count);
+    }
+
+    // Allocate storage for count objects, return a null pointer on failure
+    template<typename T>
+    auto try_allocate_storage(std::ptrdiff_t count) noexcept
+        -> T*
+    {
+        return detail::allocate_storage<T>(has_new_extended_alignment<T>{}, count, std::nothrow);
+    }
+
+    // Deallocate storage allocated with one of the functions above
+    template<typename T>
+    auto deallocate_storage(T* ptr, std::ptrdiff_t count) noexcept
+        -> void
+    {
+        detail::deallocate_storage(has_new_extended_alignment<T>{}, ptr, count);
+    }
+
+    ////////////////////////////////////////////////////////////
+    // Deleter for allocate_storage
+
+    struct storage_deleter
+    {
+        std::ptrdiff_t count = 0;
+
+        storage_deleter() = default;
+
+        constexpr explicit storage_deleter(std::ptrdiff_t count) noexcept:
+            count(count)
+        {}
+
+        template<typename T>
+        auto operator()(T* pointer) const noexcept
             -> void
         {
-            ::operator delete(pointer);
+            detail::deallocate_storage(pointer, count);
         }
-#endif
     };
 
     ////////////////////////////////////////////////////////////
@@ -165,7 +237,7 @@ namespace detail
         // Try to gradually allocate less memory until we get a valid buffer
         // or until the amount of memory to allocate reaches 0
         while (count > min_count) {
-            res.first = static_cast<T*>(::operator new(count * sizeof(T), std::nothrow));
+            res.first = detail::try_allocate_storage<T>(count);
             if (res.first) {
                 res.second = count;
                 break;
@@ -179,12 +251,7 @@ namespace detail
     auto return_temporary_buffer(T* ptr, std::size_t count) noexcept
         -> void
     {
-#ifdef __cpp_sized_deallocation
-        ::operator delete(ptr, count * sizeof(T));
-#else
-        (void)count;
-        ::operator delete(ptr);
-#endif
+        detail::deallocate_storage(ptr, count);
     }
 
     ////////////////////////////////////////////////////////////
diff --git a/include/cpp-sort/detail/spinsort.h b/include/cpp-sort/detail/spinsort.h
index a95c863..fd86136 100644
--- a/include/cpp-sort/detail/spinsort.h
+++ b/include/cpp-sort/detail/spinsort.h
@@ -327,9 +327,9 @@ namespace detail
 
                     // Buffer used by the merge operations
                     auto buffer_size = nelem_1;
-                    std::unique_ptr<rvalue_type, operator_deleter> buffer(
-                        static_cast<rvalue_type*>(::operator new(buffer_size * sizeof(rvalue_type))),
-                        operator_deleter(buffer_size * sizeof(rvalue_type))
+                    std::unique_ptr<rvalue_type, storage_deleter> buffer(
+                        detail::allocate_storage<rvalue_type>(buffer_size),
+                        storage_deleter(buffer_size)
                     );
                     range_buf range_aux(buffer.get(), (buffer.get() + buffer_size));
 
diff --git a/include/cpp-sort/detail/timsort.h b/include/cpp-sort/detail/timsort.h
index 790cc45..2453dbf 100644
--- a/include/cpp-sort/detail/timsort.h
+++ b/include/cpp-sort/detail/timsort.h
@@ -89,7 +89,7 @@ namespace detail
         difference_type minGallop_ = min_gallop;
 
         // Buffer used for merges
-        std::unique_ptr<rvalue_type, operator_deleter> buffer;
+        std::unique_ptr<rvalue_type, storage_deleter> buffer;
         std::ptrdiff_t buffer_size = 0;
 
         // Silence GCC -Winline warning
@@ -420,10 +420,8 @@ namespace detail
                 // easily avoidable out-of-memory errors and make sized
                 // deallocation work properly
                 buffer.reset(nullptr);
-                buffer.get_deleter() = operator_deleter(new_size * sizeof(rvalue_type));
-                buffer.reset(static_cast<rvalue_type*>(
-                    ::operator new(new_size * sizeof(rvalue_type))
-                ));
+                buffer.get_deleter() = storage_deleter(new_size);
+                buffer.reset(detail::allocate_storage<rvalue_type>(new_size));
                 buffer_size = new_size;
             }
         }
-- 
2.43.0


From 4ffeaeb1acd39eb0a4cbb07a757501a3ff401825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:56 +0000
Subject: [PATCH 26/28] fix: verge_adapter reads iterators it may have moved
 from

The arguments of a call are evaluated in any order: the size was computed
from iterators that were moved by other arguments of the same call. It also
needed random-access iterators, where the adapter accepts bidirectional
ones.
---
 include/cpp-sort/adapters/verge_adapter.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/adapters/verge_adapter.h b/include/cpp-sort/adapters/verge_adapter.h
index b9a9f8c..cd0bfcb 100644
--- a/include/cpp-sort/adapters/verge_adapter.h
+++ b/include/cpp-sort/adapters/verge_adapter.h
@@ -83,7 +83,8 @@ namespace cppsort
                     "verge_adapter requires a stronger iterator category"
                 );
 
-                verge::sort<Stable>(std::move(first), std::move(last), last - first,
+                auto size = std::distance(first, last);
+                verge::sort<Stable>(std::move(first), std::move(last), size,
                                     std::move(compare), std::move(projection),
                                     this->get());
             }
-- 
2.43.0


From fc6276fdd6cb02d7bcc2904bab4dab191736a85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:28 +0000
Subject: [PATCH 27/28] fix: Dis and Osc swallow std::bad_alloc thrown by user
 code

Only allocate memory in the try block, so that an exception thrown by the
comparison or by the projection always propagates to the caller.
---
 include/cpp-sort/probes/dis.h | 21 ++++++++++++++-------
 include/cpp-sort/probes/osc.h | 28 ++++++++++++++++++----------
 2 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/include/cpp-sort/probes/dis.h b/include/cpp-sort/probes/dis.h
index ffd9a34..a4593ef 100644
--- a/include/cpp-sort/probes/dis.h
+++ b/include/cpp-sort/probes/dis.h
@@ -13,13 +13,13 @@
 #include <iterator>
 #include <new>
 #include <utility>
+#include <vector>
 #include <cpp-sort/sorter_facade.h>
 #include <cpp-sort/sorter_traits.h>
 #include <cpp-sort/utility/as_function.h>
 #include <cpp-sort/utility/functional.h>
 #include <cpp-sort/utility/size.h>
 #include <cpp-sort/utility/static_const.h>
-#include "../detail/immovable_vector.h"
 #include "../detail/is_p_sorted.h"
 #include "../detail/iterator_traits.h"
 #include "../detail/type_traits.h"
@@ -59,6 +59,7 @@ namespace probe
         template<typename BidirectionalIterator, typename Compare, typename Projection>
         auto allocating_dis_probe_algo(BidirectionalIterator first, BidirectionalIterator last,
                                        cppsort::detail::difference_type_t<BidirectionalIterator> size,
+                                       std::vector<BidirectionalIterator>& lr_cummax,
                                        Compare compare, Projection projection)
             -> ::cppsort::detail::difference_type_t<BidirectionalIterator>
         {
@@ -69,12 +70,7 @@ namespace probe
             // Space-optimized version of the algorithm described in *Roughly Sorting:
             // Sequential and Parallel Approach* by T. Altman and Y. Igarashi
 
-            if (size < 2) {
-                return 0;
-            }
-
             // Algorithm LR: cumulative max from left to right
-            cppsort::detail::immovable_vector<BidirectionalIterator> lr_cummax(size);
             lr_cummax.emplace_back(first);
             for (auto it = std::next(first); it != last; ++it) {
                 if (comp(proj(*lr_cummax.back()), proj(*it))) {
@@ -117,14 +113,25 @@ namespace probe
                             std::bidirectional_iterator_tag)
             -> ::cppsort::detail::difference_type_t<BidirectionalIterator>
         {
+            if (size < 2) {
+                return 0;
+            }
+
+            // Only the allocation is performed in the try block: an std::bad_alloc
+            // thrown by the comparison or projection has to reach the caller
+            std::vector<BidirectionalIterator> lr_cummax;
             try {
-                return allocating_dis_probe_algo(first, last, size, compare, projection);
+                lr_cummax.reserve(size);
             } catch (std::bad_alloc&) {
                 return inplace_dis_probe_algo(
                     first, last, size,
                     std::move(compare), std::move(projection)
                 );
             }
+            return allocating_dis_probe_algo(
+                first, last, size, lr_cummax,
+                std::move(compare), std::move(projection)
+            );
         }
 
         template<typename ForwardIterator, typename Compare, typename Projection>
diff --git a/include/cpp-sort/probes/osc.h b/include/cpp-sort/probes/osc.h
index a3cabe6..fb46b73 100644
--- a/include/cpp-sort/probes/osc.h
+++ b/include/cpp-sort/probes/osc.h
@@ -22,7 +22,6 @@
 #include <cpp-sort/utility/size.h>
 #include <cpp-sort/utility/static_const.h>
 #include "../detail/equal_range.h"
-#include "../detail/immovable_vector.h"
 #include "../detail/iterator_traits.h"
 #include "../detail/pdqsort.h"
 #include "../detail/type_traits.h"
@@ -71,7 +70,8 @@ namespace probe
 
         template<typename ForwardIterator, typename Compare, typename Projection>
         auto allocating_osc_algo(ForwardIterator first, ForwardIterator last,
-                                 cppsort::detail::difference_type_t<ForwardIterator> size,
+                                 std::vector<ForwardIterator>& iterators,
+                                 std::vector<cppsort::detail::difference_type_t<ForwardIterator>>& cross,
                                  Compare compare, Projection projection)
             -> ::cppsort::detail::difference_type_t<ForwardIterator>
         {
@@ -79,15 +79,10 @@ namespace probe
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
 
-            if (size < 2) {
-                return 0;
-            }
-
             ////////////////////////////////////////////////////////////
             // Indirectly sort the iterators
 
             // Copy the iterators in a vector
-            cppsort::detail::immovable_vector<ForwardIterator> iterators(size);
             for (auto it = first; it != last; ++it) {
                 iterators.emplace_back(it);
             }
@@ -117,8 +112,6 @@ namespace probe
             //       twice as slow. Comments in the code contain the lines
             //       required to reduce the search space again.
 
-            std::vector<difference_type> cross(size, 0);
-
             auto prev_bounds = cppsort::detail::equal_range(
                 iterators.begin(), iterators.end(), proj(*first),
                 compare, utility::indirect{} | projection
@@ -163,14 +156,29 @@ namespace probe
                       Compare compare, Projection projection)
             -> ::cppsort::detail::difference_type_t<ForwardIterator>
         {
+            using difference_type = ::cppsort::detail::difference_type_t<ForwardIterator>;
+
+            if (size < 2) {
+                return 0;
+            }
+
+            // Only the allocations are performed in the try block: an std::bad_alloc
+            // thrown by the comparison or projection has to reach the caller
+            std::vector<ForwardIterator> iterators;
+            std::vector<difference_type> cross;
             try {
-                return allocating_osc_algo(first, last, size, compare, projection);
+                iterators.reserve(size);
+                cross.resize(size, 0);
             } catch (std::bad_alloc&) {
                 return inplace_osc_algo(
                     first, last, size,
                     std::move(compare), std::move(projection)
                 );
             }
+            return allocating_osc_algo(
+                first, last, iterators, cross,
+                std::move(compare), std::move(projection)
+            );
         }
 
         struct osc_impl
-- 
2.43.0


From 63dbea91b83d9c323afe2a0cb0b1e0fe24e91def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:55 +0000
Subject: [PATCH 28/28] fix: float_spread_sorter mis-sorts doubles in a narrow
 negative range

---
 .../cpp-sort/detail/spreadsort/detail/float_sort.h   | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/cpp-sort/detail/spreadsort/detail/float_sort.h b/include/cpp-sort/detail/spreadsort/detail/float_sort.h
index 2264910..2b4c5a8 100644
--- a/include/cpp-sort/detail/spreadsort/detail/float_sort.h
+++ b/include/cpp-sort/detail/spreadsort/detail/float_sort.h
@@ -289,11 +289,13 @@ namespace detail
         ++current;
       }
       //The index of the first positive bin
-      //Must be divided small enough to fit into an integer
-      unsigned first_positive = (div_min < 0) ? unsigned(-div_min) : 0;
-      //Resetting if all bins are negative
-      if (cache_offset + first_positive > cache_end)
-        first_positive = cache_end - cache_offset;
+      //The number of negative bins might not fit into an unsigned integer
+      //when all bins are negative and the range of values is small
+      unsigned first_positive = 0;
+      if (div_min < 0) {
+        Size_type negative_count = Size_type(0) - Size_type(div_min);
+        first_positive = (negative_count < bin_count) ? unsigned(negative_count) : bin_count;
+      }
       //Reversing the order of the negative bins
       //Note that because of the negative/positive ordering direction flip
       //We can not depend upon bin order and positions matching up
-- 
2.43.0

