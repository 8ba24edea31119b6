From 35a45de269e2304dcebe9686f3bb97da78c0a5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:36 +0000
Subject: [PATCH 01/39] fix: binary local operations on 1d arrays must not
 convert the second argument to the first's type

---
 source/fern/algorithm/core/binary_local_operation.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fern/algorithm/core/binary_local_operation.h b/source/fern/algorithm/core/binary_local_operation.h
index 6cca36b..68a3c18 100644
--- a/source/fern/algorithm/core/binary_local_operation.h
+++ b/source/fern/algorithm/core/binary_local_operation.h
@@ -169,7 +169,7 @@ void operation_0d_1d(
                 output_no_data_policy.mark_as_no_data(i);
             }
             else {
-                const_reference<Value1> v2(get(value2, i));
+                const_reference<Value2> v2(get(value2, i));
 
                 if(!OutOfDomainPolicy::within_domain(v1, v2)) {
                     // Input value is out of domain. Mark result value as
@@ -222,7 +222,7 @@ void operation_1d_1d(
         }
         else {
             const_reference<Value1> v1(get(value1, i));
-            const_reference<Value1> v2(get(value2, i));
+            const_reference<Value2> v2(get(value2, i));
 
             if(!OutOfDomainPolicy::within_domain(v1, v2)) {
                 // Input value is out of domain. Mark result value as
-- 
2.43.0


From a0f571e48036b660c7444eb9ec5c1851fa7a1eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:39 +0000
Subject: [PATCH 02/39] fix: adding an unsigned value to a negative value is
 not out of range

---
 source/fern/algorithm/algebra/elementary/detail/add.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/fern/algorithm/algebra/elementary/detail/add.h b/source/fern/algorithm/algebra/elementary/detail/add.h
index 8869f4c..22e68c4 100644
--- a/source/fern/algorithm/algebra/elementary/detail/add.h
+++ b/source/fern/algorithm/algebra/elementary/detail/add.h
@@ -129,7 +129,10 @@ struct within_range<
         FERN_STATIC_ASSERT(std::is_same, typename fern::algorithm::Result<
             Value1, Value2>::type, Result)
 
-        return value1 > 0 ? result >= value1 : result <= value1;
+        // signed + unsigned
+        // Adding an unsigned value never makes the result smaller, whatever
+        // the sign of value1.
+        return result >= value1;
     }
 };
 
-- 
2.43.0


From fc642a330b6d11b92f1ef2da37662b78fa8e42c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:43 +0000
Subject: [PATCH 03/39] fix: clamp with one scalar bound compiles and selects
 the right algorithm in parallel

---
 source/fern/algorithm/core/detail/clamp.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/fern/algorithm/core/detail/clamp.h b/source/fern/algorithm/core/detail/clamp.h
index 8702d52..bc1b062 100644
--- a/source/fern/algorithm/core/detail/clamp.h
+++ b/source/fern/algorithm/core/detail/clamp.h
@@ -411,7 +411,7 @@ struct ClampByArgumentCategory<
             auto function = std::bind(
                 clamp_1d_1d_1d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -507,9 +507,9 @@ struct ClampByArgumentCategory<
 
         for(auto const& block_range: ranges) {
             auto function = std::bind(
-                clamp_1d_1d_1d<
+                clamp_1d_1d_0d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -605,9 +605,9 @@ struct ClampByArgumentCategory<
 
         for(auto const& block_range: ranges) {
             auto function = std::bind(
-                clamp_1d_1d_1d<
+                clamp_1d_0d_1d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -717,7 +717,7 @@ struct ClampByArgumentCategory<
             auto function = std::bind(
                 clamp_2d_2d_2d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -823,7 +823,7 @@ struct ClampByArgumentCategory<
             auto function = std::bind(
                 clamp_2d_2d_0d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -929,7 +929,7 @@ struct ClampByArgumentCategory<
             auto function = std::bind(
                 clamp_2d_0d_2d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
-- 
2.43.0


From 47fd7fbdb5bbd0fc62285308dcd115a3fe4b3227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:19 +0000
Subject: [PATCH 04/39] fix: copying an empty range in parallel must not access
 the first of no blocks

---
 source/fern/algorithm/core/detail/copy.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/fern/algorithm/core/detail/copy.h b/source/fern/algorithm/core/detail/copy.h
index a095309..5f073b4 100644
--- a/source/fern/algorithm/core/detail/copy.h
+++ b/source/fern/algorithm/core/detail/copy.h
@@ -160,12 +160,14 @@ struct CopyByArgumentCategory<
             };
         }
 
+        // An empty range has no blocks.
         std::vector<Position> position_per_block(ranges.size());
-        position_per_block[0] = position;
 
-        for(size_t i = 1; i < ranges.size(); ++i) {
-            position_per_block[i] = get<0>(position_per_block[i - 1]) +
-                ranges[i - 1].size();
+        for(size_t i = 0; i < ranges.size(); ++i) {
+            position_per_block[i] = i == 0
+                ? position
+                : Position(get<0>(position_per_block[i - 1]) +
+                    ranges[i - 1].size());
         }
 
         for(size_t i = 0; i < ranges.size(); ++i) {
-- 
2.43.0


From 49c782d8457abd25719ec88487c6b274623e6a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:26 +0000
Subject: [PATCH 05/39] fix: sequential if of a 1d condition and two scalars
 must not assert that the scalar has the array's size

---
 source/fern/algorithm/core/detail/if.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fern/algorithm/core/detail/if.h b/source/fern/algorithm/core/detail/if.h
index 2afbdbb..c199942 100644
--- a/source/fern/algorithm/core/detail/if.h
+++ b/source/fern/algorithm/core/detail/if.h
@@ -1299,7 +1299,7 @@ struct IfThenElseByArgumentCategory<
         FalseValue const& false_value,
         Result& result)
     {
-        assert(size(true_value) == size(condition));
+        assert(size(result) == size(condition));
 
         if_then_else_1d_0d_0d(input_no_data_policy, output_no_data_policy,
             IndexRanges<1>{IndexRange(0, size(condition))}, condition,
-- 
2.43.0


From 1463479eae97d05b6f565945f25932d4ad7df5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:57 +0000
Subject: [PATCH 06/39] fix: merging counts must add the other count, not one

---
 source/fern/algorithm/accumulator/count.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/fern/algorithm/accumulator/count.h b/source/fern/algorithm/accumulator/count.h
index 1754768..016872a 100644
--- a/source/fern/algorithm/accumulator/count.h
+++ b/source/fern/algorithm/accumulator/count.h
@@ -173,10 +173,13 @@ template<
 template<
     template<typename, typename, typename> class OutOfRangePolicy>
 inline bool Count<Argument, Result>::operator|=(
-    Count const& /* other */)
+    Count const& other)
 {
-    // Value doesn't matter. We're counting, not summing.
-    return operator()<OutOfRangePolicy>(Argument{});
+    Result previous_count{_count};
+    _count += other._count;
+
+    return OutOfRangePolicy<Result, Result, Result>::within_range(
+        previous_count, other._count, _count);
 }
 
 
-- 
2.43.0


From 40e2ca7ee7050ed06d0bd72997c28047c5af9fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:58 +0000
Subject: [PATCH 07/39] fix: merging sums must not convert the other sum to the
 type of the arguments

---
 source/fern/algorithm/accumulator/sum.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/fern/algorithm/accumulator/sum.h b/source/fern/algorithm/accumulator/sum.h
index a4fac1e..78f2bec 100644
--- a/source/fern/algorithm/accumulator/sum.h
+++ b/source/fern/algorithm/accumulator/sum.h
@@ -193,7 +193,11 @@ template<
 inline bool Sum<Argument, Result>::operator|=(
     Sum const& other)
 {
-    return operator()<OutOfRangePolicy>(other._sum);
+    Result previous_sum{_sum};
+    _sum += other._sum;
+
+    return OutOfRangePolicy<Result, Result, Result>::within_range(
+        previous_sum, other._sum, _sum);
 }
 
 
-- 
2.43.0


From 569320f595c8123b21ee2d31296ed3b78291dcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:32 +0000
Subject: [PATCH 08/39] fix: a default constructed mode accumulator must not
 contain a zero

---
 source/fern/algorithm/accumulator/mode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fern/algorithm/accumulator/mode.h b/source/fern/algorithm/accumulator/mode.h
index d747d37..3f619c7 100644
--- a/source/fern/algorithm/accumulator/mode.h
+++ b/source/fern/algorithm/accumulator/mode.h
@@ -65,7 +65,7 @@ template<
     typename Result>
 inline Mode<Argument, Result>::Mode()
 
-    : _frequency_table(0)
+    : _frequency_table()
 
 {
 }
-- 
2.43.0


From 36fad686b80b9c1feaf0d7432ece04fe2dd8833e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:40 +0000
Subject: [PATCH 09/39] fix: a binary aggregate operation must visit all rows
 until it finds a value

---
 source/fern/algorithm/core/binary_aggregate_operation.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/fern/algorithm/core/binary_aggregate_operation.h b/source/fern/algorithm/core/binary_aggregate_operation.h
index 99cc065..8e9b1e5 100644
--- a/source/fern/algorithm/core/binary_aggregate_operation.h
+++ b/source/fern/algorithm/core/binary_aggregate_operation.h
@@ -151,6 +151,7 @@ void operation_2d(
         // Initialize result.
         for(; i < end1; ++i) {
 
+            j = begin2;
             index_ = index(values, i, j);
 
             for(; j < end2; ++j) {
-- 
2.43.0


From f7237cf3f9cfa49003847a14e04755f6da977d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:17 +0000
Subject: [PATCH 10/39] fix: parallel binary aggregate operations must not mark
 the result as no-data because of a block without data

The tasks of all blocks marked the one result, and the partial results of
blocks without data took part in the final result.
---
 .../core/binary_aggregate_operation.h         | 175 ++++++++++--------
 1 file changed, 101 insertions(+), 74 deletions(-)

diff --git a/source/fern/algorithm/core/binary_aggregate_operation.h b/source/fern/algorithm/core/binary_aggregate_operation.h
index 8e9b1e5..4f1617b 100644
--- a/source/fern/algorithm/core/binary_aggregate_operation.h
+++ b/source/fern/algorithm/core/binary_aggregate_operation.h
@@ -7,6 +7,7 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #pragma once
+#include <tuple>
 #include "fern/core/data_type_traits.h"
 #include "fern/core/base_class.h"
 #include "fern/feature/core/data_customization_point/masked_array.h"
@@ -50,13 +51,11 @@ template<
     template<typename, typename, typename> class OutOfRangePolicy,
     typename Algorithm,
     typename InputNoDataPolicy,
-    typename OutputNoDataPolicy,
     typename Value,
     typename Result>
-void operation_1d(
+std::tuple<bool, bool> operation_1d(
     Algorithm const& algorithm,
     InputNoDataPolicy const& input_no_data_policy,
-    OutputNoDataPolicy& output_no_data_policy,
     IndexRanges<1> const& index_ranges,
     Value const& values,
     value_type<Value> const& value,
@@ -68,6 +67,7 @@ void operation_1d(
     size_t const begin = index_ranges[0].begin();
     size_t const end = index_ranges[0].end();
     bool data_seen{false};
+    bool result_within_range{true};
 
     if(begin < end) {
 
@@ -96,7 +96,7 @@ void operation_1d(
 
                         if(!OORP::within_range(a_value, get(value),
                                 tmp_result)) {
-                            output_no_data_policy.mark_as_no_data();
+                            result_within_range = false;
                             break;
                         }
 
@@ -104,12 +104,14 @@ void operation_1d(
                     }
                 }
             }
+
+            if(!result_within_range) {
+                break;
+            }
         }
     }
 
-    if(!data_seen) {
-        output_no_data_policy.mark_as_no_data();
-    }
+    return std::make_tuple(data_seen, result_within_range);
 }
 
 
@@ -118,13 +120,11 @@ template<
     template<typename, typename, typename> class OutOfRangePolicy,
     typename Algorithm,
     typename InputNoDataPolicy,
-    typename OutputNoDataPolicy,
     typename Value,
     typename Result>
-void operation_2d(
+std::tuple<bool, bool> operation_2d(
     Algorithm const& algorithm,
     InputNoDataPolicy const& input_no_data_policy,
-    OutputNoDataPolicy& output_no_data_policy,
     IndexRanges<2> const& index_ranges,
     Value const& values,
     value_type<Value> const& value,
@@ -138,6 +138,7 @@ void operation_2d(
     size_t const begin2 = index_ranges[1].begin();
     size_t const end2 = index_ranges[1].end();
     bool data_seen{false};
+    bool result_within_range{true};
 
     if(begin1 < end1 && begin2 < end2) {
 
@@ -197,7 +198,7 @@ void operation_2d(
                         // lhs, rhs, lhs + rhs
                         if(!OORP::within_range(a_value, get(value),
                                 tmp_result)) {
-                            output_no_data_policy.mark_as_no_data();
+                            result_within_range = false;
                             break;
                         }
 
@@ -220,9 +221,7 @@ void operation_2d(
         }
     }
 
-    if(!data_seen) {
-        output_no_data_policy.mark_as_no_data();
-    }
+    return std::make_tuple(data_seen, result_within_range);
 }
 
 
@@ -304,6 +303,57 @@ struct Aggregate<
 };
 
 
+/*!
+    @brief      Wait for all blocks and accumulate the results of those that
+                contain data into one single result.
+
+    Blocks without data don't have a result. The final result is no-data if
+    none of the blocks contains data, or if the result of a block is out of
+    range.
+*/
+template<
+    typename Aggregator,
+    template<typename, typename, typename> class OutOfRangePolicy,
+    typename OutputNoDataPolicy,
+    typename ExecutionPolicy,
+    typename Result>
+void aggregate_results(
+    std::vector<std::future<std::tuple<bool, bool>>>& futures,
+    OutputNoDataPolicy& output_no_data_policy,
+    ExecutionPolicy& execution_policy,
+    std::vector<Result> const& results_per_block,
+    Result& result)
+{
+    std::vector<Result> results;
+    results.reserve(results_per_block.size());
+    bool results_within_range{true};
+
+    for(size_t i = 0; i < futures.size(); ++i) {
+        bool data_seen;
+        bool result_within_range;
+
+        std::tie(data_seen, result_within_range) = futures[i].get();
+
+        if(data_seen) {
+            results.emplace_back(results_per_block[i]);
+            results_within_range &= result_within_range;
+        }
+    }
+
+    if(results.empty() || !results_within_range) {
+        output_no_data_policy.mark_as_no_data();
+    }
+    else {
+        Aggregator aggregator;
+
+        Aggregate<DataTypeTraits<Result>::is_masking>::template
+            apply<OutOfRangePolicy>(
+                aggregator, output_no_data_policy, execution_policy,
+                results, result);
+    }
+}
+
+
 template<
     typename Algorithm,
     typename Aggregator,
@@ -392,11 +442,18 @@ struct BinaryAggregateOperation<
         Result& result)
     {
         Algorithm algorithm;
+        bool data_seen;
+        bool result_within_range;
 
-        operation_1d<OutOfDomainPolicy, OutOfRangePolicy>(algorithm,
-            input_no_data_policy, output_no_data_policy,
-            IndexRanges<1>{IndexRange(0, size(values))},
-            values, value, result);
+        std::tie(data_seen, result_within_range) =
+            operation_1d<OutOfDomainPolicy, OutOfRangePolicy>(algorithm,
+                input_no_data_policy,
+                IndexRanges<1>{IndexRange(0, size(values))},
+                values, value, result);
+
+        if(!data_seen || !result_within_range) {
+            output_no_data_policy.mark_as_no_data();
+        }
     }
 
 };
@@ -432,52 +489,30 @@ struct BinaryAggregateOperation<
         value_type<Value> const& value,
         Result& result)
     {
-        // Algorithm algorithm;
-
-        // operation_1d<OutOfDomainPolicy, OutOfRangePolicy>(algorithm,
-        //     input_no_data_policy, output_no_data_policy,
-        //     IndexRanges<1>{IndexRange(0, size(values))},
-        //     values, value, result);
-
         ThreadPool& pool(execution_policy.thread_pool());
         size_t const size_ = size(values);
         std::vector<IndexRanges<1>> ranges = index_ranges(pool.size(), size_);
-        std::vector<std::future<void>> futures;
+        std::vector<std::future<std::tuple<bool, bool>>> futures;
         futures.reserve(ranges.size());
         std::vector<Result> results_per_block(ranges.size(), Result(0));
 
         Algorithm algorithm;
 
-        // TODO OutputNoDataPolicy must be created ad-hoc here. It must have
-        //      an effect on the values in results_per_block.
-        //      This depends on whether or not results are masking. Probably
-        //      need to dispatch this whole function on that. First create a
-        //      failing unit test that fails: include a block with only
-        //      no-data and verify the result is not no-data.
         for(size_t i = 0; i < ranges.size(); ++i) {
             auto const& block_range(ranges[i]);
             auto function = std::bind(
                 operation_1d<OutOfDomainPolicy, OutOfRangePolicy, Algorithm,
-                    InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, Result>,
+                    InputNoDataPolicy, Value, Result>,
                 std::cref(algorithm),
-                std::cref(input_no_data_policy),
-                std::ref(output_no_data_policy), std::cref(block_range),
+                std::cref(input_no_data_policy), std::cref(block_range),
                 std::cref(values), std::cref(value),
                 std::ref(results_per_block[i]));
             futures.emplace_back(pool.submit(function));
         }
 
-        for(auto& future: futures) {
-            future.get();
-        }
-
-        Aggregator aggregator;
-
-        Aggregate<DataTypeTraits<Result>::is_masking>::template
-            apply<OutOfRangePolicy>(
-                aggregator, output_no_data_policy, execution_policy,
-                results_per_block, result);
+        aggregate_results<Aggregator, OutOfRangePolicy>(futures,
+            output_no_data_policy, execution_policy, results_per_block,
+            result);
     }
 
 };
@@ -585,13 +620,20 @@ struct BinaryAggregateOperation<
         Result& result)
     {
         Algorithm algorithm;
-
-        operation_2d<OutOfDomainPolicy, OutOfRangePolicy>(algorithm,
-            input_no_data_policy, output_no_data_policy,
-            IndexRanges<2>{
-                IndexRange(0, size(values, 0)),
-                IndexRange(0, size(values, 1))},
-            values, value, result);
+        bool data_seen;
+        bool result_within_range;
+
+        std::tie(data_seen, result_within_range) =
+            operation_2d<OutOfDomainPolicy, OutOfRangePolicy>(algorithm,
+                input_no_data_policy,
+                IndexRanges<2>{
+                    IndexRange(0, size(values, 0)),
+                    IndexRange(0, size(values, 1))},
+                values, value, result);
+
+        if(!data_seen || !result_within_range) {
+            output_no_data_policy.mark_as_no_data();
+        }
     }
 
 };
@@ -632,42 +674,27 @@ struct BinaryAggregateOperation<
         size_t const size2 = size(values, 1);
         std::vector<IndexRanges<2>> ranges = index_ranges(pool.size(),
             size1, size2);
-        std::vector<std::future<void>> futures;
+        std::vector<std::future<std::tuple<bool, bool>>> futures;
         futures.reserve(ranges.size());
         std::vector<Result> results_per_block(ranges.size(), Result(0));
 
         Algorithm algorithm;
 
-        // TODO OutputNoDataPolicy must be created ad-hoc here. It must have
-        //      an effect on the values in results_per_block.
-        //      This depends on whether or not results are masking. Probably
-        //      need to dispatch this whole function on that. First create a
-        //      failing unit test that fails: include a block with only
-        //      no-data and verify the result is not no-data.
         for(size_t i = 0; i < ranges.size(); ++i) {
             auto const& block_range(ranges[i]);
             auto function = std::bind(
                 operation_2d<OutOfDomainPolicy, OutOfRangePolicy, Algorithm,
-                    InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, Result>,
+                    InputNoDataPolicy, Value, Result>,
                 std::cref(algorithm),
-                std::cref(input_no_data_policy),
-                std::ref(output_no_data_policy), std::cref(block_range),
+                std::cref(input_no_data_policy), std::cref(block_range),
                 std::cref(values), std::cref(value),
                 std::ref(results_per_block[i]));
             futures.emplace_back(pool.submit(function));
         }
 
-        for(auto& future: futures) {
-            future.get();
-        }
-
-        Aggregator aggregator;
-
-        Aggregate<DataTypeTraits<Result>::is_masking>::template
-            apply<OutOfRangePolicy>(
-                aggregator, output_no_data_policy, execution_policy,
-                results_per_block, result);
+        aggregate_results<Aggregator, OutOfRangePolicy>(futures,
+            output_no_data_policy, execution_policy, results_per_block,
+            result);
     }
 
 };
-- 
2.43.0


From 7ee5f56290b780cb48ff331e735fc6df75e33241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:17 +0000
Subject: [PATCH 11/39] fix: aggregating a 2d array must stop at a first value
 that is out of range

---
 source/fern/algorithm/core/unary_aggregate_operation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fern/algorithm/core/unary_aggregate_operation.h b/source/fern/algorithm/core/unary_aggregate_operation.h
index ea34091..3ee4999 100644
--- a/source/fern/algorithm/core/unary_aggregate_operation.h
+++ b/source/fern/algorithm/core/unary_aggregate_operation.h
@@ -262,7 +262,7 @@ std::tuple<bool, bool, Accumulator> operation_2d(
         }
 
         // Continue where the previous loop stopped.
-        if(accumulator_initialized) {
+        if(accumulator_initialized && result_within_range) {
 
             for(; i < end1; ++i) {
 
-- 
2.43.0


From eef45d1d99714785da15498685fd8fa4dcfc95a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:58 +0000
Subject: [PATCH 12/39] fix: the mean of integers must not convert the number
 of values to the type of the result

---
 source/fern/algorithm/accumulator/mean.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/source/fern/algorithm/accumulator/mean.h b/source/fern/algorithm/accumulator/mean.h
index 347d974..d54a39c 100644
--- a/source/fern/algorithm/accumulator/mean.h
+++ b/source/fern/algorithm/accumulator/mean.h
@@ -9,6 +9,8 @@
 #pragma once
 #include <cassert>
 #include <cstddef>
+#include <cstdint>
+#include <type_traits>
 #include "fern/algorithm/accumulator/count.h"
 #include "fern/algorithm/accumulator/sum.h"
 
@@ -174,9 +176,15 @@ inline Result Mean<Argument, Result>::operator()() const
 {
     assert(_count() > 0);
 
-    // _sum() returns result in Result. Dividing by _count may implicitly cast
-    // it to some other type.
-    return _sum() / static_cast<Result>(_count());
+    // Divide using a type that is able to represent both the sum and the
+    // count. A small integral Result type is not able to represent a large
+    // count.
+    using Quotient = std::conditional_t<std::is_integral<Result>::value,
+        std::conditional_t<std::is_signed<Result>::value,
+            std::intmax_t, std::uintmax_t>, Result>;
+
+    return static_cast<Result>(
+        static_cast<Quotient>(_sum()) / static_cast<Quotient>(_count()));
 }
 
 
-- 
2.43.0


From 6cc1ba66bc88d4fb3a219025404ab1016e4ee34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:39 +0000
Subject: [PATCH 13/39] fix: lax and laplacian of float rasters compile

---
 source/fern/algorithm/algebra/vector/detail/laplacian.h | 3 ++-
 source/fern/algorithm/algebra/vector/detail/lax.h       | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/fern/algorithm/algebra/vector/detail/laplacian.h b/source/fern/algorithm/algebra/vector/detail/laplacian.h
index bd452a9..c0c4ce6 100644
--- a/source/fern/algorithm/algebra/vector/detail/laplacian.h
+++ b/source/fern/algorithm/algebra/vector/detail/laplacian.h
@@ -193,7 +193,8 @@ struct Laplacian<
                 divide::OutOfDomainPolicy,
                 divide::OutOfRangePolicy>(
                     input_no_data_policy_, output_no_data_policy,
-                    execution_policy, result, cell_area(value), result);
+                    execution_policy, result,
+                    static_cast<Float>(cell_area(value)), result);
         }
     }
 
diff --git a/source/fern/algorithm/algebra/vector/detail/lax.h b/source/fern/algorithm/algebra/vector/detail/lax.h
index 3c306d5..4127bc6 100644
--- a/source/fern/algorithm/algebra/vector/detail/lax.h
+++ b/source/fern/algorithm/algebra/vector/detail/lax.h
@@ -125,7 +125,7 @@ struct Lax<
                 //       output-no-data-policy passed in.
                 algorithm::multiply::OutOfRangePolicy>(
                     input_no_data_policy_, output_no_data_policy,
-                    execution_policy, (1.0 - fraction), value,
+                    execution_policy, Float(1) - fraction, value,
                     multiplied_values);
         }
 
-- 
2.43.0


From ae8de1458e11e803331060a57aa3f43b4a2862f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:53 +0000
Subject: [PATCH 14/39] fix: gradient of a raster with at most one column or
 row must not read outside of it

---
 .../algebra/vector/detail/gradient.h          | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/source/fern/algorithm/algebra/vector/detail/gradient.h b/source/fern/algorithm/algebra/vector/detail/gradient.h
index a21366a..5d5a2ed 100644
--- a/source/fern/algorithm/algebra/vector/detail/gradient.h
+++ b/source/fern/algorithm/algebra/vector/detail/gradient.h
@@ -55,7 +55,8 @@ static void gradient_x_2d(
         index_center = index(result, i, index_ranges[1].begin());
         index_right = index_center + 1;
 
-        for(size_t j = index_ranges[1].begin(); j < 1; ++j) {
+        for(size_t j = index_ranges[1].begin();
+                j < std::min<size_t>(1u, index_ranges[1].end()); ++j) {
 
             // Left cell of window lies outside of the raster. Consider it
             // no-data.
@@ -64,9 +65,9 @@ static void gradient_x_2d(
                 output_no_data_policy.mark_as_no_data(index_center);
             }
             else {
-                assert(j + 1 < size2);
-
-                if(!std::get<0>(input_no_data_policy).is_no_data(index_right)) {
+                // A raster of one column has no right cell either.
+                if(j + 1 < size2 && !std::get<0>(input_no_data_policy)
+                        .is_no_data(index_right)) {
                     // x c r
                     get(result, index_center) = gradient(
                         get(value, index_center),
@@ -89,10 +90,10 @@ static void gradient_x_2d(
     for(size_t i = index_ranges[0].begin(); i < index_ranges[0].end(); ++i) {
 
         index_center = index(result, i, size2 - 1);
-        assert(index_center > 0);
         index_left = index_center - 1;
 
-        for(size_t j = size2 - 1; j < index_ranges[1].end(); ++j) {
+        for(size_t j = std::max<size_t>(1u, size2 - 1);
+                j < index_ranges[1].end(); ++j) {
 
             // Right cell of window lies outside of the raster. Consider it
             // no-data.
@@ -201,7 +202,8 @@ static void gradient_y_2d(
     size_t index_top, index_center, index_bottom;
 
     // Handle top border, in case it is within the index range.
-    for(size_t i = index_ranges[0].begin(); i < 1; ++i) {
+    for(size_t i = index_ranges[0].begin();
+            i < std::min<size_t>(1u, index_ranges[0].end()); ++i) {
 
         index_center = index(result, i, index_ranges[1].begin());
         index_bottom = index(result, i + 1, index_ranges[1].begin());
@@ -216,10 +218,9 @@ static void gradient_y_2d(
                 output_no_data_policy.mark_as_no_data(index_center);
             }
             else {
-                assert(i + 1 < size1);
-
-                if(!std::get<0>(input_no_data_policy).is_no_data(
-                        index_bottom)) {
+                // A raster of one row has no bottom cell either.
+                if(i + 1 < size1 && !std::get<0>(input_no_data_policy)
+                        .is_no_data(index_bottom)) {
                     // x c r
                     get(result, index_center) = gradient(
                         get(value, index_center),
@@ -239,7 +240,8 @@ static void gradient_y_2d(
 
 
     // Handle bottom border, in case it is within the index range.
-    for(size_t i = size1 - 1; i < index_ranges[0].end(); ++i) {
+    for(size_t i = std::max<size_t>(1u, size1 - 1);
+            i < index_ranges[0].end(); ++i) {
 
         index_center = index(result, i, index_ranges[1].begin());
         index_top = index(result, i - 1, index_ranges[1].begin());
-- 
2.43.0


From 2da21c201ebf519c9ecf3bb9087df685373bc95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:16 +0000
Subject: [PATCH 15/39] fix: replacing no-data by the focal average must not
 fail in the middle of no-data

---
 .../replace_no_data_by_focal_average.h          | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/source/fern/algorithm/convolution/replace_no_data_by_focal_average.h b/source/fern/algorithm/convolution/replace_no_data_by_focal_average.h
index 7578156..a4cc32a 100644
--- a/source/fern/algorithm/convolution/replace_no_data_by_focal_average.h
+++ b/source/fern/algorithm/convolution/replace_no_data_by_focal_average.h
@@ -83,16 +83,13 @@ inline bool ReplaceNoDataByFocalAverage::value(
         }
     }
 
-    // At least the focal cell must be non-no-data. Otherwise it would have
-    // been skipped entirely and we wouldn't be here.
-    // -> But in case the radius of the convolution kernel is larger than 1,
-    // the focal cell is not surrounding cell row, col. It is possible that
-    // cell row, col is surrounded by only no-data.
-    // TODO Handle this once this assertion fails for the first time.
-    assert(nr_values_seen > 0u);
-    value = sum_of_values / static_cast<Value>(nr_values_seen);
-
-    return true;
+    // In case cell row, col is surrounded by only no-data, there is no value to
+    // replace it by.
+    if(nr_values_seen > 0u) {
+        value = sum_of_values / static_cast<Value>(nr_values_seen);
+    }
+
+    return nr_values_seen > 0u;
 }
 
 } // namespace convolve
-- 
2.43.0


From 154ea74fcd9b703b0b4fef4357ae53ede56b474f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:10 +0000
Subject: [PATCH 16/39] fix: cells without weight must not count as values seen
 by convolution

---
 .../algorithm/convolution/detail/convolve.h   | 59 +++++++++++++------
 1 file changed, 42 insertions(+), 17 deletions(-)

diff --git a/source/fern/algorithm/convolution/detail/convolve.h b/source/fern/algorithm/convolution/detail/convolve.h
index 7e773d2..7e9e555 100644
--- a/source/fern/algorithm/convolution/detail/convolve.h
+++ b/source/fern/algorithm/convolution/detail/convolve.h
@@ -195,7 +195,9 @@ struct ConvolveNorthWestCorner
                                 if(out_of_image_kernel_row < first_row_kernel ||
                                     out_of_image_kernel_col < first_col_kernel)
                                 {
-                                    if(OutOfImagePolicy::value_north_west(
+                                    if(is_not_equal(get(kernel, kernel_index),
+                                            W{0}) &&
+                                        OutOfImagePolicy::value_north_west(
                                             input_no_data_policy,
                                             source,
                                             out_of_image_kernel_row,
@@ -228,7 +230,8 @@ struct ConvolveNorthWestCorner
                         for(size_t col = 0; col < nr_cols_kernel; ++col) {
                             if(std::get<0>(input_no_data_policy).is_no_data(
                                     source_index)) {
-                                if(AFNP::value(
+                                if(is_not_equal(get(kernel, kernel_index),
+                                        W{0}) && AFNP::value(
                                         input_no_data_policy,
                                         source,
                                         size(source, 0),
@@ -374,7 +377,9 @@ struct ConvolveNorthEastCorner
                                 if(out_of_image_kernel_row < first_row_kernel ||
                                     out_of_image_kernel_col >= nr_cols_kernel) {
 
-                                    if(OutOfImagePolicy::value_north_east(
+                                    if(is_not_equal(get(kernel, kernel_index),
+                                            W{0}) &&
+                                        OutOfImagePolicy::value_north_east(
                                             input_no_data_policy,
                                             source,
                                             out_of_image_kernel_row,
@@ -407,7 +412,8 @@ struct ConvolveNorthEastCorner
                         for(size_t col = 0; col < nr_cols_kernel; ++col) {
                             if(std::get<0>(input_no_data_policy).is_no_data(
                                     source_index)) {
-                                if(AFNP::value(
+                                if(is_not_equal(get(kernel, kernel_index),
+                                        W{0}) && AFNP::value(
                                         input_no_data_policy,
                                         source,
                                         size(source, 0),
@@ -554,7 +560,9 @@ struct ConvolveSouthWestCorner
                                     out_of_image_kernel_col < first_col_kernel)
                                 {
 
-                                    if(OutOfImagePolicy::value_south_west(
+                                    if(is_not_equal(get(kernel, kernel_index),
+                                            W{0}) &&
+                                        OutOfImagePolicy::value_south_west(
                                             input_no_data_policy,
                                             source,
                                             out_of_image_kernel_row,
@@ -587,7 +595,8 @@ struct ConvolveSouthWestCorner
                         for(size_t col = 0; col < nr_cols_kernel; ++col) {
                             if(std::get<0>(input_no_data_policy).is_no_data(
                                     source_index)) {
-                                if(AFNP::value(
+                                if(is_not_equal(get(kernel, kernel_index),
+                                        W{0}) && AFNP::value(
                                         input_no_data_policy,
                                         source,
                                         size(source, 0),
@@ -736,7 +745,9 @@ struct ConvolveSouthEastCorner
                                 if(out_of_image_kernel_row >= nr_rows_kernel ||
                                     out_of_image_kernel_col >= nr_cols_kernel) {
 
-                                    if(OutOfImagePolicy::value_south_east(
+                                    if(is_not_equal(get(kernel, kernel_index),
+                                            W{0}) &&
+                                        OutOfImagePolicy::value_south_east(
                                             input_no_data_policy,
                                             source,
                                             out_of_image_kernel_row,
@@ -769,7 +780,8 @@ struct ConvolveSouthEastCorner
                         for(size_t col = 0; col < nr_cols_kernel; ++col) {
                             if(std::get<0>(input_no_data_policy).is_no_data(
                                     source_index)) {
-                                if(AFNP::value(
+                                if(is_not_equal(get(kernel, kernel_index),
+                                        W{0}) && AFNP::value(
                                         input_no_data_policy,
                                         source,
                                         size(source, 0),
@@ -915,7 +927,9 @@ struct ConvolveNorthSide
 
                                 if(out_of_image_kernel_row < first_row_kernel) {
 
-                                    if(OutOfImagePolicy::value_north(
+                                    if(is_not_equal(get(kernel, kernel_index),
+                                            W{0}) &&
+                                        OutOfImagePolicy::value_north(
                                             input_no_data_policy,
                                             source,
                                             out_of_image_kernel_row,
@@ -948,7 +962,8 @@ struct ConvolveNorthSide
                         for(size_t col = 0; col < nr_cols_kernel; ++col) {
                             if(std::get<0>(input_no_data_policy).is_no_data(
                                     source_index)) {
-                                if(AFNP::value(
+                                if(is_not_equal(get(kernel, kernel_index),
+                                        W{0}) && AFNP::value(
                                         input_no_data_policy,
                                         source,
                                         size(source, 0),
@@ -1094,7 +1109,9 @@ struct ConvolveWestSide
 
                                 if(out_of_image_kernel_col < first_col_kernel) {
 
-                                    if(OutOfImagePolicy::value_west(
+                                    if(is_not_equal(get(kernel, kernel_index),
+                                            W{0}) &&
+                                        OutOfImagePolicy::value_west(
                                             input_no_data_policy,
                                             source,
                                             out_of_image_kernel_row,
@@ -1127,7 +1144,8 @@ struct ConvolveWestSide
                         for(size_t col = 0; col < nr_cols_kernel; ++col) {
                             if(std::get<0>(input_no_data_policy).is_no_data(
                                     source_index)) {
-                                if(AFNP::value(
+                                if(is_not_equal(get(kernel, kernel_index),
+                                        W{0}) && AFNP::value(
                                         input_no_data_policy,
                                         source,
                                         size(source, 0),
@@ -1275,7 +1293,9 @@ struct ConvolveEastSide
 
                                 if(out_of_image_kernel_col >= nr_cols_kernel) {
 
-                                    if(OutOfImagePolicy::value_east(
+                                    if(is_not_equal(get(kernel, kernel_index),
+                                            W{0}) &&
+                                        OutOfImagePolicy::value_east(
                                             input_no_data_policy,
                                             source,
                                             out_of_image_kernel_row,
@@ -1308,7 +1328,8 @@ struct ConvolveEastSide
                         for(size_t col = 0; col < nr_cols_kernel; ++col) {
                             if(std::get<0>(input_no_data_policy).is_no_data(
                                     source_index)) {
-                                if(AFNP::value(
+                                if(is_not_equal(get(kernel, kernel_index),
+                                        W{0}) && AFNP::value(
                                         input_no_data_policy,
                                         source,
                                         size(source, 0),
@@ -1455,7 +1476,9 @@ struct ConvolveSouthSide
 
                                 if(out_of_image_kernel_row >= nr_rows_kernel) {
 
-                                    if(OutOfImagePolicy::value_south(
+                                    if(is_not_equal(get(kernel, kernel_index),
+                                            W{0}) &&
+                                        OutOfImagePolicy::value_south(
                                             input_no_data_policy,
                                             source,
                                             out_of_image_kernel_row,
@@ -1488,7 +1511,8 @@ struct ConvolveSouthSide
                         for(size_t col = 0; col < nr_cols_kernel; ++col) {
                             if(std::get<0>(input_no_data_policy).is_no_data(
                                     source_index)) {
-                                if(AFNP::value(
+                                if(is_not_equal(get(kernel, kernel_index),
+                                        W{0}) && AFNP::value(
                                         input_no_data_policy,
                                         source,
                                         size(source, 0),
@@ -1628,7 +1652,8 @@ struct ConvolveInnerPart<true>
                         for(size_t col = 0; col < nr_cols_kernel; ++col) {
                             if(std::get<0>(input_no_data_policy).is_no_data(
                                     source_index)) {
-                                if(AFNP::value(
+                                if(is_not_equal(get(kernel, kernel_index),
+                                        W{0}) && AFNP::value(
                                         input_no_data_policy,
                                         source,
                                         size(source, 0),
-- 
2.43.0


From d22f4010a19b5e283ea252e92f90d34fbff80851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:10 +0000
Subject: [PATCH 17/39] fix: a failing parallel algorithm must not return
 before its tasks have stopped

An exception that left the function while submitted tasks were still queued or
executing, destroyed the objects these tasks refer to.
---
 .../algebra/vector/detail/gradient.h          |   5 +-
 .../algorithm/convolution/detail/convolve.h   |  28 ++--
 .../core/binary_aggregate_operation.h         |  13 +-
 .../algorithm/core/binary_local_operation.h   |  31 ++--
 source/fern/algorithm/core/detail/clamp.h     |  13 +-
 source/fern/algorithm/core/detail/compress.h  |   9 +-
 source/fern/algorithm/core/detail/copy.h      |   6 +-
 source/fern/algorithm/core/detail/cover.h     |   5 +-
 source/fern/algorithm/core/detail/if.h        |  29 ++--
 .../algorithm/core/detail/intersect_no_data.h |   3 +-
 .../algorithm/core/detail/merge_no_data.h     |   3 +-
 source/fern/algorithm/core/detail/offset.h    |   9 +-
 .../algorithm/core/detail/unite_no_data.h     |   3 +-
 .../algorithm/core/nullary_local_operation.h  |  11 +-
 .../core/unary_aggregate_operation.h          |   5 +-
 .../core/unary_disaggregate_operation.h       |  11 +-
 .../algorithm/core/unary_local_operation.h    |  11 +-
 source/fern/core/task_futures.h               | 139 ++++++++++++++++++
 18 files changed, 239 insertions(+), 95 deletions(-)
 create mode 100644 source/fern/core/task_futures.h

diff --git a/source/fern/algorithm/algebra/vector/detail/gradient.h b/source/fern/algorithm/algebra/vector/detail/gradient.h
index 5d5a2ed..ffa4bad 100644
--- a/source/fern/algorithm/algebra/vector/detail/gradient.h
+++ b/source/fern/algorithm/algebra/vector/detail/gradient.h
@@ -10,6 +10,7 @@
 #include <algorithm>
 #include "fern/core/base_class.h"
 #include "fern/core/data_customization_point.h"
+#include "fern/core/task_futures.h"
 #include "fern/algorithm/policy/execution_policy.h"
 #include "fern/algorithm/core/index_ranges.h"
 
@@ -416,7 +417,7 @@ struct GradientXByArgumentCategory<
         size_t const size2 = size(result, 1);
         std::vector<IndexRanges<2>> ranges = index_ranges(pool.size(),
             size1, size2);
-        std::vector<std::future<void>> futures;
+        TaskFutures<void> futures;
         futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
@@ -514,7 +515,7 @@ struct GradientYByArgumentCategory<
         size_t const size2 = size(result, 1);
         std::vector<IndexRanges<2>> ranges = index_ranges(pool.size(),
             size1, size2);
-        std::vector<std::future<void>> futures;
+        TaskFutures<void> futures;
         futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
diff --git a/source/fern/algorithm/convolution/detail/convolve.h b/source/fern/algorithm/convolution/detail/convolve.h
index 7e9e555..eac809a 100644
--- a/source/fern/algorithm/convolution/detail/convolve.h
+++ b/source/fern/algorithm/convolution/detail/convolve.h
@@ -22,6 +22,7 @@
 #include "fern/core/data_type_traits.h"
 #include "fern/core/base_class.h"
 #include "fern/core/math.h"
+#include "fern/core/task_futures.h"
 
 
 namespace fern {
@@ -2044,7 +2045,6 @@ struct Convolve<
         DestinationImage& destination)
     {
         ThreadPool& pool(execution_policy.thread_pool());
-        std::vector<std::future<void>> futures;
 
         using BorderFunction = void(*)(InputNoDataPolicy const&,
             OutputNoDataPolicy&, SourceImage const&, Kernel const&,
@@ -2053,6 +2053,20 @@ struct Convolve<
             OutputNoDataPolicy&, IndexRanges<2> const&, SourceImage const&,
             Kernel const&, DestinationImage&);
 
+        // Divide the inner part in a number of pieces that can be handled
+        // concurrently.
+        assert(size(source, 0) == size(destination, 0));
+        assert(size(source, 1) == size(destination, 1));
+        assert(2 * fern::radius(kernel) <= size(source, 0));
+        assert(2 * fern::radius(kernel) <= size(source, 1));
+
+        size_t const size1 = size(source, 0) - 2 * fern::radius(kernel);
+        size_t const size2 = size(source, 1) - 2 * fern::radius(kernel);
+        std::vector<IndexRanges<2>> index_ranges =
+            fern::algorithm::index_ranges(pool.size(), size1, size2);
+
+        TaskFutures<void> futures;
+
         // Corners.
         CREATE_BORDER_TASK(NorthWestCorner)
         CREATE_BORDER_TASK(NorthEastCorner)
@@ -2066,18 +2080,6 @@ struct Convolve<
         CREATE_BORDER_TASK(SouthSide)
 
         // Inner part.
-        // Divide the inner part in a number of pieces that can be handled
-        // concurrently.
-        assert(size(source, 0) == size(destination, 0));
-        assert(size(source, 1) == size(destination, 1));
-        assert(2 * fern::radius(kernel) <= size(source, 0));
-        assert(2 * fern::radius(kernel) <= size(source, 1));
-
-        size_t const size1 = size(source, 0) - 2 * fern::radius(kernel);
-        size_t const size2 = size(source, 1) - 2 * fern::radius(kernel);
-        std::vector<IndexRanges<2>> index_ranges =
-            fern::algorithm::index_ranges(pool.size(), size1, size2);
-
         for(auto& ranges: index_ranges) {
             // Offset indices by the radius of the kernel.
             ranges = IndexRanges<2>{
diff --git a/source/fern/algorithm/core/binary_aggregate_operation.h b/source/fern/algorithm/core/binary_aggregate_operation.h
index 4f1617b..8ed48fb 100644
--- a/source/fern/algorithm/core/binary_aggregate_operation.h
+++ b/source/fern/algorithm/core/binary_aggregate_operation.h
@@ -10,6 +10,7 @@
 #include <tuple>
 #include "fern/core/data_type_traits.h"
 #include "fern/core/base_class.h"
+#include "fern/core/task_futures.h"
 #include "fern/feature/core/data_customization_point/masked_array.h"
 #include "fern/algorithm/core/index_ranges.h"
 #include "fern/algorithm/policy/policies.h"
@@ -318,7 +319,7 @@ template<
     typename ExecutionPolicy,
     typename Result>
 void aggregate_results(
-    std::vector<std::future<std::tuple<bool, bool>>>& futures,
+    TaskFutures<std::tuple<bool, bool>>& futures,
     OutputNoDataPolicy& output_no_data_policy,
     ExecutionPolicy& execution_policy,
     std::vector<Result> const& results_per_block,
@@ -492,11 +493,10 @@ struct BinaryAggregateOperation<
         ThreadPool& pool(execution_policy.thread_pool());
         size_t const size_ = size(values);
         std::vector<IndexRanges<1>> ranges = index_ranges(pool.size(), size_);
-        std::vector<std::future<std::tuple<bool, bool>>> futures;
-        futures.reserve(ranges.size());
         std::vector<Result> results_per_block(ranges.size(), Result(0));
-
         Algorithm algorithm;
+        TaskFutures<std::tuple<bool, bool>> futures;
+        futures.reserve(ranges.size());
 
         for(size_t i = 0; i < ranges.size(); ++i) {
             auto const& block_range(ranges[i]);
@@ -674,11 +674,10 @@ struct BinaryAggregateOperation<
         size_t const size2 = size(values, 1);
         std::vector<IndexRanges<2>> ranges = index_ranges(pool.size(),
             size1, size2);
-        std::vector<std::future<std::tuple<bool, bool>>> futures;
-        futures.reserve(ranges.size());
         std::vector<Result> results_per_block(ranges.size(), Result(0));
-
         Algorithm algorithm;
+        TaskFutures<std::tuple<bool, bool>> futures;
+        futures.reserve(ranges.size());
 
         for(size_t i = 0; i < ranges.size(); ++i) {
             auto const& block_range(ranges[i]);
diff --git a/source/fern/algorithm/core/binary_local_operation.h b/source/fern/algorithm/core/binary_local_operation.h
index 68a3c18..c56c1e9 100644
--- a/source/fern/algorithm/core/binary_local_operation.h
+++ b/source/fern/algorithm/core/binary_local_operation.h
@@ -11,6 +11,7 @@
 #include "fern/core/assert.h"
 #include "fern/core/base_class.h"
 #include "fern/core/data_customization_point.h"
+#include "fern/core/task_futures.h"
 #include "fern/algorithm/core/index_ranges.h"
 #include "fern/algorithm/policy/execution_policy.h"
 
@@ -623,10 +624,9 @@ struct BinaryLocalOperation<
         ThreadPool& pool(execution_policy.thread_pool());
         size_t const size_ = size(value1);
         std::vector<IndexRanges<1>> ranges = index_ranges(pool.size(), size_);
-        std::vector<std::future<void>> futures;
-        futures.reserve(ranges.size());
-
         Algorithm algorithm;
+        TaskFutures<void> futures;
+        futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
             auto function = std::bind(
@@ -806,10 +806,9 @@ struct BinaryLocalOperation<
         ThreadPool& pool(execution_policy.thread_pool());
         size_t const size_ = size(value2);
         std::vector<IndexRanges<1>> ranges = index_ranges(pool.size(), size_);
-        std::vector<std::future<void>> futures;
-        futures.reserve(ranges.size());
-
         Algorithm algorithm;
+        TaskFutures<void> futures;
+        futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
             auto function = std::bind(
@@ -993,10 +992,9 @@ struct BinaryLocalOperation<
         ThreadPool& pool(execution_policy.thread_pool());
         size_t const size_ = size(value1);
         std::vector<IndexRanges<1>> ranges = index_ranges(pool.size(), size_);
-        std::vector<std::future<void>> futures;
-        futures.reserve(ranges.size());
-
         Algorithm algorithm;
+        TaskFutures<void> futures;
+        futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
             auto function = std::bind(
@@ -1184,10 +1182,9 @@ struct BinaryLocalOperation<
         size_t const size2 = size(value1, 1);
         std::vector<IndexRanges<2>> ranges = index_ranges(pool.size(),
             size1, size2);
-        std::vector<std::future<void>> futures;
-        futures.reserve(ranges.size());
-
         Algorithm algorithm;
+        TaskFutures<void> futures;
+        futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
             auto function = std::bind(
@@ -1375,10 +1372,9 @@ struct BinaryLocalOperation<
         size_t const size2 = size(value2, 1);
         std::vector<IndexRanges<2>> ranges = index_ranges(pool.size(),
             size1, size2);
-        std::vector<std::future<void>> futures;
-        futures.reserve(ranges.size());
-
         Algorithm algorithm;
+        TaskFutures<void> futures;
+        futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
             auto function = std::bind(
@@ -1570,10 +1566,9 @@ struct BinaryLocalOperation<
         size_t const size2 = size(value1, 1);
         std::vector<IndexRanges<2>> ranges = index_ranges(pool.size(),
             size1, size2);
-        std::vector<std::future<void>> futures;
-        futures.reserve(ranges.size());
-
         Algorithm algorithm;
+        TaskFutures<void> futures;
+        futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
             auto function = std::bind(
diff --git a/source/fern/algorithm/core/detail/clamp.h b/source/fern/algorithm/core/detail/clamp.h
index bc1b062..67287b2 100644
--- a/source/fern/algorithm/core/detail/clamp.h
+++ b/source/fern/algorithm/core/detail/clamp.h
@@ -10,6 +10,7 @@
 #include <boost/algorithm/clamp.hpp>
 #include "fern/core/base_class.h"
 #include "fern/core/data_type_traits.h"
+#include "fern/core/task_futures.h"
 #include "fern/algorithm/core/index_ranges.h"
 #include "fern/algorithm/policy/execution_policy.h"
 
@@ -404,7 +405,7 @@ struct ClampByArgumentCategory<
         ThreadPool& pool(execution_policy.thread_pool());
         size_t const size_ = size(result);
         std::vector<IndexRanges<1>> ranges = index_ranges(pool.size(), size_);
-        std::vector<std::future<void>> futures;
+        TaskFutures<void> futures;
         futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
@@ -502,7 +503,7 @@ struct ClampByArgumentCategory<
         ThreadPool& pool(execution_policy.thread_pool());
         size_t const size_ = size(result);
         std::vector<IndexRanges<1>> ranges = index_ranges(pool.size(), size_);
-        std::vector<std::future<void>> futures;
+        TaskFutures<void> futures;
         futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
@@ -600,7 +601,7 @@ struct ClampByArgumentCategory<
         ThreadPool& pool(execution_policy.thread_pool());
         size_t const size_ = size(result);
         std::vector<IndexRanges<1>> ranges = index_ranges(pool.size(), size_);
-        std::vector<std::future<void>> futures;
+        TaskFutures<void> futures;
         futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
@@ -710,7 +711,7 @@ struct ClampByArgumentCategory<
         size_t const size2 = size(result, 1);
         std::vector<IndexRanges<2>> ranges = index_ranges(pool.size(),
             size1, size2);
-        std::vector<std::future<void>> futures;
+        TaskFutures<void> futures;
         futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
@@ -816,7 +817,7 @@ struct ClampByArgumentCategory<
         size_t const size2 = size(result, 1);
         std::vector<IndexRanges<2>> ranges = index_ranges(pool.size(),
             size1, size2);
-        std::vector<std::future<void>> futures;
+        TaskFutures<void> futures;
         futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
@@ -922,7 +923,7 @@ struct ClampByArgumentCategory<
         size_t const size2 = size(result, 1);
         std::vector<IndexRanges<2>> ranges = index_ranges(pool.size(),
             size1, size2);
-        std::vector<std::future<void>> futures;
+        TaskFutures<void> futures;
         futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
diff --git a/source/fern/algorithm/core/detail/compress.h b/source/fern/algorithm/core/detail/compress.h
index e1ec425..0b1a67f 100644
--- a/source/fern/algorithm/core/detail/compress.h
+++ b/source/fern/algorithm/core/detail/compress.h
@@ -10,6 +10,7 @@
 #include "fern/core/assert.h"
 #include "fern/core/base_class.h"
 #include "fern/core/point.h"
+#include "fern/core/task_futures.h"
 #include "fern/algorithm/core/copy.h"
 #include "fern/algorithm/core/index_ranges.h"
 #include "fern/algorithm/policy/execution_policy.h"
@@ -205,9 +206,9 @@ struct CompressByArgumentCategory<
         ThreadPool& pool(execution_policy.thread_pool());
         size_t const size_ = size(result);
         std::vector<IndexRanges<1>> ranges = index_ranges(pool.size(), size_);
-        std::vector<std::future<void>> futures;
-        futures.reserve(ranges.size());
         std::vector<Count> counts_per_block(ranges.size());
+        TaskFutures<void> futures;
+        futures.reserve(ranges.size());
 
         for(size_t i = 0; i < ranges.size(); ++i) {
             auto const& block_range(ranges[i]);
@@ -289,9 +290,9 @@ struct CompressByArgumentCategory<
         size_t const size2 = size(value, 1);
         std::vector<IndexRanges<2>> ranges = index_ranges(pool.size(),
             size1, size2);
-        std::vector<std::future<void>> futures;
-        futures.reserve(ranges.size());
         std::vector<Count> counts_per_block(ranges.size());
+        TaskFutures<void> futures;
+        futures.reserve(ranges.size());
 
         for(size_t i = 0; i < ranges.size(); ++i) {
             auto const& block_range(ranges[i]);
diff --git a/source/fern/algorithm/core/detail/copy.h b/source/fern/algorithm/core/detail/copy.h
index 5f073b4..1551c17 100644
--- a/source/fern/algorithm/core/detail/copy.h
+++ b/source/fern/algorithm/core/detail/copy.h
@@ -9,6 +9,7 @@
 #pragma once
 #include "fern/core/base_class.h"
 #include "fern/core/data_customization_point.h"
+#include "fern/core/task_futures.h"
 #include "fern/algorithm/core/data_type_traits/index_ranges.h"
 #include "fern/algorithm/policy/execution_policy.h"
 
@@ -143,8 +144,6 @@ struct CopyByArgumentCategory<
         ThreadPool& pool(execution_policy.thread_pool());
         size_t const size_ = size(range);
         std::vector<IndexRanges<1>> ranges = index_ranges(pool.size(), size_);
-        std::vector<std::future<void>> futures;
-        futures.reserve(ranges.size());
 
         // The range passed in contains the indices of the elements to copy.
         // The index ranges just calculated, point to subsets of indices
@@ -170,6 +169,9 @@ struct CopyByArgumentCategory<
                     ranges[i - 1].size());
         }
 
+        TaskFutures<void> futures;
+        futures.reserve(ranges.size());
+
         for(size_t i = 0; i < ranges.size(); ++i) {
             auto const& block_range(ranges[i]);
             auto function = std::bind(
diff --git a/source/fern/algorithm/core/detail/cover.h b/source/fern/algorithm/core/detail/cover.h
index 0114563..ae0f5b2 100644
--- a/source/fern/algorithm/core/detail/cover.h
+++ b/source/fern/algorithm/core/detail/cover.h
@@ -10,6 +10,7 @@
 #include "fern/core/array_2d_traits.h"
 #include "fern/core/data_customization_point/scalar.h"
 #include "fern/core/base_class.h"
+#include "fern/core/task_futures.h"
 #include "fern/algorithm/core/index_ranges.h"
 #include "fern/algorithm/policy/execution_policy.h"
 
@@ -248,7 +249,7 @@ struct CoverByArgumentCategory<
         size_t const size2 = size(result, 1);
         std::vector<IndexRanges<2>> ranges = index_ranges(pool.size(),
             size1, size2);
-        std::vector<std::future<void>> futures;
+        TaskFutures<void> futures;
         futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
@@ -346,7 +347,7 @@ struct CoverByArgumentCategory<
         size_t const size2 = size(result, 1);
         std::vector<IndexRanges<2>> ranges = index_ranges(pool.size(),
             size1, size2);
-        std::vector<std::future<void>> futures;
+        TaskFutures<void> futures;
         futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
diff --git a/source/fern/algorithm/core/detail/if.h b/source/fern/algorithm/core/detail/if.h
index c199942..341b14c 100644
--- a/source/fern/algorithm/core/detail/if.h
+++ b/source/fern/algorithm/core/detail/if.h
@@ -10,6 +10,7 @@
 #include "fern/core/array_2d_traits.h"
 #include "fern/core/base_class.h"
 #include "fern/core/data_customization_point.h"
+#include "fern/core/task_futures.h"
 #include "fern/algorithm/core/index_ranges.h"
 #include "fern/algorithm/policy/execution_policy.h"
 
@@ -1344,7 +1345,7 @@ struct IfThenElseByArgumentCategory<
         ThreadPool& pool(execution_policy.thread_pool());
         size_t const size_ = size(condition);
         std::vector<IndexRanges<1>> ranges = index_ranges(pool.size(), size_);
-        std::vector<std::future<void>> futures;
+        TaskFutures<void> futures;
         futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
@@ -1444,7 +1445,7 @@ struct IfThenElseByArgumentCategory<
         ThreadPool& pool(execution_policy.thread_pool());
         size_t const size_ = size(condition);
         std::vector<IndexRanges<1>> ranges = index_ranges(pool.size(), size_);
-        std::vector<std::future<void>> futures;
+        TaskFutures<void> futures;
         futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
@@ -1544,7 +1545,7 @@ struct IfThenElseByArgumentCategory<
         ThreadPool& pool(execution_policy.thread_pool());
         size_t const size_ = size(condition);
         std::vector<IndexRanges<1>> ranges = index_ranges(pool.size(), size_);
-        std::vector<std::future<void>> futures;
+        TaskFutures<void> futures;
         futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
@@ -1646,7 +1647,7 @@ struct IfThenElseByArgumentCategory<
         ThreadPool& pool(execution_policy.thread_pool());
         size_t const size_ = size(condition);
         std::vector<IndexRanges<1>> ranges = index_ranges(pool.size(), size_);
-        std::vector<std::future<void>> futures;
+        TaskFutures<void> futures;
         futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
@@ -1742,7 +1743,7 @@ struct IfThenByArgumentCategory<
         size_t const size2 = size(result, 1);
         std::vector<IndexRanges<2>> ranges = index_ranges(pool.size(),
             size1, size2);
-        std::vector<std::future<void>> futures;
+        TaskFutures<void> futures;
         futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
@@ -1837,7 +1838,7 @@ struct IfThenByArgumentCategory<
         size_t const size2 = size(condition, 1);
         std::vector<IndexRanges<2>> ranges = index_ranges(pool.size(),
             size1, size2);
-        std::vector<std::future<void>> futures;
+        TaskFutures<void> futures;
         futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
@@ -1940,7 +1941,7 @@ struct IfThenElseByArgumentCategory<
         size_t const size2 = size(condition, 1);
         std::vector<IndexRanges<2>> ranges = index_ranges(pool.size(),
             size1, size2);
-        std::vector<std::future<void>> futures;
+        TaskFutures<void> futures;
         futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
@@ -2040,7 +2041,7 @@ struct IfThenByArgumentCategory<
         size_t const size2 = size(condition, 1);
         std::vector<IndexRanges<2>> ranges = index_ranges(pool.size(),
             size1, size2);
-        std::vector<std::future<void>> futures;
+        TaskFutures<void> futures;
         futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
@@ -2143,7 +2144,7 @@ struct IfThenElseByArgumentCategory<
         size_t const size2 = size(result, 1);
         std::vector<IndexRanges<2>> ranges = index_ranges(pool.size(),
             size1, size2);
-        std::vector<std::future<void>> futures;
+        TaskFutures<void> futures;
         futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
@@ -2247,7 +2248,7 @@ struct IfThenElseByArgumentCategory<
         size_t const size2 = size(result, 1);
         std::vector<IndexRanges<2>> ranges = index_ranges(pool.size(),
             size1, size2);
-        std::vector<std::future<void>> futures;
+        TaskFutures<void> futures;
         futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
@@ -2355,7 +2356,7 @@ struct IfThenElseByArgumentCategory<
         size_t const size2 = size(result, 1);
         std::vector<IndexRanges<2>> ranges = index_ranges(pool.size(),
             size1, size2);
-        std::vector<std::future<void>> futures;
+        TaskFutures<void> futures;
         futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
@@ -2467,7 +2468,7 @@ struct IfThenElseByArgumentCategory<
         size_t const size2 = size(condition, 1);
         std::vector<IndexRanges<2>> ranges = index_ranges(pool.size(),
             size1, size2);
-        std::vector<std::future<void>> futures;
+        TaskFutures<void> futures;
         futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
@@ -2575,7 +2576,7 @@ struct IfThenElseByArgumentCategory<
         size_t const size2 = size(condition, 1);
         std::vector<IndexRanges<2>> ranges = index_ranges(pool.size(),
             size1, size2);
-        std::vector<std::future<void>> futures;
+        TaskFutures<void> futures;
         futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
@@ -2683,7 +2684,7 @@ struct IfThenElseByArgumentCategory<
         size_t const size2 = size(condition, 1);
         std::vector<IndexRanges<2>> ranges = index_ranges(pool.size(),
             size1, size2);
-        std::vector<std::future<void>> futures;
+        TaskFutures<void> futures;
         futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
diff --git a/source/fern/algorithm/core/detail/intersect_no_data.h b/source/fern/algorithm/core/detail/intersect_no_data.h
index a03b3a2..b856b60 100644
--- a/source/fern/algorithm/core/detail/intersect_no_data.h
+++ b/source/fern/algorithm/core/detail/intersect_no_data.h
@@ -10,6 +10,7 @@
 #include <cassert>
 #include "fern/core/base_class.h"
 #include "fern/core/data_customization_point.h"
+#include "fern/core/task_futures.h"
 #include "fern/algorithm/core/index_ranges.h"
 #include "fern/algorithm/policy/execution_policy.h"
 
@@ -200,7 +201,7 @@ struct IntersectNoDataByArgumentCategory<
         size_t const size2 = size(result, 1);
         std::vector<IndexRanges<2>> ranges = index_ranges(pool.size(),
             size1, size2);
-        std::vector<std::future<void>> futures;
+        TaskFutures<void> futures;
         futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
diff --git a/source/fern/algorithm/core/detail/merge_no_data.h b/source/fern/algorithm/core/detail/merge_no_data.h
index 783ac34..5cd662a 100644
--- a/source/fern/algorithm/core/detail/merge_no_data.h
+++ b/source/fern/algorithm/core/detail/merge_no_data.h
@@ -9,6 +9,7 @@
 #pragma once
 #include "fern/core/base_class.h"
 #include "fern/core/data_customization_point.h"
+#include "fern/core/task_futures.h"
 #include "fern/algorithm/core/index_ranges.h"
 #include "fern/algorithm/policy/execution_policy.h"
 
@@ -175,7 +176,7 @@ struct MergeNoDataByArgumentCategory<
         size_t const size2 = size(result, 1);
         std::vector<IndexRanges<2>> ranges = index_ranges(pool.size(),
             size1, size2);
-        std::vector<std::future<void>> futures;
+        TaskFutures<void> futures;
         futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
diff --git a/source/fern/algorithm/core/detail/offset.h b/source/fern/algorithm/core/detail/offset.h
index cd641e9..82b13c0 100644
--- a/source/fern/algorithm/core/detail/offset.h
+++ b/source/fern/algorithm/core/detail/offset.h
@@ -10,6 +10,7 @@
 #include "fern/core/data_type_traits.h"
 #include "fern/core/base_class.h"
 #include "fern/core/data_customization_point.h"
+#include "fern/core/task_futures.h"
 #include "fern/core/type_traits.h"
 #include "fern/algorithm/core/index_ranges.h"
 #include "fern/algorithm/policy/execution_policy.h"
@@ -396,7 +397,7 @@ struct Offset<
         ThreadPool& pool(execution_policy.thread_pool());
         size_t const size_ = size(value);
         std::vector<IndexRanges<1>> ranges = index_ranges(pool.size(), size_);
-        std::vector<std::future<void>> futures;
+        TaskFutures<void> futures;
         futures.reserve(ranges.size());
 
         // Handle elements to copy.
@@ -437,7 +438,7 @@ struct Offset<
         ThreadPool& pool(execution_policy.thread_pool());
         size_t const size_ = size(value);
         std::vector<IndexRanges<1>> ranges = index_ranges(pool.size(), size_);
-        std::vector<std::future<void>> futures;
+        TaskFutures<void> futures;
         futures.reserve(ranges.size());
 
         // Handle elements to copy.
@@ -651,7 +652,7 @@ struct Offset<
         size_t const size2 = size(value, 1);
         std::vector<IndexRanges<2>> ranges = index_ranges(pool.size(),
             size1, size2);
-        std::vector<std::future<void>> futures;
+        TaskFutures<void> futures;
         futures.reserve(ranges.size());
 
         // Handle elements to copy.
@@ -694,7 +695,7 @@ struct Offset<
         size_t const size2 = size(value, 1);
         std::vector<IndexRanges<2>> ranges = index_ranges(pool.size(),
             size1, size2);
-        std::vector<std::future<void>> futures;
+        TaskFutures<void> futures;
         futures.reserve(ranges.size());
 
         // Handle elements to copy.
diff --git a/source/fern/algorithm/core/detail/unite_no_data.h b/source/fern/algorithm/core/detail/unite_no_data.h
index 329d113..7ab761a 100644
--- a/source/fern/algorithm/core/detail/unite_no_data.h
+++ b/source/fern/algorithm/core/detail/unite_no_data.h
@@ -9,6 +9,7 @@
 #pragma once
 #include "fern/core/base_class.h"
 #include "fern/core/data_customization_point.h"
+#include "fern/core/task_futures.h"
 #include "fern/algorithm/core/index_ranges.h"
 #include "fern/algorithm/policy/execution_policy.h"
 
@@ -199,7 +200,7 @@ struct UniteNoDataByArgumentCategory<
         size_t const size2 = size(result, 1);
         std::vector<IndexRanges<2>> ranges = index_ranges(pool.size(),
             size1, size2);
-        std::vector<std::future<void>> futures;
+        TaskFutures<void> futures;
         futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
diff --git a/source/fern/algorithm/core/nullary_local_operation.h b/source/fern/algorithm/core/nullary_local_operation.h
index 8bb1554..336ff12 100644
--- a/source/fern/algorithm/core/nullary_local_operation.h
+++ b/source/fern/algorithm/core/nullary_local_operation.h
@@ -11,6 +11,7 @@
 #include "fern/core/assert.h"
 #include "fern/core/base_class.h"
 #include "fern/core/data_customization_point.h"
+#include "fern/core/task_futures.h"
 #include "fern/algorithm/core/index_ranges.h"
 #include "fern/algorithm/policy/execution_policy.h"
 
@@ -235,10 +236,9 @@ struct NullaryLocalOperation<
         ThreadPool& pool(execution_policy.thread_pool());
         size_t const size_ = size(result);
         std::vector<IndexRanges<1>> ranges = index_ranges(pool.size(), size_);
-        std::vector<std::future<void>> futures;
-        futures.reserve(ranges.size());
-
         Algorithm algorithm;
+        TaskFutures<void> futures;
+        futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
             auto function = std::bind(
@@ -323,10 +323,9 @@ struct NullaryLocalOperation<
         size_t const size2 = size(result, 1);
         std::vector<IndexRanges<2>> ranges = index_ranges(pool.size(),
             size1, size2);
-        std::vector<std::future<void>> futures;
-        futures.reserve(ranges.size());
-
         Algorithm algorithm;
+        TaskFutures<void> futures;
+        futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
             auto function = std::bind(
diff --git a/source/fern/algorithm/core/unary_aggregate_operation.h b/source/fern/algorithm/core/unary_aggregate_operation.h
index 3ee4999..97ce80d 100644
--- a/source/fern/algorithm/core/unary_aggregate_operation.h
+++ b/source/fern/algorithm/core/unary_aggregate_operation.h
@@ -10,6 +10,7 @@
 #include <tuple>
 #include "fern/core/data_customization_point.h"
 #include "fern/core/base_class.h"
+#include "fern/core/task_futures.h"
 #include "fern/algorithm/core/index_ranges.h"
 #include "fern/algorithm/policy/policies.h"
 
@@ -452,7 +453,7 @@ struct UnaryAggregateOperation<
         ThreadPool& pool(execution_policy.thread_pool());
         size_t const size_ = size(value);
         std::vector<IndexRanges<1>> ranges = index_ranges(pool.size(), size_);
-        std::vector<std::future<std::tuple<bool, bool, Accumulator_>>> futures;
+        TaskFutures<std::tuple<bool, bool, Accumulator_>> futures;
         futures.reserve(ranges.size());
 
         for(size_t i = 0; i < ranges.size(); ++i) {
@@ -664,7 +665,7 @@ struct UnaryAggregateOperation<
         size_t const size2 = size(value, 1);
         std::vector<IndexRanges<2>> ranges = index_ranges(pool.size(),
             size1, size2);
-        std::vector<std::future<std::tuple<bool, bool, Accumulator_>>> futures;
+        TaskFutures<std::tuple<bool, bool, Accumulator_>> futures;
         futures.reserve(ranges.size());
 
         for(size_t i = 0; i < ranges.size(); ++i) {
diff --git a/source/fern/algorithm/core/unary_disaggregate_operation.h b/source/fern/algorithm/core/unary_disaggregate_operation.h
index 61c210d..af19947 100644
--- a/source/fern/algorithm/core/unary_disaggregate_operation.h
+++ b/source/fern/algorithm/core/unary_disaggregate_operation.h
@@ -11,6 +11,7 @@
 #include "fern/core/assert.h"
 #include "fern/core/base_class.h"
 #include "fern/core/data_customization_point.h"
+#include "fern/core/task_futures.h"
 #include "fern/algorithm/core/index_ranges.h"
 #include "fern/algorithm/policy/execution_policy.h"
 
@@ -320,10 +321,9 @@ struct UnaryDisaggregateOperation<
         ThreadPool& pool(execution_policy.thread_pool());
         size_t const size_ = size(result);
         std::vector<IndexRanges<1>> ranges = index_ranges(pool.size(), size_);
-        std::vector<std::future<void>> futures;
-        futures.reserve(ranges.size());
-
         Algorithm algorithm;
+        TaskFutures<void> futures;
+        futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
             auto function = std::bind(
@@ -423,10 +423,9 @@ struct UnaryDisaggregateOperation<
         size_t const size2 = size(result, 1);
         std::vector<IndexRanges<2>> ranges = index_ranges(pool.size(),
             size1, size2);
-        std::vector<std::future<void>> futures;
-        futures.reserve(ranges.size());
-
         Algorithm algorithm;
+        TaskFutures<void> futures;
+        futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
             auto function = std::bind(
diff --git a/source/fern/algorithm/core/unary_local_operation.h b/source/fern/algorithm/core/unary_local_operation.h
index b8ac08f..282238d 100644
--- a/source/fern/algorithm/core/unary_local_operation.h
+++ b/source/fern/algorithm/core/unary_local_operation.h
@@ -10,6 +10,7 @@
 #include "fern/core/assert.h"
 #include "fern/core/base_class.h"
 #include "fern/core/data_customization_point.h"
+#include "fern/core/task_futures.h"
 #include "fern/algorithm/core/index_ranges.h"
 #include "fern/algorithm/policy/execution_policy.h"
 
@@ -299,10 +300,9 @@ struct UnaryLocalOperation<
         ThreadPool& pool(execution_policy.thread_pool());
         size_t const size_ = size(value);
         std::vector<IndexRanges<1>> ranges = index_ranges(pool.size(), size_);
-        std::vector<std::future<void>> futures;
-        futures.reserve(ranges.size());
-
         Algorithm algorithm;
+        TaskFutures<void> futures;
+        futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
             auto function = std::bind(
@@ -476,10 +476,9 @@ struct UnaryLocalOperation<
         size_t const size2 = size(value, 1);
         std::vector<IndexRanges<2>> ranges = index_ranges(pool.size(),
             size1, size2);
-        std::vector<std::future<void>> futures;
-        futures.reserve(ranges.size());
-
         Algorithm algorithm;
+        TaskFutures<void> futures;
+        futures.reserve(ranges.size());
 
         for(auto const& block_range: ranges) {
             auto function = std::bind(
diff --git a/source/fern/core/task_futures.h b/source/fern/core/task_futures.h
new file mode 100644
index 0000000..1f02888
--- /dev/null
+++ b/source/fern/core/task_futures.h
@@ -0,0 +1,139 @@
+// -----------------------------------------------------------------------------
+// Fern © Geoneric
+//
+// This file is part of Geoneric Fern which is available under the terms of
+// the GNU General Public License (GPL), version 2. If you do not want to
+// be bound by the terms of the GPL, you may purchase a proprietary license
+// from Geoneric (http://www.geoneric.eu/contact).
+// -----------------------------------------------------------------------------
+#pragma once
+#include <cstddef>
+#include <future>
+#include <utility>
+#include <vector>
+
+
+namespace fern {
+
+//! Futures of tasks that refer to objects of the scope that submits them
+/*!
+    The destructor waits for all tasks whose result has not been obtained. So,
+    in case an exception leaves the scope, because a task could not be
+    submitted or because one of the tasks failed, none of the tasks is still
+    using the objects it refers to. These objects must be constructed before
+    the instance of this class.
+*/
+template<
+    typename T>
+class TaskFutures
+{
+
+public:
+
+    using iterator = typename std::vector<std::future<T>>::iterator;
+
+                   TaskFutures         ()=default;
+
+                   TaskFutures         (TaskFutures const&)=delete;
+
+                   TaskFutures         (TaskFutures&&)=delete;
+
+                   ~TaskFutures        ();
+
+    TaskFutures&   operator=           (TaskFutures const&)=delete;
+
+    TaskFutures&   operator=           (TaskFutures&&)=delete;
+
+    void           reserve             (std::size_t size);
+
+    void           emplace_back        (std::future<T>&& future);
+
+    std::size_t    size                () const;
+
+    std::future<T>& operator[]         (std::size_t index);
+
+    iterator       begin               ();
+
+    iterator       end                 ();
+
+private:
+
+    std::vector<std::future<T>> _futures;
+
+};
+
+
+template<
+    typename T>
+inline TaskFutures<T>::~TaskFutures()
+{
+    for(auto& future: _futures) {
+        if(future.valid()) {
+            future.wait();
+        }
+    }
+}
+
+
+template<
+    typename T>
+inline void TaskFutures<T>::reserve(
+    std::size_t size)
+{
+    _futures.reserve(size);
+}
+
+
+//! Add \a future to the collection.
+/*!
+  If that is not possible, the task is waited for before the exception is
+  passed on.
+*/
+template<
+    typename T>
+inline void TaskFutures<T>::emplace_back(
+    std::future<T>&& future)
+{
+    try {
+        _futures.emplace_back(std::move(future));
+    }
+    catch(...) {
+        future.wait();
+        throw;
+    }
+}
+
+
+template<
+    typename T>
+inline std::size_t TaskFutures<T>::size() const
+{
+    return _futures.size();
+}
+
+
+template<
+    typename T>
+inline std::future<T>& TaskFutures<T>::operator[](
+    std::size_t index)
+{
+    return _futures[index];
+}
+
+
+template<
+    typename T>
+inline typename TaskFutures<T>::iterator TaskFutures<T>::begin()
+{
+    return _futures.begin();
+}
+
+
+template<
+    typename T>
+inline typename TaskFutures<T>::iterator TaskFutures<T>::end()
+{
+    return _futures.end();
+}
+
+} // namespace fern
-- 
2.43.0


From ac69235f9fc77d330984998301bbceccae26e7d0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 18/39] fix: a pathname that cannot be looked up must be
 reported as an I/O error

file_exists let std::filesystem::filesystem_error escape for pathnames whose
status cannot be obtained (inaccessible or failing directory, name too long),
also from the read functions that are documented to throw IOError.
---
 source/fern/io/core/file.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/fern/io/core/file.cc b/source/fern/io/core/file.cc
index 997eb45..bec73d2 100644
--- a/source/fern/io/core/file.cc
+++ b/source/fern/io/core/file.cc
@@ -20,7 +20,9 @@ namespace io {
 bool file_exists(
     std::string const& pathname)
 {
-    return std::filesystem::exists(pathname);
+    std::error_code error;
+
+    return std::filesystem::exists(pathname, error);
 }
 
 } // namespace io
-- 
2.43.0


From 0a08834046336a7aa104124064c38932c9140e69 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 19/39] fix: a dataset without the requested raster band is an
 I/O error

raster_band ended the process (or asked GDAL for a band that is not there,
without assertions) instead of throwing the documented IOError.
---
 source/fern/io/gdal/dataset.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/fern/io/gdal/dataset.cc b/source/fern/io/gdal/dataset.cc
index ac8499c..12e86bd 100644
--- a/source/fern/io/gdal/dataset.cc
+++ b/source/fern/io/gdal/dataset.cc
@@ -65,7 +65,7 @@ DatasetHandle open_dataset(
     @ingroup    fern_io_gdal_group
     @brief      Return the GDAL raster band @a band_id from @a dataset.
     @param      band_id Id of the raster band to return.
-    @todo       Raise IOError in case @a dataset does not contain a raster
+    @exception  IOError In case @a dataset does not contain a raster
                 band with id @a band_id.
 */
 GDALRasterBand* raster_band(
@@ -77,7 +77,10 @@ GDALRasterBand* raster_band(
     int nr_bands{dataset->GetRasterCount()};
 
     if(band_id > nr_bands) {
-        assert(false);
+        throw IOError(dataset->GetDescription(),
+            Exception::messages().format_message(
+                MessageId::DOES_NOT_CONTAIN_DATA,
+                "raster band " + std::to_string(band_id)));
     }
 
     GDALRasterBand* band{dataset->GetRasterBand(band_id)};
-- 
2.43.0


From 1398405286f37a29a7e7403c462972fdec7a0e95 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 20/39] fix: reading a raster of another value type is an I/O
 error

The read function is documented to throw IOError if the value types of source
and destination differ; it ended the process (or converted silently, without
assertions).
---
 source/fern/io/gdal/detail/read.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/fern/io/gdal/detail/read.h b/source/fern/io/gdal/detail/read.h
index 04d2552..4d3d3d5 100644
--- a/source/fern/io/gdal/detail/read.h
+++ b/source/fern/io/gdal/detail/read.h
@@ -64,9 +64,14 @@ inline void read(
     // Verify that the elements in the raster to read have the same value
     // type as the variable passed in.
     GDALDataType gdal_value_type{band->GetRasterDataType()};
-    assert(ValueTypeTraits<value_type>::gdal_value_type == gdal_value_type);
 
-    // TODO Exception if not.
+    if(ValueTypeTraits<value_type>::gdal_value_type != gdal_value_type) {
+        throw IOError(data_name.database_pathname().native_string(),
+            Exception::messages().format_message(
+                MessageId::UNSUPPORTED_VALUE_TYPE,
+                data_name.data_pathname().generic_string(),
+                GDALGetDataTypeName(gdal_value_type)));
+    }
 
     if(band->RasterIO(GF_Read, 0, 0, nr_cols, nr_rows, data(destination),
             nr_cols, nr_rows, ValueTypeTraits<value_type>::gdal_value_type,
-- 
2.43.0


From 06a9cd4adee8da05debc90eaf82bf951210047ac Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 21/39] fix: a raster whose values cannot be read is an I/O
 error

A failing disk or a truncated file ended the process (or gave an incomplete
raster, without assertions) instead of throwing IOError.
---
 source/fern/io/gdal/detail/read.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fern/io/gdal/detail/read.h b/source/fern/io/gdal/detail/read.h
index 4d3d3d5..ac23033 100644
--- a/source/fern/io/gdal/detail/read.h
+++ b/source/fern/io/gdal/detail/read.h
@@ -76,8 +76,8 @@ inline void read(
     if(band->RasterIO(GF_Read, 0, 0, nr_cols, nr_rows, data(destination),
             nr_cols, nr_rows, ValueTypeTraits<value_type>::gdal_value_type,
             0, 0) != CE_None) {
-        // TODO
-        assert(false);
+        throw IOError(data_name.database_pathname().native_string(),
+            Exception::messages()[MessageId::CANNOT_BE_READ]);
     }
 
 
-- 
2.43.0


From 20a325403613bd2b57be31007878ea2bb69d5324 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 22/39] fix: mark exactly the cells holding the no-data value
 of the file

The no-data value was cast to the value type of the raster first, so that a
no-data value the type cannot represent marked valid cells (-9999 in an uint8
raster marked cells holding 241, 1.5 in an int32 raster those holding 1), and
a no-data value of NaN marked nothing.
---
 source/fern/io/gdal/detail/read.h | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/source/fern/io/gdal/detail/read.h b/source/fern/io/gdal/detail/read.h
index ac23033..46a12b7 100644
--- a/source/fern/io/gdal/detail/read.h
+++ b/source/fern/io/gdal/detail/read.h
@@ -7,6 +7,8 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #pragma once
+#include <cmath>
+#include <type_traits>
 #include <gdal_priv.h>
 #include "fern/core/io_error.h"
 #include "fern/io/gdal/dataset.h"
@@ -28,6 +30,28 @@ void               read                (OutputNoDataPolicy&
                                         Destination& destination);
 
 
+/*!
+    @brief      Return whether raster value @a value equals the no-data
+                value @a no_data_value, which need not be representable by
+                @a T.
+*/
+template<
+    typename T
+>
+inline bool equals_no_data_value(
+    T const& value,
+    double no_data_value)
+{
+    if(std::isnan(no_data_value)) {
+        return value != value;
+    }
+
+    return std::is_integral<T>::value
+        ? static_cast<double>(value) == no_data_value
+        : value == static_cast<T>(no_data_value);
+}
+
+
 template<
     typename OutputNoDataPolicy,
     typename Destination
@@ -82,8 +106,7 @@ inline void read(
 
 
     int has_no_data;
-    value_type gdal_no_data_value{static_cast<value_type>(
-        band->GetNoDataValue(&has_no_data))};
+    double gdal_no_data_value{band->GetNoDataValue(&has_no_data)};
 
     // If the raster dataset contains a special no-data value,
     // then mark those special values as no-data values.
@@ -94,7 +117,8 @@ inline void read(
             index_ = index(destination, i, 0);
 
             for(size_t j = 0; j < size(destination, 1); ++j) {
-                if(get(destination, index_) == gdal_no_data_value) {
+                if(equals_no_data_value(get(destination, index_),
+                        gdal_no_data_value)) {
                     output_no_data_policy.mark_as_no_data(index_);
                 }
 
-- 
2.43.0


From f033f5283a70c6c2c222f8689a836e725567a6ae Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 23/39] fix: values that GDAL reports it could not read must
 not be returned

The GeoTIFF driver reports that the location of a strip cannot be read, and
then returns arbitrary values for it with a return code of success.
---
 source/fern/io/gdal/detail/read.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/fern/io/gdal/detail/read.h b/source/fern/io/gdal/detail/read.h
index 46a12b7..3f23122 100644
--- a/source/fern/io/gdal/detail/read.h
+++ b/source/fern/io/gdal/detail/read.h
@@ -97,9 +97,13 @@ inline void read(
                 GDALGetDataTypeName(gdal_value_type)));
     }
 
+    // Drivers may report a failure to read part of the values, but return
+    // normally.
+    CPLErrorReset();
+
     if(band->RasterIO(GF_Read, 0, 0, nr_cols, nr_rows, data(destination),
             nr_cols, nr_rows, ValueTypeTraits<value_type>::gdal_value_type,
-            0, 0) != CE_None) {
+            0, 0) != CE_None || CPLGetLastErrorType() >= CE_Failure) {
         throw IOError(data_name.database_pathname().native_string(),
             Exception::messages()[MessageId::CANNOT_BE_READ]);
     }
-- 
2.43.0


From dc5a5a97eb4fafe9fdf97abd4199fdb6215c912a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:51:34 +0000
Subject: [PATCH 24/39] fix: a raster file of other extents than the
 destination is an I/O error

The extents come from the file. If they differ from those of the destination,
as for a damaged file, reading it ended the process (or wrote outside of the
destination, without assertions).
---
 source/fern/io/gdal/detail/read.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/fern/io/gdal/detail/read.h b/source/fern/io/gdal/detail/read.h
index 3f23122..32830fa 100644
--- a/source/fern/io/gdal/detail/read.h
+++ b/source/fern/io/gdal/detail/read.h
@@ -68,8 +68,13 @@ inline void read(
     size_t nr_rows = static_cast<size_t>(dataset->GetRasterYSize());
     size_t nr_cols = static_cast<size_t>(dataset->GetRasterXSize());
 
-    assert(size(destination, 0) == nr_rows);
-    assert(size(destination, 1) == nr_cols);
+    if(size(destination, 0) != nr_rows || size(destination, 1) != nr_cols) {
+        throw IOError(data_name.database_pathname().native_string(),
+            Exception::messages().format_message(
+                MessageId::DOES_NOT_CONTAIN_DATA,
+                std::to_string(size(destination, 0)) + " x " +
+                std::to_string(size(destination, 1)) + " raster"));
+    }
 
     // TODO Verify the transformation passed in is the same as the one
     //      in the dataset. We don't support subsetting, yet.
-- 
2.43.0


From 234457f33e14ef3ae88a2156b877ca7991a7a470 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:12:33 +0000
Subject: [PATCH 25/39] fix: a data pathname that does not name a variable is
 an I/O error

---
 source/fern/io/netcdf/coards/detail/read.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/fern/io/netcdf/coards/detail/read.h b/source/fern/io/netcdf/coards/detail/read.h
index d8dc702..f071123 100644
--- a/source/fern/io/netcdf/coards/detail/read.h
+++ b/source/fern/io/netcdf/coards/detail/read.h
@@ -69,9 +69,10 @@ inline void read_coards(
 
 
     // Verify that the requested variable is in the dataset.
-    assert(data_name.data_pathname().names().size() == 1u);
-    std::string variable_name{data_name.data_pathname().names()[0]};
-    if(!contains_variable(handle, variable_name)) {
+    auto const names(data_name.data_pathname().names());
+    std::string variable_name{names.size() == 1u
+        ? names[0] : data_name.data_pathname().generic_string()};
+    if(names.size() != 1u || !contains_variable(handle, variable_name)) {
         throw IOError(pathname,
             Exception::messages().format_message(
                 MessageId::DOES_NOT_CONTAIN_VARIABLE, variable_name));
-- 
2.43.0


From a9e6650cfdc6e578a2571acd1eef9984f4ec791c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:13:21 +0000
Subject: [PATCH 26/39] fix: reading a NetCDF variable of another value type is
 an I/O error

---
 source/fern/io/netcdf/coards/detail/read.h |  9 +++-
 source/fern/io/netcdf/core/variable.cc     | 57 ++++++++++++++++++++++
 source/fern/io/netcdf/core/variable.h      |  8 +++
 3 files changed, 72 insertions(+), 2 deletions(-)

diff --git a/source/fern/io/netcdf/coards/detail/read.h b/source/fern/io/netcdf/coards/detail/read.h
index f071123..3da9ef1 100644
--- a/source/fern/io/netcdf/coards/detail/read.h
+++ b/source/fern/io/netcdf/coards/detail/read.h
@@ -90,8 +90,13 @@ inline void read_coards(
 
     // Verify that the requested variable has the same value type as the
     // variable passed in.
-    ValueType value_type = netcdf::value_type_id(handle, variable_id);
-    assert(fern::value_type_id<fern::value_type<Destination>>() == value_type);
+    if(!variable_has_value_type(handle, variable_id,
+            fern::value_type_id<fern::value_type<Destination>>())) {
+        throw IOError(pathname,
+            Exception::messages().format_message(
+                MessageId::UNSUPPORTED_VALUE_TYPE, variable_name,
+                variable_type_name(handle, variable_id)));
+    }
 
 
     // Read the variable.
diff --git a/source/fern/io/netcdf/core/variable.cc b/source/fern/io/netcdf/core/variable.cc
index 6341df7..c5d6214 100644
--- a/source/fern/io/netcdf/core/variable.cc
+++ b/source/fern/io/netcdf/core/variable.cc
@@ -141,6 +141,63 @@ ValueType value_type_id(
     return value_type_id(type_id);
 }
 
+
+/*!
+    @ingroup    fern_io_netcdf_group
+    @brief      Return whether the values of variable @a variable_id are of
+                type @a value_type.
+
+    Values of user-defined types are not of any type in ValueType.
+
+    Assumptions:
+    - @a dataset corresponds with a valid open NetCDF dataset.
+    - @a variable_id corresponds with the id of a variable in the dataset.
+*/
+bool variable_has_value_type(
+    DatasetHandle const& dataset,
+    int variable_id,
+    ValueType value_type)
+{
+    nc_type type_id;
+    int status = nc_inq_vartype(dataset.ncid(), variable_id, &type_id);
+
+    assert(status != NC_EBADID);
+    assert(status != NC_ENOTVAR);
+    assert(status == NC_NOERR);
+
+    auto value_type_it = value_type_map.find(type_id);
+
+    return value_type_it != value_type_map.end() &&
+        value_type_it->second == value_type;
+}
+
+
+/*!
+    @ingroup    fern_io_netcdf_group
+    @brief      Return the name NetCDF uses for the type of the values of
+                variable @a variable_id.
+
+    Assumptions:
+    - @a dataset corresponds with a valid open NetCDF dataset.
+    - @a variable_id corresponds with the id of a variable in the dataset.
+*/
+std::string variable_type_name(
+    DatasetHandle const& dataset,
+    int variable_id)
+{
+    nc_type type_id;
+    int status = nc_inq_vartype(dataset.ncid(), variable_id, &type_id);
+
+    assert(status == NC_NOERR);
+
+    char name[NC_MAX_NAME + 1] = { '\0' };
+    status = nc_inq_type(dataset.ncid(), type_id, name, nullptr);
+
+    assert(status == NC_NOERR);
+
+    return name;
+}
+
 } // namespace netcdf
 } // namespace io
 } // namespace fern
diff --git a/source/fern/io/netcdf/core/variable.h b/source/fern/io/netcdf/core/variable.h
index 4c0fbd9..ed59e84 100644
--- a/source/fern/io/netcdf/core/variable.h
+++ b/source/fern/io/netcdf/core/variable.h
@@ -29,6 +29,14 @@ bool               variable_is_scalar  (DatasetHandle const& dataset,
 ValueType          value_type_id       (DatasetHandle const& dataset,
                                         int variable_id);
 
+bool               variable_has_value_type(
+                                        DatasetHandle const& dataset,
+                                        int variable_id,
+                                        ValueType value_type);
+
+std::string        variable_type_name  (DatasetHandle const& dataset,
+                                        int variable_id);
+
 /*!
     @ingroup    fern_io_netcdf_group
     @brief      Read variable @a variable_id from @a dataset into
-- 
2.43.0


From 4fdefea72e7f337fd6a3bf6c17e02c4127503125 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:13:21 +0000
Subject: [PATCH 27/39] fix: a NetCDF variable whose value cannot be read is an
 I/O error

---
 source/fern/io/netcdf/core/dataset.cc        | 26 ++++++++++++++++++++
 source/fern/io/netcdf/core/dataset.h         |  2 ++
 source/fern/io/netcdf/core/detail/variable.h | 11 +++++----
 3 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/source/fern/io/netcdf/core/dataset.cc b/source/fern/io/netcdf/core/dataset.cc
index ecafac1..7191a3c 100644
--- a/source/fern/io/netcdf/core/dataset.cc
+++ b/source/fern/io/netcdf/core/dataset.cc
@@ -7,6 +7,7 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #include "fern/io/netcdf/core/dataset.h"
+#include <vector>
 #include "fern/core/io_error.h"
 
 
@@ -34,6 +35,31 @@ DatasetHandle open_dataset(
     return DatasetHandle(ncid);
 }
 
+
+/*!
+    @ingroup    fern_io_netcdf_group
+    @brief      Return the pathname @a dataset was opened with.
+
+    Assumptions:
+    - @a dataset corresponds with a valid open NetCDF dataset.
+*/
+std::string dataset_pathname(
+    DatasetHandle const& dataset)
+{
+    std::string result;
+    size_t length;
+
+    if(nc_inq_path(dataset.ncid(), &length, nullptr) == NC_NOERR) {
+        std::vector<char> buffer(length + 1);
+
+        if(nc_inq_path(dataset.ncid(), nullptr, buffer.data()) == NC_NOERR) {
+            result.assign(buffer.data(), length);
+        }
+    }
+
+    return result;
+}
+
 } // namespace netcdf
 } // namespace io
 } // namespace fern
diff --git a/source/fern/io/netcdf/core/dataset.h b/source/fern/io/netcdf/core/dataset.h
index 7de547c..2ae35d6 100644
--- a/source/fern/io/netcdf/core/dataset.h
+++ b/source/fern/io/netcdf/core/dataset.h
@@ -19,6 +19,8 @@ namespace netcdf {
 DatasetHandle      open_dataset        (std::string const& name,
                                         int mode=NC_NOWRITE);
 
+std::string        dataset_pathname    (DatasetHandle const& dataset);
+
 } // namespace netcdf
 } // namespace io
 } // namespace fern
diff --git a/source/fern/io/netcdf/core/detail/variable.h b/source/fern/io/netcdf/core/detail/variable.h
index 598e8c7..2611a01 100644
--- a/source/fern/io/netcdf/core/detail/variable.h
+++ b/source/fern/io/netcdf/core/detail/variable.h
@@ -7,9 +7,9 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #pragma once
-#include <cassert>
 #include <netcdf.h>
-#include "fern/io/netcdf/core/dataset_handle.h"
+#include "fern/core/io_error.h"
+#include "fern/io/netcdf/core/dataset.h"
 
 
 namespace fern {
@@ -57,9 +57,10 @@ void read_variable(
 {
     int status = read_0d(handle, variable_id, get(destination));
 
-    // TODO Raise low level exception. Assumptions must be met when calling
-    //      this function.
-    assert(status == NC_NOERR);
+    if(status != NC_NOERR) {
+        throw IOError(dataset_pathname(handle),
+            Exception::messages()[MessageId::CANNOT_BE_READ]);
+    }
 }
 
 } // namespace detail
-- 
2.43.0


From 67538520c31406747944837548d831605662c929 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:13:21 +0000
Subject: [PATCH 28/39] fix: a Conventions attribute that is terminated or is
 not text must not abort

---
 source/fern/io/netcdf/core/attribute.cc | 26 +++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/source/fern/io/netcdf/core/attribute.cc b/source/fern/io/netcdf/core/attribute.cc
index 6bb0300..09c5538 100644
--- a/source/fern/io/netcdf/core/attribute.cc
+++ b/source/fern/io/netcdf/core/attribute.cc
@@ -9,7 +9,9 @@
 #include "fern/io/netcdf/core/attribute.h"
 #include <cassert>
 #include <netcdf.h>
+#include "fern/core/io_error.h"
 #include "fern/core/string.h"
+#include "fern/io/netcdf/core/dataset.h"
 
 
 namespace fern {
@@ -27,14 +29,26 @@ std::string attribute(
     int status = nc_inq_attlen(dataset.ncid(), NC_GLOBAL, name.c_str(),
         &buffer_size);
 
-    assert(status == NC_NOERR);
+    std::vector<char> buffer;
 
-    std::vector<char> buffer(buffer_size);
-    status = nc_get_att_text(dataset.ncid(), NC_GLOBAL, name.c_str(),
-        buffer.data());
+    if(status == NC_NOERR) {
+        buffer.resize(buffer_size + 1);
+        status = nc_get_att_text(dataset.ncid(), NC_GLOBAL, name.c_str(),
+            buffer.data());
+    }
+
+    if(status != NC_NOERR) {
+        throw IOError(dataset_pathname(dataset),
+            Exception::messages()[MessageId::CANNOT_BE_READ]);
+    }
 
-    assert(status == NC_NOERR);
-    assert(buffer.empty() || buffer.back() != '\0');
+    // The string may have been written including its terminating
+    // character(s).
+    buffer.resize(buffer_size);
+
+    while(!buffer.empty() && buffer.back() == '\0') {
+        buffer.pop_back();
+    }
 
     return std::string(buffer.begin(), buffer.end());
 }
-- 
2.43.0


From 4c25a32ced057602855de1a8c14ca0253985afbe Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:03:46 +0000
Subject: [PATCH 29/39] fix: moving a dataset handle must pass on the dataset

---
 source/fern/io/gdal/dataset_handle.cc        | 44 +++++++++++++++++++-
 source/fern/io/gdal/dataset_handle.h         |  9 ++--
 source/fern/io/netcdf/core/dataset_handle.cc | 44 +++++++++++++++++++-
 source/fern/io/netcdf/core/dataset_handle.h  |  9 ++--
 4 files changed, 98 insertions(+), 8 deletions(-)

diff --git a/source/fern/io/gdal/dataset_handle.cc b/source/fern/io/gdal/dataset_handle.cc
index 5a523d9..8bf176c 100644
--- a/source/fern/io/gdal/dataset_handle.cc
+++ b/source/fern/io/gdal/dataset_handle.cc
@@ -28,12 +28,54 @@ DatasetHandle::DatasetHandle(
 }
 
 
+/*!
+    @brief      Construct a handle by taking over the dataset from @a other.
+*/
+DatasetHandle::DatasetHandle(
+    DatasetHandle&& other) noexcept
+
+    : _dataset(other._dataset)
+
+{
+    other._dataset = nullptr;
+}
+
+
 /*!
     @brief      Destruct the instance, closing the GDAL dataset.
 */
 DatasetHandle::~DatasetHandle()
 {
-    GDALClose(_dataset);
+    close();
+}
+
+
+/*!
+    @brief      Take over the dataset from @a other, closing the current
+                GDAL dataset.
+*/
+DatasetHandle& DatasetHandle::operator=(
+    DatasetHandle&& other) noexcept
+{
+    if(this != &other) {
+        close();
+        _dataset = other._dataset;
+        other._dataset = nullptr;
+    }
+
+    return *this;
+}
+
+
+/*!
+    @brief      Close the GDAL dataset, unless it has been passed on.
+*/
+void DatasetHandle::close()
+{
+    if(_dataset) {
+        GDALClose(_dataset);
+        _dataset = nullptr;
+    }
 }
 
 
diff --git a/source/fern/io/gdal/dataset_handle.h b/source/fern/io/gdal/dataset_handle.h
index 7206c85..4d4d0a9 100644
--- a/source/fern/io/gdal/dataset_handle.h
+++ b/source/fern/io/gdal/dataset_handle.h
@@ -22,7 +22,8 @@ namespace gdal {
 
     The handle will close the dataset if it goes out of scope.
 
-    There can be only one handle to a dataset.
+    There can be only one handle to a dataset. Moving a handle passes on the
+    dataset. The handle that is moved from doesn't refer to it anymore.
 */
 class DatasetHandle
 {
@@ -33,18 +34,20 @@ public:
 
                    DatasetHandle       (DatasetHandle const& other)=delete;
 
-                   DatasetHandle       (DatasetHandle&& other)=default;
+                   DatasetHandle       (DatasetHandle&& other) noexcept;
 
                    ~DatasetHandle      ();
 
     DatasetHandle& operator=           (DatasetHandle const& other)=delete;
 
-    DatasetHandle& operator=           (DatasetHandle&& other)=default;
+    DatasetHandle& operator=           (DatasetHandle&& other) noexcept;
 
     GDALDataset*   operator->          ();
 
 private:
 
+    void           close               ();
+
     //! GDAL dataset.
     GDALDataset*   _dataset;
 
diff --git a/source/fern/io/netcdf/core/dataset_handle.cc b/source/fern/io/netcdf/core/dataset_handle.cc
index cc7785c..def4dc1 100644
--- a/source/fern/io/netcdf/core/dataset_handle.cc
+++ b/source/fern/io/netcdf/core/dataset_handle.cc
@@ -26,12 +26,54 @@ DatasetHandle::DatasetHandle(
 }
 
 
+/*!
+    @brief      Construct a handle by taking over the dataset from @a other.
+*/
+DatasetHandle::DatasetHandle(
+    DatasetHandle&& other) noexcept
+
+    : _ncid(other._ncid)
+
+{
+    other._ncid = -1;
+}
+
+
 /*!
     @brief      Destruct the instance, closing the NetCDF dataset.
 */
 DatasetHandle::~DatasetHandle()
 {
-    static_cast<void>(nc_close(_ncid));
+    close();
+}
+
+
+/*!
+    @brief      Take over the dataset from @a other, closing the current
+                NetCDF dataset.
+*/
+DatasetHandle& DatasetHandle::operator=(
+    DatasetHandle&& other) noexcept
+{
+    if(this != &other) {
+        close();
+        _ncid = other._ncid;
+        other._ncid = -1;
+    }
+
+    return *this;
+}
+
+
+/*!
+    @brief      Close the NetCDF dataset, unless it has been passed on.
+*/
+void DatasetHandle::close()
+{
+    if(_ncid != -1) {
+        static_cast<void>(nc_close(_ncid));
+        _ncid = -1;
+    }
 }
 
 
diff --git a/source/fern/io/netcdf/core/dataset_handle.h b/source/fern/io/netcdf/core/dataset_handle.h
index 352f216..9a11871 100644
--- a/source/fern/io/netcdf/core/dataset_handle.h
+++ b/source/fern/io/netcdf/core/dataset_handle.h
@@ -19,7 +19,8 @@ namespace netcdf {
 
     The handle will close the dataset if it goes out of scope.
 
-    There can be only one handle to a dataset.
+    There can be only one handle to a dataset. Moving a handle passes on the
+    dataset. The handle that is moved from doesn't refer to it anymore.
 */
 class DatasetHandle
 {
@@ -30,18 +31,20 @@ public:
 
                    DatasetHandle       (DatasetHandle const& other)=delete;
 
-                   DatasetHandle       (DatasetHandle&& other)=default;
+                   DatasetHandle       (DatasetHandle&& other) noexcept;
 
                    ~DatasetHandle      ();
 
     DatasetHandle& operator=           (DatasetHandle const& other)=delete;
 
-    DatasetHandle& operator=           (DatasetHandle&& other)=default;
+    DatasetHandle& operator=           (DatasetHandle&& other) noexcept;
 
     int            ncid                () const;
 
 private:
 
+    void           close               ();
+
     //! NetCDF dataset id.
     int            _ncid;
 
-- 
2.43.0


From 2eb1fa38b0b4c11ab17050ed891fa334924974f6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:20:15 +0000
Subject: [PATCH 30/39] fix: nested subscripts and attributes must not abort
 the parser

The stacks of Subscript_pimpl and Attribute_pimpl hold an entry per open
element, but the callbacks asserted that there is only one. a.b.c and
a[b[c]] abort.
---
 source/fern/language/ast/xml/xml_parser.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/fern/language/ast/xml/xml_parser.cc b/source/fern/language/ast/xml/xml_parser.cc
index fd29651..930343d 100644
--- a/source/fern/language/ast/xml/xml_parser.cc
+++ b/source/fern/language/ast/xml/xml_parser.cc
@@ -892,7 +892,7 @@ public:
     void Expression(
         std::shared_ptr<ExpressionVertex> const& vertex)
     {
-        assert(_data_stack.size() == 1);
+        assert(!_data_stack.empty());
         if(!_data_stack.top().expression) {
             _data_stack.top().expression = vertex;
         }
@@ -939,7 +939,7 @@ public:
     void Expression(
         std::shared_ptr<ExpressionVertex> const& vertex)
     {
-        assert(_data_stack.size() == 1);
+        assert(!_data_stack.empty());
         assert(!_data_stack.top().expression);
         _data_stack.top().expression = vertex;
     }
@@ -947,14 +947,14 @@ public:
     void Name(
         std::string const& name)
     {
-        assert(_data_stack.size() == 1);
+        assert(!_data_stack.empty());
         assert(_data_stack.top().member_name.empty());
         _data_stack.top().member_name = name;
     }
 
     std::shared_ptr<ExpressionVertex> post_Attribute()
     {
-        assert(_data_stack.size() == 1);
+        assert(!_data_stack.empty());
         AttributeData result(_data_stack.top());
         _data_stack.pop();
         return std::shared_ptr<AttributeVertex>(
-- 
2.43.0


From 08c647d956fe09e39646454ab8f444f7b1b0e6b0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:20:15 +0000
Subject: [PATCH 31/39] fix: an empty block in a syntax tree document is a
 parse error

The schema allows Statements without a Statement, but a condition, a loop
or a function without statements aborted.
---
 source/fern/language/ast/xml/xml_parser.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/source/fern/language/ast/xml/xml_parser.cc b/source/fern/language/ast/xml/xml_parser.cc
index 930343d..f839a54 100644
--- a/source/fern/language/ast/xml/xml_parser.cc
+++ b/source/fern/language/ast/xml/xml_parser.cc
@@ -9,6 +9,7 @@
 #include "fern/language/ast/xml/xml_parser.h"
 #include <sstream>
 #include <stack>
+#include <xsd/cxx/parser/schema-exceptions.hxx>
 #include "fern/core/exception.h"
 #include "fern/language/ast/core/vertices.h"
 #include "fern/language/ast/xml/syntax_tree-pskel.hxx"
@@ -151,7 +152,10 @@ public:
             const& statements)
     {
         if(!_data_stack.top().true_scope) {
-            assert(!statements.empty());
+            if(statements.empty()) {
+                throw xsd::cxx::parser::expected_element<char>(
+                    "", "Statement");
+            }
             assert(!_data_stack.top().false_scope);
             _data_stack.top().true_scope = std::make_shared<ScopeVertex>(
                 statements);
@@ -210,7 +214,10 @@ public:
             const& statements)
     {
         if(!_data_stack.top().true_scope) {
-            assert(!statements.empty());
+            if(statements.empty()) {
+                throw xsd::cxx::parser::expected_element<char>(
+                    "", "Statement");
+            }
             assert(!_data_stack.top().false_scope);
             _data_stack.top().true_scope = std::make_shared<ScopeVertex>(
                 statements);
@@ -277,7 +284,9 @@ public:
         std::vector<std::shared_ptr<StatementVertex>>
             const& statements)
     {
-        assert(!statements.empty());
+        if(statements.empty()) {
+            throw xsd::cxx::parser::expected_element<char>("", "Statement");
+        }
         _data_stack.top().scope_vertex = std::make_shared<ScopeVertex>(
             statements);
     }
-- 
2.43.0


From f276aef7aca7cfb4e5f12e8a2633e8ef7160557a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:28:20 +0000
Subject: [PATCH 32/39] fix: numbers that do not fit their size are a parse
 error

The size of a number in a syntax tree document is any positive integer. A
size other than the supported ones aborted, and a value that does not fit
its size silently became another value.
---
 source/fern/language/ast/xml/xml_parser.cc | 70 ++++++++++++++++------
 1 file changed, 52 insertions(+), 18 deletions(-)

diff --git a/source/fern/language/ast/xml/xml_parser.cc b/source/fern/language/ast/xml/xml_parser.cc
index f839a54..3552f2e 100644
--- a/source/fern/language/ast/xml/xml_parser.cc
+++ b/source/fern/language/ast/xml/xml_parser.cc
@@ -7,8 +7,13 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #include "fern/language/ast/xml/xml_parser.h"
+#include <cmath>
+#include <cstdint>
+#include <limits>
 #include <sstream>
 #include <stack>
+#include <string>
+#include <xsd/cxx/parser/validating/exceptions.hxx>
 #include <xsd/cxx/parser/schema-exceptions.hxx>
 #include "fern/core/exception.h"
 #include "fern/language/ast/core/vertices.h"
@@ -540,6 +545,27 @@ private:
 };
 
 
+//! Convert \a value to type \a Number.
+/*!
+  \exception xsd::cxx::parser::validating::invalid_value In case \a Number cannot represent
+             \a value.
+*/
+template<
+    typename Number,
+    typename Value>
+Number number_cast(
+    Value value)
+{
+    if(value < static_cast<Value>(std::numeric_limits<Number>::lowest()) ||
+            value > static_cast<Value>(std::numeric_limits<Number>::max())) {
+        throw xsd::cxx::parser::validating::invalid_value<char>("Value",
+            std::to_string(value));
+    }
+
+    return static_cast<Number>(value);
+}
+
+
 class Integer_pimpl:
     public Integer_pskel
 {
@@ -571,28 +597,31 @@ public:
         switch(_size) {
             case 8: {
                 result = std::shared_ptr<ExpressionVertex>(
-                    std::make_shared<NumberVertex<int8_t>>(_value));
+                    std::make_shared<NumberVertex<int8_t>>(
+                        number_cast<int8_t>(_value)));
                 break;
             }
             case 16: {
                 result = std::shared_ptr<ExpressionVertex>(
-                    std::make_shared<NumberVertex<int16_t>>(_value));
+                    std::make_shared<NumberVertex<int16_t>>(
+                        number_cast<int16_t>(_value)));
                 break;
             }
             case 32: {
                 result = std::shared_ptr<ExpressionVertex>(
-                    std::make_shared<NumberVertex<int32_t>>(_value));
+                    std::make_shared<NumberVertex<int32_t>>(
+                        number_cast<int32_t>(_value)));
                 break;
             }
             case 64: {
                 result = std::shared_ptr<ExpressionVertex>(
-                    std::make_shared<NumberVertex<int64_t>>(_value));
+                    std::make_shared<NumberVertex<int64_t>>(
+                        number_cast<int64_t>(_value)));
                 break;
             }
             default: {
-                assert(false);
-                // TODO raise exception
-                break;
+                throw xsd::cxx::parser::validating::invalid_value<char>("Size",
+                    std::to_string(_size));
             }
         }
 
@@ -639,28 +668,31 @@ public:
         switch(_size) {
             case 8: {
                 result = std::shared_ptr<ExpressionVertex>(
-                    std::make_shared<NumberVertex<uint8_t>>(_value));
+                    std::make_shared<NumberVertex<uint8_t>>(
+                        number_cast<uint8_t>(_value)));
                 break;
             }
             case 16: {
                 result = std::shared_ptr<ExpressionVertex>(
-                    std::make_shared<NumberVertex<uint16_t>>(_value));
+                    std::make_shared<NumberVertex<uint16_t>>(
+                        number_cast<uint16_t>(_value)));
                 break;
             }
             case 32: {
                 result = std::shared_ptr<ExpressionVertex>(
-                    std::make_shared<NumberVertex<uint32_t>>(_value));
+                    std::make_shared<NumberVertex<uint32_t>>(
+                        number_cast<uint32_t>(_value)));
                 break;
             }
             case 64: {
                 result = std::shared_ptr<ExpressionVertex>(
-                    std::make_shared<NumberVertex<uint64_t>>(_value));
+                    std::make_shared<NumberVertex<uint64_t>>(
+                        number_cast<uint64_t>(_value)));
                 break;
             }
             default: {
-                assert(false);
-                // TODO raise exception
-                break;
+                throw xsd::cxx::parser::validating::invalid_value<char>("Size",
+                    std::to_string(_size));
             }
         }
 
@@ -708,7 +740,10 @@ public:
             case 32: {
                 assert(sizeof(float) == 4);
                 result = std::shared_ptr<ExpressionVertex>(
-                    std::make_shared<NumberVertex<float>>(_value));
+                    std::make_shared<NumberVertex<float>>(
+                        std::isfinite(_value)
+                            ? number_cast<float>(_value)
+                            : static_cast<float>(_value)));
                 break;
             }
             case 64: {
@@ -718,9 +753,8 @@ public:
                 break;
             }
             default: {
-                assert(false);
-                // TODO raise exception
-                break;
+                throw xsd::cxx::parser::validating::invalid_value<char>("Size",
+                    std::to_string(_size));
             }
         }
 
-- 
2.43.0


From 0a493e5b79cf9a08360cb43befe3e1bcf539fded Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:28:20 +0000
Subject: [PATCH 33/39] fix: parsing a stream that fails must not return a
 partial result

Unless the stream is configured to throw, the document parser stops at a
read error and leaves it to the caller to test the stream.
---
 source/fern/language/ast/xml/xml_parser.cc                 | 6 ++++++
 source/fern/language/operation/xml/operation_xml_parser.cc | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/source/fern/language/ast/xml/xml_parser.cc b/source/fern/language/ast/xml/xml_parser.cc
index 3552f2e..e7203fe 100644
--- a/source/fern/language/ast/xml/xml_parser.cc
+++ b/source/fern/language/ast/xml/xml_parser.cc
@@ -1227,6 +1227,12 @@ std::shared_ptr<ModuleVertex> XmlParser::parse(
 
     fern_p.pre();
     doc_p.parse(stream);
+
+    if(stream.fail()) {
+        // The document parser stops reading, but doesn't throw.
+        throw std::ios_base::failure("error while reading the stream");
+    }
+
     return fern_p.post_Fern();
 }
 
diff --git a/source/fern/language/operation/xml/operation_xml_parser.cc b/source/fern/language/operation/xml/operation_xml_parser.cc
index 2e7f2eb..bc8e953 100644
--- a/source/fern/language/operation/xml/operation_xml_parser.cc
+++ b/source/fern/language/operation/xml/operation_xml_parser.cc
@@ -501,6 +501,12 @@ OperationsPtr OperationXmlParser::parse(
 
     operations_p.pre();
     doc_p.parse(stream);
+
+    if(stream.fail()) {
+        // The document parser stops reading, but doesn't throw.
+        throw std::ios_base::failure("error while reading the stream");
+    }
+
     return operations_p.post_Operations();
 }
 
-- 
2.43.0


From b05c75e19bb9b7addefb22f884f0e1b5b28a7153 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:28:21 +0000
Subject: [PATCH 34/39] fix: an unknown operator in a syntax tree document is a
 parse error

The schema accepts any operator name and number of operands, but creating
the operator vertex aborted.
---
 source/fern/language/ast/core/operator_vertex.cc | 15 ++++++++++-----
 source/fern/language/ast/xml/xml_parser.cc       | 13 ++++++++++---
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/source/fern/language/ast/core/operator_vertex.cc b/source/fern/language/ast/core/operator_vertex.cc
index 9732282..1ad35c6 100644
--- a/source/fern/language/ast/core/operator_vertex.cc
+++ b/source/fern/language/ast/core/operator_vertex.cc
@@ -7,8 +7,8 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #include "fern/language/ast/core/operator_vertex.h"
-#include <cassert>
 #include <map>
+#include <stdexcept>
 
 
 namespace fern {
@@ -61,10 +61,15 @@ std::string name_to_symbol(
     std::string const& name,
     size_t nr_operands)
 {
-    assert(operator_symbols.find(nr_operands) != operator_symbols.end());
-    assert(operator_symbols[nr_operands].find(name) !=
-        operator_symbols[nr_operands].end());
-    return operator_symbols[nr_operands][name];
+    auto const symbols(operator_symbols.find(nr_operands));
+
+    if(symbols == operator_symbols.end() ||
+            symbols->second.find(name) == symbols->second.end()) {
+        throw std::invalid_argument("no operator " + name + " with " +
+            std::to_string(nr_operands) + " operands");
+    }
+
+    return symbols->second[name];
 }
 
 
diff --git a/source/fern/language/ast/xml/xml_parser.cc b/source/fern/language/ast/xml/xml_parser.cc
index e7203fe..437a488 100644
--- a/source/fern/language/ast/xml/xml_parser.cc
+++ b/source/fern/language/ast/xml/xml_parser.cc
@@ -12,6 +12,7 @@
 #include <limits>
 #include <sstream>
 #include <stack>
+#include <stdexcept>
 #include <string>
 #include <xsd/cxx/parser/validating/exceptions.hxx>
 #include <xsd/cxx/parser/schema-exceptions.hxx>
@@ -900,9 +901,15 @@ public:
         assert(!_data_stack.empty());
         OperatorData result(_data_stack.top());
         _data_stack.pop();
-        return std::shared_ptr<OperatorVertex>(
-            std::make_shared<OperatorVertex>(result.name,
-                result.expression_vertices));
+
+        try {
+            return std::make_shared<OperatorVertex>(result.name,
+                result.expression_vertices);
+        }
+        catch(std::invalid_argument const&) {
+            throw xsd::cxx::parser::validating::invalid_value<char>("Operator",
+                result.name);
+        }
     }
 
 private:
-- 
2.43.0


From 9326beb5c72ef9d43eec0ed977d6025a6f2899b5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:28:21 +0000
Subject: [PATCH 35/39] fix: invalid parameters of a normal distribution are a
 parse error

The schema accepts any number of means and variances, also negative ones.
All but one mean and one positive variance aborted.
---
 .../language/io/uncertml2/uncertml2_parser.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/source/fern/language/io/uncertml2/uncertml2_parser.cc b/source/fern/language/io/uncertml2/uncertml2_parser.cc
index 4a71876..149f5e4 100644
--- a/source/fern/language/io/uncertml2/uncertml2_parser.cc
+++ b/source/fern/language/io/uncertml2/uncertml2_parser.cc
@@ -9,6 +9,9 @@
 #include "fern/language/io/uncertml2/uncertml2_parser.h"
 #include <cmath>
 #include <sstream>
+#include <string>
+#include <vector>
+#include <xsd/cxx/parser/validating/exceptions.hxx>
 #include "fern/core/exception.h"
 #include "fern/language/io/uncertml2/uncertml2-pskel.hxx"
 
@@ -29,12 +32,22 @@ public:
     void mean(
         std::vector<double> const& values)
     {
+        if(values.size() != 1) {
+            throw xsd::cxx::parser::validating::invalid_value<char>("mean",
+                std::to_string(values.size()) + " values");
+        }
+
         _means = values;
     }
 
     void variance(
         std::vector<double> const& values)
     {
+        if(values.size() != 1) {
+            throw xsd::cxx::parser::validating::invalid_value<char>("variance",
+                std::to_string(values.size()) + " values");
+        }
+
         _variances = values;
     }
 
@@ -106,7 +119,11 @@ public:
     void item(
         double value)
     {
-        assert(value > 0.0);
+        if(!(value > 0.0)) {
+            throw xsd::cxx::parser::validating::invalid_value<char>("positiveRealNumber",
+                std::to_string(value));
+        }
+
         _values.emplace_back(value);
     }
 
-- 
2.43.0


From 5c90638741f0d8c1fc729c07a61165d5baa52077 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:52:15 +0000
Subject: [PATCH 36/39] fix: an XML file that fails while being read is an I/O
 error

---
 source/fern/io/xml/parse.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/fern/io/xml/parse.h b/source/fern/io/xml/parse.h
index 8e477db..ab01c64 100644
--- a/source/fern/io/xml/parse.h
+++ b/source/fern/io/xml/parse.h
@@ -57,6 +57,11 @@ inline auto parse(
         document = parse(stream);
     }
     catch(xml_schema::parsing const& exception) {
+        if(stream.bad()) {
+            throw IOError(pathname,
+                Exception::messages()[MessageId::CANNOT_BE_READ]);
+        }
+
         assert(!exception.diagnostics().empty());
 
         throw ParseError(pathname,
@@ -65,6 +70,10 @@ inline auto parse(
             exception.diagnostics()[0].message());
     }
 
+    if(stream.bad()) {
+        throw IOError(pathname,
+            Exception::messages()[MessageId::CANNOT_BE_READ]);
+    }
 
     assert(document);
     return document;
-- 
2.43.0


From b4734f841f978ae8e4e7c2f62e07be14fd42e61d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:52:15 +0000
Subject: [PATCH 37/39] fix: a valid XML document of another kind is a parse
 error

---
 source/fern/io/xml/parse.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/fern/io/xml/parse.h b/source/fern/io/xml/parse.h
index ab01c64..0db80e2 100644
--- a/source/fern/io/xml/parse.h
+++ b/source/fern/io/xml/parse.h
@@ -69,6 +69,10 @@ inline auto parse(
             exception.diagnostics()[0].column(),
             exception.diagnostics()[0].message());
     }
+    catch(xml_schema::exception const& exception) {
+        // The document is valid, but of another kind than the one asked for.
+        throw ParseError(pathname, 0, 0, exception.what());
+    }
 
     if(stream.bad()) {
         throw IOError(pathname,
-- 
2.43.0


From 3934f9dc420d67e29a10eec391beb85bbaf774be Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:57:03 +0000
Subject: [PATCH 38/39] fix: an XML document that its library gives up on is a
 parse error

---
 source/fern/io/xml/parse.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/source/fern/io/xml/parse.h b/source/fern/io/xml/parse.h
index 0db80e2..b17c181 100644
--- a/source/fern/io/xml/parse.h
+++ b/source/fern/io/xml/parse.h
@@ -7,6 +7,9 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #include <fstream>
+#include <xercesc/dom/DOMException.hpp>
+#include <xsd/cxx/xml/elements.hxx>
+#include <xsd/cxx/xml/string.hxx>
 #include <fern/core/io_error.h>
 #include <fern/core/parse_error.h>
 #include <fern/io/core/file.h>
@@ -52,6 +55,9 @@ inline auto parse(
 
     Document document;
 
+    // Exceptions of the XML library must be gone before it is terminated.
+    xsd::cxx::xml::auto_initializer initializer(true, true);
+
     try {
         // xml_schema::flags::dont_validate
         document = parse(stream);
@@ -73,6 +79,11 @@ inline auto parse(
         // The document is valid, but of another kind than the one asked for.
         throw ParseError(pathname, 0, 0, exception.what());
     }
+    catch(xercesc::DOMException const& exception) {
+        // For example, a version of XML which isn't supported.
+        throw ParseError(pathname, 0, 0,
+            xsd::cxx::xml::transcode<char>(exception.getMessage()));
+    }
 
     if(stream.bad()) {
         throw IOError(pathname,
-- 
2.43.0


From fe911edfdf3c7cb3add38845f57594f9337660fb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:37:52 +0000
Subject: [PATCH 39/39] fix: a failure that GDAL reports while reading must not
 be hidden by a later warning

---
 source/fern/io/gdal/detail/read.h | 72 ++++++++++++++++++++++++++++---
 1 file changed, 67 insertions(+), 5 deletions(-)

diff --git a/source/fern/io/gdal/detail/read.h b/source/fern/io/gdal/detail/read.h
index 32830fa..2ebd693 100644
--- a/source/fern/io/gdal/detail/read.h
+++ b/source/fern/io/gdal/detail/read.h
@@ -7,8 +7,13 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #pragma once
+#include <algorithm>
 #include <cmath>
+#include <string>
+#include <tuple>
 #include <type_traits>
+#include <vector>
+#include <cpl_error.h>
 #include <gdal_priv.h>
 #include "fern/core/io_error.h"
 #include "fern/io/gdal/dataset.h"
@@ -52,6 +57,52 @@ inline bool equals_no_data_value(
 }
 
 
+/*!
+    @brief      Collector of the messages GDAL emits during a call, which
+                are passed on to the user's error handler afterwards.
+*/
+class ErrorCollector
+{
+
+public:
+
+    static void CPL_STDCALL collect(
+        CPLErr error_class,
+        CPLErrorNum error_nr,
+        char const* message)
+    {
+        if(error_class == CE_Fatal) {
+            // GDAL ends the process.
+            CPLDefaultErrorHandler(error_class, error_nr, message);
+        }
+        else {
+            static_cast<ErrorCollector*>(
+                CPLGetErrorHandlerUserData())->_errors.emplace_back(
+                    error_class, error_nr, message);
+        }
+    }
+
+    void pass_on() const
+    {
+        for(auto const& error: _errors) {
+            CPLError(std::get<0>(error), std::get<1>(error), "%s",
+                std::get<2>(error).c_str());
+        }
+    }
+
+    bool contains_failure() const
+    {
+        return std::any_of(_errors.begin(), _errors.end(),
+            [](auto const& error) { return std::get<0>(error) >= CE_Failure; });
+    }
+
+private:
+
+    std::vector<std::tuple<CPLErr, CPLErrorNum, std::string>> _errors;
+
+};
+
+
 template<
     typename OutputNoDataPolicy,
     typename Destination
@@ -103,12 +154,23 @@ inline void read(
     }
 
     // Drivers may report a failure to read part of the values, but return
-    // normally.
-    CPLErrorReset();
+    // normally. Other messages may follow such a report, so the last one does
+    // not tell.
+    ErrorCollector errors;
+    CPLErr status;
+
+    {
+        CPLErrorHandlerPusher pusher(ErrorCollector::collect, &errors);
+        CPLSetCurrentErrorHandlerCatchDebug(FALSE);
+
+        status = band->RasterIO(GF_Read, 0, 0, nr_cols, nr_rows,
+            data(destination), nr_cols, nr_rows,
+            ValueTypeTraits<value_type>::gdal_value_type, 0, 0);
+    }
+
+    errors.pass_on();
 
-    if(band->RasterIO(GF_Read, 0, 0, nr_cols, nr_rows, data(destination),
-            nr_cols, nr_rows, ValueTypeTraits<value_type>::gdal_value_type,
-            0, 0) != CE_None || CPLGetLastErrorType() >= CE_Failure) {
+    if(status != CE_None || errors.contains_failure()) {
         throw IOError(data_name.database_pathname().native_string(),
             Exception::messages()[MessageId::CANNOT_BE_READ]);
     }
-- 
2.43.0

