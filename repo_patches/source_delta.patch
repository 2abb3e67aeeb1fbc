From a495bb6e9779412cdf810c7f148242e1c2617e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:51 +0000
Subject: [PATCH 01/55] fix: let the server start for knowledge bases with few
 triples

The sort time estimation skipped every sample that is larger than 5% of
the number of triples. For knowledge bases with fewer than 200,000 triples
this included the smallest sample, and the server then stopped with a
failed assertion. The smallest sample (10,000 rows, one column) is now
always measured.
---
 src/engine/SortPerformanceEstimator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/engine/SortPerformanceEstimator.cpp b/src/engine/SortPerformanceEstimator.cpp
index 08e24ce..0f22ad4 100644
--- a/src/engine/SortPerformanceEstimator.cpp
+++ b/src/engine/SortPerformanceEstimator.cpp
@@ -129,7 +129,10 @@ void SortPerformanceEstimator::computeEstimatesExpensively(
       auto rows = sampleValuesRows[i];
       auto cols = sampleValuesCols[j];
       try {
-        if (rows * cols > maxNumberOfElementsToSort) {
+        // The smallest sample is always measured, because all the other
+        // estimates are extrapolated from it.
+        bool isSmallestSample = i == 0 && j == 0;
+        if (!isSmallestSample && rows * cols > maxNumberOfElementsToSort) {
           throw ad_utility::detail::AllocationExceedsLimitException{0, 0};
         }
         _samples[i][j] = measureSortingTimeInSeconds(rows, cols, allocator);
-- 
2.43.0


From e99453c26d3f69d30a5602dbf45ae37618eac148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:25:12 +0000
Subject: [PATCH 02/55] fix: do not skip candidates in the binary search of the
 external vocabulary

The upper bound of the search is exclusive, so it has to become i and not
i - 1. The old code missed words and could underflow for the first word.
---
 src/index/ExternalVocabulary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/index/ExternalVocabulary.cpp b/src/index/ExternalVocabulary.cpp
index 8d5a9cd..50b0be4 100644
--- a/src/index/ExternalVocabulary.cpp
+++ b/src/index/ExternalVocabulary.cpp
@@ -37,7 +37,7 @@ Id ExternalVocabulary<Comp>::binarySearchInVocab(const string& word) const {
     if (cmp < 0) {
       lower = i + 1;
     } else if (cmp > 0) {
-      upper = i - 1;
+      upper = i;
     } else if (cmp == 0) {
       return i;
     }
-- 
2.43.0


From fe071ed6899773e0b740424c1e4e3efe41fb0d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:25:12 +0000
Subject: [PATCH 03/55] fix: find literals with a foreign language tag if
 nothing was externalized

Without on-disk literals all words are part of the internal vocabulary, but
constants like "Hund"@de were only searched in the (empty) external one.
---
 src/index/Vocabulary.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/index/Vocabulary.cpp b/src/index/Vocabulary.cpp
index f59bb9e..54c758b 100644
--- a/src/index/Vocabulary.cpp
+++ b/src/index/Vocabulary.cpp
@@ -368,12 +368,15 @@ AccessReturnType_t<StringType> Vocabulary<StringType, C>::at(Id id) const {
 // _____________________________________________________________________________
 template <typename S, typename C>
 bool Vocabulary<S, C>::getId(const string& word, Id* id) const {
-  if (!shouldBeExternalized(word)) {
-    // need the TOTAL level because we want the unique word.
-    *id = lower_bound(word, SortLevel::TOTAL);
-    // works for the case insensitive version because
-    // of the strict ordering.
-    return *id < _words.size() && at(*id) == word;
+  // need the TOTAL level because we want the unique word.
+  *id = lower_bound(word, SortLevel::TOTAL);
+  // works for the case insensitive version because
+  // of the strict ordering.
+  bool isInternal = *id < _words.size() && at(*id) == word;
+  // If the index was built without an external vocabulary, then also the words
+  // that would otherwise have been externalized are found here.
+  if (isInternal || !shouldBeExternalized(word)) {
+    return isInternal;
   }
   bool success = _externalLiterals.getId(word, id);
   *id += _words.size();
-- 
2.43.0


From b90a47fe7157d722d322e1f47647d6803ce1bb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:25:12 +0000
Subject: [PATCH 04/55] fix: correct estimates and variable columns of the
 multi column join

The multiplicity of the right join column was asked from the left subtree,
which could fail an assertion. The columns of the variables that only occur
in the right subtree depended on the iteration order of a hash map.
---
 src/engine/MultiColumnJoin.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/engine/MultiColumnJoin.cpp b/src/engine/MultiColumnJoin.cpp
index 1974138..4d4de49 100644
--- a/src/engine/MultiColumnJoin.cpp
+++ b/src/engine/MultiColumnJoin.cpp
@@ -122,18 +122,21 @@ void MultiColumnJoin::computeResult(ResultTable* result) {
 ad_utility::HashMap<string, size_t> MultiColumnJoin::getVariableColumns()
     const {
   ad_utility::HashMap<string, size_t> retVal(_left->getVariableColumns());
-  size_t columnIndex = retVal.size();
+  // The columns of the right subtree that are not join columns are appended to
+  // those of the left subtree in their original order.
+  const size_t leftWidth = _left->getResultWidth();
   for (const auto& it : _right->getVariableColumns()) {
     bool isJoinColumn = false;
+    size_t numJoinColumnsBefore = 0;
     for (const std::array<Id, 2>& a : _joinColumns) {
       if (a[1] == it.second) {
         isJoinColumn = true;
         break;
       }
+      numJoinColumnsBefore += a[1] < it.second;
     }
     if (!isJoinColumn) {
-      retVal[it.first] = columnIndex;
-      columnIndex++;
+      retVal[it.first] = leftWidth + it.second - numJoinColumnsBefore;
     }
   }
   return retVal;
@@ -210,7 +213,8 @@ void MultiColumnJoin::computeSizeEstimateAndMultiplicities() {
   float multRight = std::numeric_limits<float>::max();
   for (size_t i = 0; i < _joinColumns.size(); i++) {
     multLeft = std::min(multLeft, _left->getMultiplicity(_joinColumns[i][0]));
-    multRight = std::min(multLeft, _left->getMultiplicity(_joinColumns[i][1]));
+    multRight =
+        std::min(multRight, _right->getMultiplicity(_joinColumns[i][1]));
   }
   float multResult = multLeft * multRight;
 
-- 
2.43.0


From ffeee22c286d2bc6d8e71e76736568a7f0455400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:25:12 +0000
Subject: [PATCH 05/55] fix: sort the inputs of the two column join by the
 columns it joins on

Some of the plans sorted an input by the join columns of the other input or in
the wrong order. The join also lost duplicates when an input that is not a scan
was used as the filter, so use the multi column join if there is no scan.
---
 src/engine/QueryPlanner.cpp  | 90 ++++++++++++++++++------------------
 src/engine/TwoColumnJoin.cpp | 35 ++++++++++----
 src/engine/TwoColumnJoin.h   | 10 +++-
 3 files changed, 77 insertions(+), 58 deletions(-)

diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index 41a9bff..00a735e 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -2813,60 +2813,58 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::createJoinCandidates(
         return candidates;
       }
 
-      // Check if a sub-result has to be re-sorted
-      // Consider both ways to order join columns as primary / secondary
-      // Make four iterations instead of two so that first and second
-      // column can be swapped and more trees are constructed (of which
-      // the optimal solution will be picked).
-      // The order plays a role for the efficient implementation for
-      // filtering directly with a scan's result.
-      for (size_t n = 0; n < 4; ++n) {
-        size_t c = n / 2;
-        size_t swap = n % 2;
-        auto left = std::make_shared<QueryExecutionTree>(_qec);
-        auto right = std::make_shared<QueryExecutionTree>(_qec);
-        const vector<size_t>& aSortedOn = a._qet->resultSortedOn();
-        if (aSortedOn.size() > 0 && aSortedOn[0] == jcs[c][(0 + swap) % 2] &&
-            (a._qet->getResultWidth() == 2 ||
-             a._qet->getType() == QueryExecutionTree::SCAN)) {
-          left = a._qet;
-        } else {
-          // Create an order by operation.
-          vector<pair<size_t, bool>> sortIndices;
-          sortIndices.emplace_back(
-              std::make_pair(jcs[c][(0 + swap) % 2], false));
-          sortIndices.emplace_back(
-              std::make_pair(jcs[(c + 1) % 2][(0 + swap) % 2], false));
-          auto orderBy = std::make_shared<OrderBy>(_qec, a._qet, sortIndices);
-          left->setVariableColumns(a._qet->getVariableColumns());
-          left->setOperation(QueryExecutionTree::ORDER_BY, orderBy);
-        }
-        const vector<size_t>& bSortedOn = b._qet->resultSortedOn();
-        if (bSortedOn.size() > 0 && bSortedOn[0] == jcs[c][(1 + swap) % 2] &&
-            b._qet->getResultWidth() == 2) {
-          right = b._qet;
-        } else {
-          // Create a sort operation.
-          // Create an order by operation.
-          vector<pair<size_t, bool>> sortIndices;
-          sortIndices.emplace_back(
-              std::make_pair(jcs[c][(1 + swap) % 2], false));
-          sortIndices.emplace_back(
-              std::make_pair(jcs[(c + 1) % 2][(1 + swap) % 2], false));
-          auto orderBy = std::make_shared<OrderBy>(_qec, b._qet, sortIndices);
-          right->setVariableColumns(b._qet->getVariableColumns());
-          right->setOperation(QueryExecutionTree::ORDER_BY, orderBy);
+      // The two column join uses one of its inputs as a filter for the other
+      // one. This requires a filter without duplicates, so at least one of the
+      // inputs has to be a scan with exactly the two join columns. In all other
+      // cases the more general multi column join has to be used.
+      auto isBinaryScan = [](const SubtreePlan& p) {
+        return p._qet->getType() == QueryExecutionTree::SCAN &&
+               p._qet->getResultWidth() == 2;
+      };
+      if (!isBinaryScan(a) && !isBinaryScan(b)) {
+        SubtreePlan plan = multiColumnJoin(a, b);
+        plan._idsOfIncludedNodes = a._idsOfIncludedNodes;
+        plan.addAllNodes(b._idsOfIncludedNodes);
+        plan._idsOfIncludedFilters = a._idsOfIncludedFilters;
+        plan._idsOfIncludedFilters |= b._idsOfIncludedFilters;
+        return {plan};
+      }
+
+      // Returns a tree with the same result as p that is sorted by the columns
+      // c1, c2.
+      auto sortedBy = [this](const SubtreePlan& p, size_t c1, size_t c2) {
+        const vector<size_t> sortedOn = p._qet->resultSortedOn();
+        bool isDummy = p._qet->getType() == QueryExecutionTree::SCAN &&
+                       p._qet->getResultWidth() == 3;
+        if (!sortedOn.empty() && sortedOn[0] == c1 &&
+            (isDummy || (sortedOn.size() > 1 && sortedOn[1] == c2))) {
+          return p._qet;
         }
+        auto tree = std::make_shared<QueryExecutionTree>(_qec);
+        vector<pair<size_t, bool>> sortIndices{{c1, false}, {c2, false}};
+        auto orderBy = std::make_shared<OrderBy>(_qec, p._qet, sortIndices);
+        tree->setVariableColumns(p._qet->getVariableColumns());
+        tree->setOperation(QueryExecutionTree::ORDER_BY, orderBy);
+        return tree;
+      };
+
+      // Consider both ways to order join columns as primary / secondary. The
+      // order plays a role for the efficient implementation for filtering
+      // directly with a scan's result.
+      for (size_t c = 0; c < 2; ++c) {
+        const vector<array<Id, 2>> orderedJcs{jcs[c], jcs[1 - c]};
+        auto left = sortedBy(a, orderedJcs[0][0], orderedJcs[1][0]);
+        auto right = sortedBy(b, orderedJcs[0][1], orderedJcs[1][1]);
         // TODO(florian): consider replacing this with a multicolumn join.
         // Create the join operation.
         SubtreePlan plan(_qec);
         auto& tree = *plan._qet;
-        auto join = std::make_shared<TwoColumnJoin>(_qec, left, right, jcs);
+        auto join =
+            std::make_shared<TwoColumnJoin>(_qec, left, right, orderedJcs);
         tree.setVariableColumns(join->getVariableColumns());
         tree.setOperation(QueryExecutionTree::TWO_COL_JOIN, join);
-        // TODO<joka921>: shouldn't we |= the filters here to avoid duplicate
-        // filtering when it might hurt (although filters are always cheap).
         plan._idsOfIncludedFilters = a._idsOfIncludedFilters;
+        plan._idsOfIncludedFilters |= b._idsOfIncludedFilters;
         plan._idsOfIncludedNodes = a._idsOfIncludedNodes;
         plan.addAllNodes(b._idsOfIncludedNodes);
         candidates.push_back(std::move(plan));
diff --git a/src/engine/TwoColumnJoin.cpp b/src/engine/TwoColumnJoin.cpp
index 5bc3a01..1943150 100644
--- a/src/engine/TwoColumnJoin.cpp
+++ b/src/engine/TwoColumnJoin.cpp
@@ -95,10 +95,8 @@ void TwoColumnJoin::computeResult(ResultTable* result) {
 
   // Deal with the case that one of the lists is width two and
   // with join columns 0 1. This means we can use the filter method.
-  if ((_left->getResultWidth() == 2 && _jc1Left == 0 && _jc2Left == 1) ||
-      (_right->getResultWidth() == 2 && _jc1Right == 0 && _jc2Right == 1)) {
-    bool rightFilter =
-        (_right->getResultWidth() == 2 && _jc1Right == 0 && _jc2Right == 1);
+  if (leftCanFilter() || rightCanFilter()) {
+    bool rightFilter = useRightAsFilter();
     const auto leftResult = _left->getResult();
     const auto rightResult = _right->getResult();
     const auto& toFilter = rightFilter ? leftResult : rightResult;
@@ -132,11 +130,9 @@ void TwoColumnJoin::computeResult(ResultTable* result) {
 
 // _____________________________________________________________________________
 ad_utility::HashMap<string, size_t> TwoColumnJoin::getVariableColumns() const {
-  if ((_left->getResultWidth() == 2 && _jc1Left == 0 && _jc2Left == 1) ||
-      (_right->getResultWidth() == 2 && _jc1Right == 0 && _jc2Right == 1)) {
+  if (leftCanFilter() || rightCanFilter()) {
     // This is for the implemented filter case from computeResult()
-    bool rightFilter =
-        (_right->getResultWidth() == 2 && _jc1Right == 0 && _jc2Right == 1);
+    bool rightFilter = useRightAsFilter();
     const auto& toFilter = rightFilter ? _left : _right;
     return toFilter->getVariableColumns();
   } else {
@@ -169,6 +165,26 @@ ad_utility::HashMap<string, size_t> TwoColumnJoin::getVariableColumns() const {
   }
 }
 
+// _____________________________________________________________________________
+bool TwoColumnJoin::leftCanFilter() const {
+  return _left->getResultWidth() == 2 && _jc1Left == 0 && _jc2Left == 1;
+}
+
+// _____________________________________________________________________________
+bool TwoColumnJoin::rightCanFilter() const {
+  return _right->getResultWidth() == 2 && _jc1Right == 0 && _jc2Right == 1;
+}
+
+// _____________________________________________________________________________
+bool TwoColumnJoin::useRightAsFilter() const {
+  // Each row of the input that is filtered appears at most once in the result,
+  // so prefer a scan, which has no duplicates, as the filter.
+  if (leftCanFilter() && _left->getType() == QueryExecutionTree::SCAN) {
+    return rightCanFilter() && _right->getType() == QueryExecutionTree::SCAN;
+  }
+  return rightCanFilter();
+}
+
 // _____________________________________________________________________________
 size_t TwoColumnJoin::getResultWidth() const {
   size_t res = _left->getResultWidth() + _right->getResultWidth() - 2;
@@ -178,8 +194,7 @@ size_t TwoColumnJoin::getResultWidth() const {
 
 // _____________________________________________________________________________
 vector<size_t> TwoColumnJoin::resultSortedOn() const {
-  bool rightFilter =
-      (_right->getResultWidth() == 2 && _jc1Right == 0 && _jc2Right == 1);
+  bool rightFilter = useRightAsFilter();
   vector<size_t> sortedOn(2);
   if (rightFilter) {
     sortedOn[0] = _jc1Left;
diff --git a/src/engine/TwoColumnJoin.h b/src/engine/TwoColumnJoin.h
index 693ecb3..11f76cb 100644
--- a/src/engine/TwoColumnJoin.h
+++ b/src/engine/TwoColumnJoin.h
@@ -37,8 +37,7 @@ class TwoColumnJoin : public Operation {
   }
 
   virtual size_t getCostEstimate() override {
-    if ((_left->getResultWidth() == 2 && _jc1Left == 0 && _jc2Left == 1) ||
-        (_right->getResultWidth() == 2 && _jc1Right == 0 && _jc2Right == 1)) {
+    if (leftCanFilter() || rightCanFilter()) {
       return _left->getSizeEstimate() + _left->getCostEstimate() +
              _right->getSizeEstimate() + _right->getCostEstimate();
     }
@@ -70,6 +69,13 @@ class TwoColumnJoin : public Operation {
 
   vector<float> _multiplicities;
 
+  // True iff the respective input consists of exactly the join columns in the
+  // correct order.
+  bool leftCanFilter() const;
+  bool rightCanFilter() const;
+  // Which of the inputs is used as the filter.
+  bool useRightAsFilter() const;
+
   void computeMultiplicities();
 
   virtual void computeResult(ResultTable* result) override;
-- 
2.43.0


From 4568b4a04d5960aeb13015d99f18642bcd426566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:30:34 +0000
Subject: [PATCH 06/55] fix: only plan two column joins that can be computed

---
 src/engine/QueryPlanner.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index 00a735e..4a6dfc9 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -2853,6 +2853,11 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::createJoinCandidates(
       // directly with a scan's result.
       for (size_t c = 0; c < 2; ++c) {
         const vector<array<Id, 2>> orderedJcs{jcs[c], jcs[1 - c]};
+        // Only a scan that is not sorted again can be used as a filter.
+        if (!(isBinaryScan(a) && orderedJcs[0][0] == 0) &&
+            !(isBinaryScan(b) && orderedJcs[0][1] == 0)) {
+          continue;
+        }
         auto left = sortedBy(a, orderedJcs[0][0], orderedJcs[1][0]);
         auto right = sortedBy(b, orderedJcs[0][1], orderedJcs[1][1]);
         // TODO(florian): consider replacing this with a multicolumn join.
-- 
2.43.0


From 27a3cb4a7da89be7549583e94cbd64f38def4162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:30:34 +0000
Subject: [PATCH 07/55] fix: return all matching rows for the filters !=, <=
 and >

The inverse range filter on a sorted column lost the rows after the excluded
range. The filters <= and > were wrong for the first word of the vocabulary if
it is greater than the constant.
---
 src/engine/Filter.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/engine/Filter.cpp b/src/engine/Filter.cpp
index 1cecbf4..b682dc8 100644
--- a/src/engine/Filter.cpp
+++ b/src/engine/Filter.cpp
@@ -289,7 +289,7 @@ void Filter::computeFilterRange(IdTableStatic<WIDTH>* res, size_t lhs,
       res->insert(res->end(), lower, upper);
     } else {
       res->insert(res->end(), input.begin(), lower);
-      res->insert(res->end(), upper, res->end());
+      res->insert(res->end(), upper, input.end());
     }
   } else {
     const auto inv = [&](const bool b) { return INVERSE ? !b : b; };
@@ -669,12 +669,16 @@ void Filter::computeResultFixedValue(
         range_filter_inverse = _type == SparqlFilter::NE;
       } else if (_type == SparqlFilter::GE) {
         rhs = getIndex().getVocab().getValueIdForGE(rhs_string, level);
-      } else if (_type == SparqlFilter::GT) {
-        rhs = getIndex().getVocab().getValueIdForGT(rhs_string, level);
+      } else if (_type == SparqlFilter::GT || _type == SparqlFilter::LE) {
+        // All the words that are less or equal form a range which starts with
+        // the first word and which is empty if all words are greater.
+        rhs = 0;
+        rhs_upper_for_range =
+            getIndex().getVocab().upper_bound(rhs_string, level);
+        apply_range_filter = true;
+        range_filter_inverse = _type == SparqlFilter::GT;
       } else if (_type == SparqlFilter::LT) {
         rhs = getIndex().getVocab().getValueIdForLT(rhs_string, level);
-      } else if (_type == SparqlFilter::LE) {
-        rhs = getIndex().getVocab().getValueIdForLE(rhs_string, level);
       }
       // All other types of filters do not use r and work on _rhs directly
       break;
-- 
2.43.0


From 52c271745b0bd46a9abea0c8525ad53826a5af11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:09 +0000
Subject: [PATCH 08/55] fix: order and print numeric literals correctly

Handle leading zeros, exponents and more than 30 digits, keep literals that are
not numbers as they are, and encode the sign of the exponent of negative numbers
by a letter, because symbols are not sorted by their character code.
---
 src/util/Conversions.h | 270 +++++++++++++++--------------------------
 1 file changed, 99 insertions(+), 171 deletions(-)

diff --git a/src/util/Conversions.h b/src/util/Conversions.h
index b4c6bd4..b5595b4 100644
--- a/src/util/Conversions.h
+++ b/src/util/Conversions.h
@@ -49,18 +49,24 @@ enum class NumericType : char {
   DECIMAL = 'T'
 };
 
-//! Converts strings like "12.34" to :v:float:PP0*2E0*1234F and -0.123 to
-//! :v:float:M-0*1E9*876F with the last F used to indicate that the value was
+//! Check if the given string is a number, possibly with a sign, a fractional
+//! part and an exponent. "5", "+5.", ".5" and "-5.0E-7" are all numbers while
+//! "", ".", "INF" and "5x" are not.
+inline bool isFloatString(const string& value);
+
+//! Converts strings like "12.34" to :v:float:PP0*1E12340*F and -0.123 to
+//! :v:float:MS0*1E8769*F with the last F used to indicate that the value was
 //! originally a float. ('I' if it was an int).
+//! The value has to be a number according to isFloatString().
 inline string convertFloatStringToIndexWord(
     const string& value, const NumericType type = NumericType::FLOAT);
 
-//! Converts strings like this: :v:float:PP0*2E0*1234F to "12.34" and
-//! :v:float:M-0*1E9*876F to "-0.123".
+//! Converts strings like this: :v:float:PP0*1E12340*F to "12.34" and
+//! :v:float:MS0*1E8769*F to "-0.123".
 inline string convertIndexWordToFloatString(const string& indexWord);
 
-//! Converts strings like this: ":v:float:PP0*2E0*1234F to "12.34 and
-//! :v:float:M-0*1E9*876F to -0.123".
+//! Converts strings like this: :v:float:PP0*1E12340*F to 12.34 and
+//! :v:float:MS0*1E8769*F to -0.123.
 inline float convertIndexWordToFloat(const string& indexWord);
 
 //! Brings a date to the format:
@@ -141,8 +147,15 @@ string convertValueLiteralToIndexWord(const string& orig) {
     // No longer convert to int. instead always convert to float and
     // have a special marker at the very end to tell if the original number
     // was int for float. The benefit: can compare float with int that way.
+    // Keep everything that is not a number (e.g. INF and NaN) as it is.
+    if (!isFloatString(value)) {
+      return orig;
+    }
     if (type == "int" || type == "integer") {
-      return convertFloatStringToIndexWord(value + ".0", NumericType::INTEGER);
+      if (value.find_first_of(".eE") != string::npos) {
+        return orig;
+      }
+      return convertFloatStringToIndexWord(value, NumericType::INTEGER);
     }
     // We treat double and decimal as synonyms for float
     if (type == "float") {
@@ -197,60 +210,88 @@ string convertIndexWordToValueLiteral(const string& indexWord) {
   return indexWord;
 }
 
+// _____________________________________________________________________________
+bool isFloatString(const string& value) {
+  const char* digits = "0123456789";
+  // Move pos behind all the digits and return the number of the digits.
+  auto skipDigits = [&](size_t* pos) {
+    size_t start = *pos;
+    *pos = std::min(value.find_first_not_of(digits, start), value.size());
+    return *pos - start;
+  };
+  auto skipSign = [&](size_t* pos) {
+    if (*pos < value.size() && (value[*pos] == '+' || value[*pos] == '-')) {
+      ++*pos;
+    }
+  };
+  size_t pos = 0;
+  skipSign(&pos);
+  size_t numDigits = skipDigits(&pos);
+  if (pos < value.size() && value[pos] == '.') {
+    ++pos;
+    numDigits += skipDigits(&pos);
+  }
+  if (numDigits == 0) {
+    return false;
+  }
+  if (pos < value.size() && (value[pos] == 'e' || value[pos] == 'E')) {
+    ++pos;
+    skipSign(&pos);
+    size_t numExponentDigits = skipDigits(&pos);
+    // No numeric type has larger exponents, so this is not a useful number.
+    if (numExponentDigits == 0 || numExponentDigits > 4) {
+      return false;
+    }
+  }
+  return pos == value.size();
+}
+
 // _____________________________________________________________________________
 string convertFloatStringToIndexWord(const string& orig,
                                      const NumericType type) {
-  // Need a copy to modify.
-  string value;
+  string value = orig;
+  bool negaMantissa = false;
   // ignore a + in the beginning of the number
-  if (orig.size() > 0 && orig[0] == '+') {
-    value = orig.substr(1);
-  } else {
-    value = orig;
+  if (value.size() > 0 && (value[0] == '+' || value[0] == '-')) {
+    negaMantissa = value[0] == '-';
+    value = value.substr(1);
+  }
+
+  // The exponent of the scientific notation.
+  int exponent = 0;
+  size_t posOfE = value.find_first_of("eE");
+  if (posOfE != string::npos) {
+    exponent = atoi(value.substr(posOfE + 1).c_str());
+    value = value.substr(0, posOfE);
   }
-  size_t posOfDot = value.find('.');
-  if (posOfDot == string::npos) {
-    return convertFloatStringToIndexWord(value + ".0", type);
+
+  // Get the position of the dot relative to the first nonzero digit and the
+  // digits.
+  size_t posOfDot = std::min(value.find('.'), value.size());
+  if (posOfDot < value.size()) {
+    value.erase(posOfDot, 1);
   }
+  size_t firstNonzero = value.find_first_not_of('0');
 
   // Treat the special case 0.0
-  if (value == "0.0" || value == "-0.0") {
+  if (firstNonzero == string::npos) {
     return string(VALUE_FLOAT_PREFIX) + "N0" + char(type);
   }
+  exponent += static_cast<int>(posOfDot) - static_cast<int>(firstNonzero) - 1;
+  value = value.substr(firstNonzero);
 
   std::ostringstream os;
   os << VALUE_FLOAT_PREFIX;
-
-  bool negaMantissa = (value[0] == '-');
-  if (negaMantissa) {
-    value = value.substr(1);
-    --posOfDot;
-  }
   os << (negaMantissa ? 'M' : 'P');
 
-  // Get the exponent.
-  int exponent = static_cast<int>(posOfDot) - 1;
-  if (posOfDot <= 1) {
-    if (value[0] == '0') {
-      exponent = -1;
-      size_t i = 2;
-      while (i < value.size() && value[i] == '0') {
-        ++i;
-        --exponent;
-      }
-      if (i == value.size()) {
-        exponent = -1;
-      }
-    }
-  }
-
   // Produce a string for the exponent sign.
   // Note that the index word has to start with one of:
-  // PP, PM, M+, M- so that the lexicographical ordering
-  // reflects the actual order of floats.
+  // PP, PM, ML, MS so that the ordering of the words (which is not necessarily
+  // the lexicographical one and might handle symbols in a different way than
+  // letters) reflects the actual order of floats.
   bool negaExpo = (exponent < 0);
   if (negaMantissa) {
-    os << (negaExpo ? '-' : '+');
+    os << (negaExpo ? 'S' : 'L');
   } else {
     os << (negaExpo ? 'M' : 'P');
   }
@@ -273,32 +314,11 @@ string convertFloatStringToIndexWord(const string& orig,
   }
   os << expoString;
 
-  // Get the mantissa with digit complements for negative numbers.
-  std::ostringstream mant;
-  size_t i = 0;
-  while (i < value.size()) {
-    if (value[i] != '.') {
-      if (negaMantissa) {
-        mant << (9 - atoi(value.substr(i, 1).c_str()));
-      } else {
-        mant << value[i];
-      }
-    }
-    ++i;
-  }
-
+  // Get the mantissa with digit complements for negative numbers. The padding
+  // is necessary because we append something to restore the original type.
+  value.resize(DEFAULT_NOF_VALUE_MANTISSA_DIGITS, '0');
   os << 'E';
-  os << mant.str().substr(0, DEFAULT_NOF_VALUE_MANTISSA_DIGITS);
-  // Padding for mantissa. Necessary because we append something
-  // to restore the original type.
-  for (size_t i = mant.str().size(); i < DEFAULT_NOF_VALUE_MANTISSA_DIGITS;
-       ++i) {
-    if (!negaMantissa) {
-      os << '0';
-    } else {
-      os << '9';
-    }
-  }
+  os << (negaMantissa ? getBase10ComplementOfIntegerString(value) : value);
   return os.str() + char(type);
 }
 
@@ -316,7 +336,7 @@ string convertIndexWordToFloatString(const string& indexWord) {
   }
   assert(number.size() >= 5);
   bool negaMantissa = number[0] == 'M';
-  bool negaExponent = number[1] == 'M' || number[1] == '-';
+  bool negaExponent = number[1] == 'M' || number[1] == 'S';
 
   size_t posOfE = number.find('E');
   assert(posOfE != string::npos && posOfE > 0 && posOfE < number.size() - 1);
@@ -330,116 +350,24 @@ string convertIndexWordToFloatString(const string& indexWord) {
       (!negaMantissa
            ? number.substr(posOfE + 1)
            : getBase10ComplementOfIntegerString(number.substr(posOfE + 1)));
+  // Remove the padding.
+  mantissa = ad_utility::rstrip(mantissa, '0');
 
-  std::ostringstream os;
-  if (negaMantissa) {
-    os << '-';
-  }
-
+  string sign = negaMantissa ? "-" : "";
   if (negaExponent) {
-    os << "0.";
-    --absExponent;
-    while (absExponent > 0) {
-      os << '0';
-      --absExponent;
-    }
-
-    // Skip leading zeros of the mantissa
-    size_t i = 0;
-    while (mantissa[i] == '0') {
-      ++i;
-    }
-    os << ad_utility::rstrip(mantissa.substr(i), '0');
-  } else {
-    // Skip leading zeros of the mantissa
-    size_t i = 0;
-    while (mantissa[i] == '0') {
-      ++i;
-    }
-
-    // Collect later zeros and only write them if something nonzero is found.
-    // This eliminates the padding.
-    std::ostringstream zeros;
-    size_t tenToThe = 0;
-    while (i < mantissa.size()) {
-      if (mantissa[i] == '0') {
-        zeros << '0';
-      } else {
-        os << zeros.str();
-        zeros.str("");
-        os << mantissa[i];
-      }
-      ++i;
-      if (tenToThe == absExponent) {
-        os << zeros.str();
-        zeros.str("");
-        os << ".";
-      }
-      ++tenToThe;
-    }
-
-    if (os.str().back() == '.') {
-      os << '0';
-    }
-
-    if (absExponent > mantissa.size()) {
-      for (size_t i = 0; i < absExponent - mantissa.size(); ++i) {
-        os << "0";
-      }
-    }
+    return sign + "0." + string(absExponent - 1, '0') + mantissa;
   }
-  return os.str();
+  // There is at least one digit behind the dot.
+  if (mantissa.size() < absExponent + 2) {
+    mantissa.resize(absExponent + 2, '0');
+  }
+  return sign + mantissa.substr(0, absExponent + 1) + "." +
+         mantissa.substr(absExponent + 1);
 }
 
 // _____________________________________________________________________________
 float convertIndexWordToFloat(const string& indexWord) {
-  size_t prefixLength = std::char_traits<char>::length(VALUE_FLOAT_PREFIX);
-  AD_CHECK_GT(indexWord.size(), prefixLength + 1);
-  // the -1 accounts for the originally float/int identifier suffix
-  string number =
-      indexWord.substr(prefixLength, indexWord.size() - prefixLength - 1);
-  // Handle the special case 0.0
-  if (number == "N0") {
-    return 0;
-  }
-  assert(number.size() >= 5);
-  bool negaMantissa = number[0] == 'M';
-  bool negaExponent = number[1] == 'M' || number[1] == '-';
-
-  size_t posOfE = number.find('E');
-  assert(posOfE != string::npos && posOfE > 0 && posOfE < number.size() - 1);
-
-  string exponentString =
-      ((negaMantissa == negaExponent)
-           ? number.substr(2, posOfE - 2)
-           : getBase10ComplementOfIntegerString(number.substr(2, posOfE - 2)));
-  long absExponent = static_cast<size_t>(atoi(exponentString.c_str()));
-  string mantissa =
-      (!negaMantissa
-           ? number.substr(posOfE + 1)
-           : getBase10ComplementOfIntegerString(number.substr(posOfE + 1)));
-  size_t mStart, mStop;
-  for (mStart = 0; mStart < mantissa.size() && mantissa[mStart] == '0';
-       mStart++)
-    ;
-  for (mStop = mantissa.size() - 1; mStop > mStart && mantissa[mStop] == '0';
-       mStop--)
-    ;
-  long absMantissa = stol(mantissa.substr(mStart, mStop - mStart + 1));
-  unsigned int mantissaLog = std::log10(absMantissa);
-  if (negaMantissa) {
-    if (negaExponent) {
-      return -absMantissa * std::pow(10, -absExponent - mantissaLog);
-    } else {
-      return -absMantissa * std::pow(10, absExponent - mantissaLog);
-    }
-  } else {
-    if (negaExponent) {
-      return absMantissa * std::pow(10, -absExponent - mantissaLog);
-    } else {
-      return absMantissa * std::pow(10, absExponent - mantissaLog);
-    }
-  }
+  return std::strtof(convertIndexWordToFloatString(indexWord).c_str(), nullptr);
 }
 
 // _____________________________________________________________________________
-- 
2.43.0


From 20448fd45c58b8ff4e9200a82377056c6dddae37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:38:34 +0000
Subject: [PATCH 09/55] fix: distinguish all different operations in the keys
 of the query cache

The keys did not contain the columns of filters, of DISTINCT, MINUS and UNION,
which side of a join is optional, DISTINCT in aggregates and the columns of the
subtrees of predicate scans and transitive paths. So the cached result of one
query could be returned for a different one.
---
 src/engine/Distinct.cpp         |  6 +++++-
 src/engine/Filter.cpp           | 21 +++++++++++++++++++++
 src/engine/Filter.h             |  3 +++
 src/engine/GroupBy.cpp          |  3 +++
 src/engine/HasPredicateScan.cpp |  3 ++-
 src/engine/Minus.cpp            |  5 ++++-
 src/engine/Operation.cpp        | 15 ++++++++++++++-
 src/engine/Operation.h          |  8 ++++++++
 src/engine/OptionalJoin.cpp     |  7 +++++++
 src/engine/OptionalJoin.h       |  3 +++
 src/engine/TransitivePath.cpp   |  4 ++--
 src/engine/Union.cpp            | 11 +++++++++++
 12 files changed, 83 insertions(+), 6 deletions(-)

diff --git a/src/engine/Distinct.cpp b/src/engine/Distinct.cpp
index 97f2f74..7e3fadb 100644
--- a/src/engine/Distinct.cpp
+++ b/src/engine/Distinct.cpp
@@ -24,7 +24,11 @@ string Distinct::asString(size_t indent) const {
   for (size_t i = 0; i < indent; ++i) {
     os << " ";
   }
-  os << "Distinct " << _subtree->asString(indent);
+  os << "Distinct on columns:";
+  for (const auto& column : _keepIndices) {
+    os << ' ' << column;
+  }
+  os << '\n' << _subtree->asString(indent);
   return os.str();
 }
 
diff --git a/src/engine/Filter.cpp b/src/engine/Filter.cpp
index b682dc8..5f0399f 100644
--- a/src/engine/Filter.cpp
+++ b/src/engine/Filter.cpp
@@ -87,6 +87,27 @@ string Filter::asString(size_t indent) const {
   return os.str();
 }
 
+// _____________________________________________________________________________
+string Filter::getCacheKeyDetails() const {
+  // The same variable names do not imply that the columns are the same.
+  const auto& variableColumns = _subtree->getVariableColumns();
+  std::ostringstream os;
+  os << "\nFILTER columns:";
+  auto addColumn = [&](const string& variable) {
+    auto it = variableColumns.find(variable);
+    if (it != variableColumns.end()) {
+      os << ' ' << it->second;
+    }
+  };
+  addColumn(_lhs);
+  addColumn(_rhs);
+  for (const auto& lhs : _additionalLhs) {
+    addColumn(lhs);
+  }
+  return os.str();
+}
+
+// _____________________________________________________________________________
 string Filter::getDescriptor() const {
   std::ostringstream os;
   os << "Filter ";
diff --git a/src/engine/Filter.h b/src/engine/Filter.h
index 07ea585..9389ecf 100644
--- a/src/engine/Filter.h
+++ b/src/engine/Filter.h
@@ -109,6 +109,9 @@ class Filter : public Operation {
     return _subtree->getVariableColumns();
   }
 
+ protected:
+  virtual string getCacheKeyDetails() const override;
+
  private:
   std::shared_ptr<QueryExecutionTree> _subtree;
   SparqlFilter::FilterType _type;
diff --git a/src/engine/GroupBy.cpp b/src/engine/GroupBy.cpp
index 2db20a8..623b050 100644
--- a/src/engine/GroupBy.cpp
+++ b/src/engine/GroupBy.cpp
@@ -58,6 +58,9 @@ string GroupBy::asString(size_t indent) const {
   }
   for (const auto& p : _aliases) {
     os << ParsedQuery::AggregateTypeAsString(p._type);
+    if (p._isDistinct) {
+      os << " DISTINCT";
+    }
     if (p._type == ParsedQuery::AggregateType::GROUP_CONCAT) {
       os << p._delimiter;
     }
diff --git a/src/engine/HasPredicateScan.cpp b/src/engine/HasPredicateScan.cpp
index bd6f731..61db606 100644
--- a/src/engine/HasPredicateScan.cpp
+++ b/src/engine/HasPredicateScan.cpp
@@ -36,7 +36,8 @@ string HasPredicateScan::asString(size_t indent) const {
       os << "HAS_RELATION_SCAN for the full relation";
       break;
     case ScanType::SUBQUERY_S:
-      os << "HAS_RELATION_SCAN with S = " << _subtree->asString(indent);
+      os << "HAS_RELATION_SCAN with S = " << _subtree->asString(indent)
+         << " column " << _subtreeColIndex;
       break;
   }
   return os.str();
diff --git a/src/engine/Minus.cpp b/src/engine/Minus.cpp
index 07d194e..20f4a7e 100644
--- a/src/engine/Minus.cpp
+++ b/src/engine/Minus.cpp
@@ -36,7 +36,10 @@ string Minus::asString(size_t indent) const {
     os << " ";
   }
   os << "MINUS\n" << _left->asString(indent) << "\n";
-  os << _right->asString(indent) << " ";
+  os << _right->asString(indent) << " matched columns:";
+  for (const auto& columns : _matchedColumns) {
+    os << " [" << columns[0] << " & " << columns[1] << "]";
+  }
   return os.str();
 }
 
diff --git a/src/engine/Operation.cpp b/src/engine/Operation.cpp
index d2b6f9d..b6f6265 100644
--- a/src/engine/Operation.cpp
+++ b/src/engine/Operation.cpp
@@ -55,6 +55,19 @@ void Operation::recursivelySetTimeoutTimer(
   }
 }
 
+// ________________________________________________________________________
+string Operation::getCacheKey() const {
+  string key = asString();
+  key += getCacheKeyDetails();
+  // The structure of the tree is already contained in the result of asString()
+  forAllDescendants([&key](const QueryExecutionTree* child) {
+    if (child->getRootOperation()) {
+      key += child->getRootOperation()->getCacheKeyDetails();
+    }
+  });
+  return key;
+}
+
 // Get the result for the subtree rooted at this element.
 // Use existing results if they are already available, otherwise
 // trigger computation.
@@ -62,7 +75,7 @@ shared_ptr<const ResultTable> Operation::getResult(bool isRoot) {
   ad_utility::Timer timer;
   timer.start();
   auto& cache = _executionContext->getQueryTreeCache();
-  const string cacheKey = asString();
+  const string cacheKey = getCacheKey();
   const bool pinFinalResultButNotSubtrees =
       _executionContext->_pinResult && isRoot;
   const bool pinResult =
diff --git a/src/engine/Operation.h b/src/engine/Operation.h
index 4742a7c..120cbde 100644
--- a/src/engine/Operation.h
+++ b/src/engine/Operation.h
@@ -71,6 +71,10 @@ class Operation {
   // This should possible act like an ID for each subtree.
   virtual string asString(size_t indent = 0) const = 0;
 
+  // The key under which the result is stored in the cache. It consists of
+  // asString() and of the details of this operation and all its descendants.
+  string getCacheKey() const;
+
   // Gets a very short (one line without line ending) descriptor string for
   // this Operation.  This string is used in the RuntimeInformation
   virtual string getDescriptor() const = 0;
@@ -96,6 +100,10 @@ class Operation {
       const ad_utility::SharedConcurrentTimeoutTimer& timer);
 
  protected:
+  // Everything that has an influence on the result of this operation, but is
+  // neither part of asString() nor of one of the children.
+  virtual string getCacheKeyDetails() const { return ""; }
+
   QueryExecutionContext* getExecutionContext() const {
     return _executionContext;
   }
diff --git a/src/engine/OptionalJoin.cpp b/src/engine/OptionalJoin.cpp
index df9b5fd..6591f4e 100644
--- a/src/engine/OptionalJoin.cpp
+++ b/src/engine/OptionalJoin.cpp
@@ -57,6 +57,13 @@ string OptionalJoin::asString(size_t indent) const {
   return os.str();
 }
 
+// _____________________________________________________________________________
+string OptionalJoin::getCacheKeyDetails() const {
+  std::ostringstream os;
+  os << "\nOPTIONAL_JOIN optional: " << _leftOptional << ' ' << _rightOptional;
+  return os.str();
+}
+
 // _____________________________________________________________________________
 string OptionalJoin::getDescriptor() const {
   std::string joinVars = "";
diff --git a/src/engine/OptionalJoin.h b/src/engine/OptionalJoin.h
index a44b3d2..098ea72 100644
--- a/src/engine/OptionalJoin.h
+++ b/src/engine/OptionalJoin.h
@@ -65,6 +65,9 @@ class OptionalJoin : public Operation {
                            const vector<array<Id, 2>>& joinColumns,
                            IdTable* dynResult);
 
+ protected:
+  virtual string getCacheKeyDetails() const override;
+
  private:
   void computeSizeEstimateAndMultiplicities();
 
diff --git a/src/engine/TransitivePath.cpp b/src/engine/TransitivePath.cpp
index 091220a..7d87f68 100644
--- a/src/engine/TransitivePath.cpp
+++ b/src/engine/TransitivePath.cpp
@@ -55,12 +55,12 @@ std::string TransitivePath::asString(size_t indent) const {
   os << " minDist " << _minDist << " maxDist " << _maxDist << "\n";
   os << _subtree->asString(indent) << "\n";
   if (_leftSideTree != nullptr) {
-    os << "Left subtree:\n";
+    os << "Left subtree, column " << _leftSideCol << ":\n";
     os << _leftSideTree->asString(indent) << "\n";
   }
   os << _subtree->asString(indent) << "\n";
   if (_rightSideTree != nullptr) {
-    os << "Right subtree:\n";
+    os << "Right subtree, column " << _rightSideCol << ":\n";
     os << _rightSideTree->asString(indent) << "\n";
   }
   return os.str();
diff --git a/src/engine/Union.cpp b/src/engine/Union.cpp
index 2be208b..7b2c415 100644
--- a/src/engine/Union.cpp
+++ b/src/engine/Union.cpp
@@ -46,6 +46,17 @@ string Union::asString(size_t indent) const {
   }
   os << "UNION\n";
   os << _subtrees[1]->asString(indent) << "\n";
+  os << "column origins:";
+  for (const auto& origins : _columnOrigins) {
+    os << " [";
+    for (size_t i = 0; i < 2; ++i) {
+      if (origins[i] != NO_COLUMN) {
+        os << origins[i];
+      }
+      os << (i == 0 ? " & " : "]");
+    }
+  }
+  os << "\n";
   return os.str();
 }
 
-- 
2.43.0


From 465b9eac6c013e0d6e00176e2ee714dda7669495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:25 +0000
Subject: [PATCH 10/55] fix: join the results of subqueries that consist of a
 single scan

---
 src/engine/QueryPlanner.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index 4a6dfc9..6c6f25b 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -2886,6 +2886,10 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::createJoinCandidates(
     }
 
     // CASE: JOIN ON ONE COLUMN ONLY.
+    auto isDummyScan = [](const QueryExecutionTree& tree) {
+      return tree.getType() == QueryExecutionTree::SCAN &&
+             tree.getResultWidth() == 3;
+    };
     if ((a._qet->getType() ==
              QueryExecutionTree::OperationType::TEXT_WITHOUT_FILTER ||
          b._qet->getType() ==
@@ -3021,10 +3025,10 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::createJoinCandidates(
 
         const vector<size_t>& otherSortedOn = other->resultSortedOn();
         if (otherSortedOn.size() == 0 || otherSortedOn[0] != otherCol) {
-          if (other->getType() == QueryExecutionTree::SCAN) {
+          if (isDummyScan(*other)) {
             return candidates;
           }
-          auto sort = std::make_shared<Sort>(_qec, other, jcs[0][0]);
+          auto sort = std::make_shared<Sort>(_qec, other, otherCol);
           auto sortedOther = std::make_shared<QueryExecutionTree>(_qec);
           sortedOther->setVariableColumns(other->getVariableColumns());
           sortedOther->setContextVars(other->getContextVars());
@@ -3077,10 +3081,10 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::createJoinCandidates(
 
         const vector<size_t>& otherSortedOn = other->resultSortedOn();
         if (otherSortedOn.empty() || otherSortedOn[0] != otherCol) {
-          if (other->getType() == QueryExecutionTree::SCAN) {
+          if (isDummyScan(*other)) {
             return candidates;
           }
-          auto sort = std::make_shared<Sort>(_qec, other, jcs[0][0]);
+          auto sort = std::make_shared<Sort>(_qec, other, otherCol);
           auto sortedOther = std::make_shared<QueryExecutionTree>(_qec);
           sortedOther->setVariableColumns(other->getVariableColumns());
           sortedOther->setContextVars(other->getContextVars());
@@ -3113,9 +3117,10 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::createJoinCandidates(
       left = a._qet;
     } else {
       // Create a sort operation.
-      // But never sort scans, there we could have just scanned
-      // differently.
-      if (a._qet->getType() == QueryExecutionTree::SCAN) {
+      // Sorting a scan is only useful if the differently sorted scan is not
+      // among the candidates (e.g. because it is the result of a subquery).
+      // But never sort the full index.
+      if (isDummyScan(*a._qet)) {
         return candidates;
       }
       auto sort = std::make_shared<Sort>(_qec, a._qet, jcs[0][0]);
@@ -3128,9 +3133,10 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::createJoinCandidates(
       right = b._qet;
     } else {
       // Create a sort operation.
-      // But never sort scans, there we could have just scanned
-      // differently.
-      if (b._qet->getType() == QueryExecutionTree::SCAN) {
+      // Sorting a scan is only useful if the differently sorted scan is not
+      // among the candidates (e.g. because it is the result of a subquery).
+      // But never sort the full index.
+      if (isDummyScan(*b._qet)) {
         return candidates;
       }
       auto sort = std::make_shared<Sort>(_qec, b._qet, jcs[0][1]);
-- 
2.43.0


From c940363ce8bb6c55c706f5aae92103c9f577e55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:25 +0000
Subject: [PATCH 11/55] fix: use the right operand for the multiplicities of an
 optional join

---
 src/engine/OptionalJoin.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine/OptionalJoin.cpp b/src/engine/OptionalJoin.cpp
index 6591f4e..7255480 100644
--- a/src/engine/OptionalJoin.cpp
+++ b/src/engine/OptionalJoin.cpp
@@ -234,7 +234,8 @@ void OptionalJoin::computeSizeEstimateAndMultiplicities() {
   float multRight = std::numeric_limits<float>::max();
   for (size_t i = 0; i < _joinColumns.size(); i++) {
     multLeft = std::min(multLeft, _left->getMultiplicity(_joinColumns[i][0]));
-    multRight = std::min(multLeft, _left->getMultiplicity(_joinColumns[i][1]));
+    multRight =
+        std::min(multRight, _right->getMultiplicity(_joinColumns[i][1]));
   }
   float multResult = multLeft * multRight;
 
-- 
2.43.0


From 024fe21771499b4d21a9881ea1a000352d22ace5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:25 +0000
Subject: [PATCH 12/55] fix: print unbound values of all column types as
 unbound

---
 src/engine/QueryExecutionTree.cpp | 14 +++++++++++---
 src/engine/Union.cpp              |  2 +-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/engine/QueryExecutionTree.cpp b/src/engine/QueryExecutionTree.cpp
index e5fea88..90e1ec6 100644
--- a/src/engine/QueryExecutionTree.cpp
+++ b/src/engine/QueryExecutionTree.cpp
@@ -110,7 +110,9 @@ void QueryExecutionTree::writeResultToStream(std::ostream& out,
   }
 
   const IdTable& data = res->_data;
-  size_t upperBound = std::min<size_t>(offset + limit, data.size());
+  // The sum of limit and offset might overflow.
+  size_t upperBound = std::min(data.size(), offset);
+  upperBound += std::min(data.size() - upperBound, limit);
   writeTable(data, sep, offset, upperBound, validIndices, out);
 
   LOG(DEBUG) << "Done creating readable result.\n";
@@ -210,7 +212,9 @@ nlohmann::json QueryExecutionTree::writeJsonTable(
     return nullptr;
   };
 
-  const auto upperBound = std::min(data.size(), limit + from);
+  // The sum of limit and from might overflow.
+  size_t upperBound = std::min(data.size(), from);
+  upperBound += std::min(data.size() - upperBound, limit);
 
   for (size_t i = from; i < upperBound; ++i) {
     json.emplace_back();
@@ -222,6 +226,10 @@ nlohmann::json QueryExecutionTree::writeJsonTable(
       }
       const auto& idx = *opt;
       const auto& currentId = data(i, idx.first);
+      if (currentId == ID_NO_VALUE) {
+        row.emplace_back(nullptr);
+        continue;
+      }
       switch (idx.second) {
         case ResultTable::ResultType::KB: {
           std::optional<string> entity =
@@ -272,7 +280,7 @@ void QueryExecutionTree::writeTable(
   shared_ptr<const ResultTable> res = getResult();
   for (size_t i = from; i < upperBound; ++i) {
     for (size_t j = 0; j < validIndices.size(); ++j) {
-      if (validIndices[j]) {
+      if (validIndices[j] && data(i, validIndices[j]->first) != ID_NO_VALUE) {
         const auto& val = *validIndices[j];
         switch (val.second) {
           case ResultTable::ResultType::KB: {
diff --git a/src/engine/Union.cpp b/src/engine/Union.cpp
index 7b2c415..48f9bdf 100644
--- a/src/engine/Union.cpp
+++ b/src/engine/Union.cpp
@@ -151,7 +151,7 @@ void Union::computeResult(ResultTable* result) {
     if (o[0] != NO_COLUMN) {
       result->_resultTypes.push_back(subRes1->getResultType(o[0]));
     } else if (o[1] != NO_COLUMN) {
-      result->_resultTypes.push_back(subRes1->getResultType(o[1]));
+      result->_resultTypes.push_back(subRes2->getResultType(o[1]));
     } else {
       result->_resultTypes.push_back(ResultTable::ResultType::KB);
     }
-- 
2.43.0


From bfbc961ece932ae68b264efb2e80e604169afcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:34 +0000
Subject: [PATCH 13/55] fix: do not skip rows of the larger left side in
 galloping joins

---
 src/engine/Join.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/Join.cpp b/src/engine/Join.cpp
index 3c08973..5fcd2b9 100644
--- a/src/engine/Join.cpp
+++ b/src/engine/Join.cpp
@@ -647,7 +647,7 @@ void Join::doGallopInnerJoin(const TagType, const IdTableView<L_WIDTH>& l1,
       }
     } else {
       size_t step = 1;
-      size_t last = j;
+      size_t last = i;
       while (l2(j, jc2) > l1(i, jc1)) {
         last = i;
         i += step;
-- 
2.43.0


From a946009e2931a8498d737e5014a20d43f4c57bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:53:41 +0000
Subject: [PATCH 14/55] fix: compare float columns with fixed values by value
 in equality filters

---
 src/engine/Filter.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/engine/Filter.cpp b/src/engine/Filter.cpp
index 5f0399f..5145a8b 100644
--- a/src/engine/Filter.cpp
+++ b/src/engine/Filter.cpp
@@ -346,7 +346,8 @@ void Filter::computeFilterFixedValue(
             [lhs](const auto& l, const auto& r) {
               return ValueReader<T>::get(l[lhs]) < ValueReader<T>::get(r[lhs]);
             });
-        if (lower != input.end() && (*lower)[lhs] == rhs) {
+        if (lower != input.end() &&
+            ValueReader<T>::get((*lower)[lhs]) == ValueReader<T>::get(rhs)) {
           // an element equal to rhs exists in the vector
           const auto& upper = std::upper_bound(
               lower, input.end(), rhs_row, [lhs](const auto& l, const auto& r) {
@@ -357,7 +358,11 @@ void Filter::computeFilterFixedValue(
         }
       } else {
         getEngine().filter(
-            input, [lhs, rhs](const auto& e) { return e[lhs] == rhs; }, res);
+            input,
+            [lhs, rhs](const auto& e) {
+              return ValueReader<T>::get(e[lhs]) == ValueReader<T>::get(rhs);
+            },
+            res);
       }
       break;
     case SparqlFilter::NE:
@@ -370,7 +375,8 @@ void Filter::computeFilterFixedValue(
             [lhs](const auto& l, const auto& r) {
               return ValueReader<T>::get(l[lhs]) < ValueReader<T>::get(r[lhs]);
             });
-        if (lower != input.end() && (*lower)[lhs] == rhs) {
+        if (lower != input.end() &&
+            ValueReader<T>::get((*lower)[lhs]) == ValueReader<T>::get(rhs)) {
           // rhs appears within the input, take all elements before and after it
           const auto& upper = std::upper_bound(
               lower, input.end(), rhs_row, [lhs](const auto& l, const auto& r) {
@@ -385,7 +391,11 @@ void Filter::computeFilterFixedValue(
         }
       } else {
         getEngine().filter(
-            input, [lhs, rhs](const auto& e) { return e[lhs] != rhs; }, res);
+            input,
+            [lhs, rhs](const auto& e) {
+              return ValueReader<T>::get(e[lhs]) != ValueReader<T>::get(rhs);
+            },
+            res);
       }
       break;
     case SparqlFilter::LT:
-- 
2.43.0


From b3cd5fb3c62cf06c7586863fe4a76a841adab150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:53:41 +0000
Subject: [PATCH 15/55] fix: apply all HAVING clauses of a query

---
 src/engine/QueryPlanner.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index 6c6f25b..4d0cda2 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -978,10 +978,10 @@ vector<QueryPlanner::SubtreePlan> QueryPlanner::getHavingRow(
     for (const SparqlFilter& filter : pq._havingClauses) {
       SubtreePlan plan(_qec);
       auto& tree = *plan._qet;
-      tree.setVariableColumns(parent._qet->getVariableColumns());
+      tree.setVariableColumns(filtered._qet->getVariableColumns());
       tree.setOperation(QueryExecutionTree::FILTER,
-                        createFilterOperation(filter, parent));
-      tree.setContextVars(parent._qet->getContextVars());
+                        createFilterOperation(filter, filtered));
+      tree.setContextVars(filtered._qet->getContextVars());
       filtered = plan;
     }
     added.push_back(filtered);
-- 
2.43.0


From d0706509db9b35ac64e89ddd2bbda50f851d755d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:53:41 +0000
Subject: [PATCH 16/55] fix: do not report a descending order as sorted columns

---
 src/engine/OrderBy.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/engine/OrderBy.cpp b/src/engine/OrderBy.cpp
index c7abf83..dc472b3 100644
--- a/src/engine/OrderBy.cpp
+++ b/src/engine/OrderBy.cpp
@@ -63,10 +63,12 @@ vector<size_t> OrderBy::resultSortedOn() const {
   std::vector<size_t> sortedOn;
   sortedOn.reserve(_sortIndices.size());
   for (const pair<size_t, bool>& p : _sortIndices) {
-    if (!p.second) {
-      // Only ascending columns count as sorted.
-      sortedOn.push_back(p.first);
+    if (p.second) {
+      // Only ascending columns count as sorted, and the columns that follow a
+      // descending column are only sorted within equal values of that column.
+      break;
     }
+    sortedOn.push_back(p.first);
   }
   return sortedOn;
 }
-- 
2.43.0


From 45f1bdfd19cd24d99c3a521c0ca99594f2d39591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:53:41 +0000
Subject: [PATCH 17/55] fix: aggregates over distinct and unbound values and
 over the whole input

---
 src/engine/GroupBy.cpp | 214 ++++++++++++-----------------------------
 1 file changed, 63 insertions(+), 151 deletions(-)

diff --git a/src/engine/GroupBy.cpp b/src/engine/GroupBy.cpp
index 623b050..e7dedd7 100644
--- a/src/engine/GroupBy.cpp
+++ b/src/engine/GroupBy.cpp
@@ -191,6 +191,8 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
   switch (a._type) {
     case ParsedQuery::AggregateType::AVG: {
       float res = 0;
+      // The number of values that contribute to the average.
+      size_t numValues = blockEnd - blockStart + 1;
       if (inputTypes[a._inCol] == ResultTable::ResultType::VERBATIM) {
         if (a._distinct) {
           for (size_t i = blockStart; i <= blockEnd; i++) {
@@ -201,6 +203,7 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
               res += input(i, a._inCol);
             }
           }
+          numValues = distinctHashSet.size();
           distinctHashSet.clear();
         } else {
           for (size_t i = blockStart; i <= blockEnd; i++) {
@@ -221,6 +224,7 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
               res += tmpF;
             }
           }
+          numValues = distinctHashSet.size();
           distinctHashSet.clear();
         } else {
           for (size_t i = blockStart; i <= blockEnd; i++) {
@@ -251,6 +255,7 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
               }
             }
           }
+          numValues = distinctHashSet.size();
           distinctHashSet.clear();
         } else {
           for (size_t i = blockStart; i <= blockEnd; i++) {
@@ -268,7 +273,7 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
           }
         }
       }
-      res /= (blockEnd - blockStart + 1);
+      res /= numValues;
 
       (*result)(resultRow, a._outCol) = 0;
       std::memcpy(&(*result)(resultRow, a._outCol), &res, sizeof(float));
@@ -279,6 +284,10 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
         size_t count = 0;
         for (size_t i = blockStart; i <= blockEnd; i++) {
           checkTimeoutHashSet();
+          // Unbound values are not counted.
+          if (input(i, a._inCol) == ID_NO_VALUE) {
+            continue;
+          }
           const auto it = distinctHashSet.find(input(i, a._inCol));
           if (it == distinctHashSet.end()) {
             count++;
@@ -288,176 +297,75 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
         (*result)(resultRow, a._outCol) = count;
         distinctHashSet.clear();
       } else {
-        (*result)(resultRow, a._outCol) = blockEnd - blockStart + 1;
+        size_t count = 0;
+        for (size_t i = blockStart; i <= blockEnd; i++) {
+          checkTimeoutAfterNCalls();
+          // Unbound values are not counted.
+          if (input(i, a._inCol) != ID_NO_VALUE) {
+            count++;
+          }
+        }
+        (*result)(resultRow, a._outCol) = count;
       }
       break;
     case ParsedQuery::AggregateType::GROUP_CONCAT: {
       std::ostringstream out;
       std::string* delim = reinterpret_cast<string*>(a._userData);
-      if (inputTypes[a._inCol] == ResultTable::ResultType::VERBATIM) {
-        if (a._distinct) {
-          for (size_t i = blockStart; i + 1 <= blockEnd; i++) {
-            checkTimeoutHashSet();
-            const auto it = distinctHashSet.find(input(i, a._inCol));
-            if (it == distinctHashSet.end()) {
-              distinctHashSet.insert(input(i, a._inCol));
-              out << input(i, a._inCol) << *delim;
-            }
-          }
-          const auto it = distinctHashSet.find(input(blockEnd, a._inCol));
-          if (it == distinctHashSet.end()) {
-            out << input(blockEnd, a._inCol) << *delim;
-          }
-          distinctHashSet.clear();
-        } else {
-          for (size_t i = blockStart; i + 1 <= blockEnd; i++) {
-            checkTimeoutAfterNCalls();
-            out << input(i, a._inCol) << *delim;
-          }
-          out << input(blockEnd, a._inCol);
-        }
-      } else if (inputTypes[a._inCol] == ResultTable::ResultType::FLOAT) {
-        float f;
-        if (a._distinct) {
-          for (size_t i = blockStart; i + 1 <= blockEnd; i++) {
-            checkTimeoutHashSet();
-            const auto it = distinctHashSet.find(input(i, a._inCol));
-            if (it == distinctHashSet.end()) {
-              distinctHashSet.insert(input(i, a._inCol));
-              std::memcpy(&f, &input(i, a._inCol), sizeof(float));
-              out << f << *delim;
-            }
-          }
-          const auto it = distinctHashSet.find(input(blockEnd, a._inCol));
-          if (it == distinctHashSet.end()) {
-            std::memcpy(&f, &input(blockEnd, a._inCol), sizeof(float));
-            out << f;
-          }
-          distinctHashSet.clear();
-        } else {
-          for (size_t i = blockStart; i + 1 <= blockEnd; i++) {
-            checkTimeoutAfterNCalls();
-            std::memcpy(&f, &input(i, a._inCol), sizeof(float));
-            out << f << *delim;
-          }
-          std::memcpy(&f, &input(blockEnd, a._inCol), sizeof(float));
+      // Writes the value of a single row of the group.
+      auto writeValue = [&](size_t i) {
+        if (inputTypes[a._inCol] == ResultTable::ResultType::VERBATIM) {
+          out << input(i, a._inCol);
+        } else if (inputTypes[a._inCol] == ResultTable::ResultType::FLOAT) {
+          float f;
+          std::memcpy(&f, &input(i, a._inCol), sizeof(float));
           out << f;
-        }
-      } else if (inputTypes[a._inCol] == ResultTable::ResultType::TEXT) {
-        if (a._distinct) {
-          for (size_t i = blockStart; i + 1 <= blockEnd; i++) {
-            checkTimeoutHashSet();
-            const auto it = distinctHashSet.find(input(i, a._inCol));
-            if (it == distinctHashSet.end()) {
-              distinctHashSet.insert(input(i, a._inCol));
-              out << index.getTextExcerpt(input(i, a._inCol)) << *delim;
-            }
-          }
-          const auto it = distinctHashSet.find(input(blockEnd, a._inCol));
-          if (it == distinctHashSet.end()) {
-            out << index.getTextExcerpt(input(blockEnd, a._inCol));
-          }
-          distinctHashSet.clear();
-        } else {
-          for (size_t i = blockStart; i + 1 <= blockEnd; i++) {
-            checkTimeoutAfterNCalls();
-            out << index.getTextExcerpt(input(i, a._inCol)) << *delim;
-          }
-          out << index.getTextExcerpt(input(blockEnd, a._inCol));
-        }
-      } else if (inputTypes[a._inCol] == ResultTable::ResultType::LOCAL_VOCAB) {
-        if (a._distinct) {
-          for (size_t i = blockStart; i + 1 <= blockEnd; i++) {
-            checkTimeoutHashSet();
-            const auto it = distinctHashSet.find(input(i, a._inCol));
-            if (it == distinctHashSet.end()) {
-              distinctHashSet.insert(input(i, a._inCol));
-              // TODO(schnelle): What's the correct way to handle OPTIONAL here
-              out << inTable->idToOptionalString(input(i, a._inCol))
-                         .value_or("")
-                  << *delim;
-            }
-          }
-          const auto it = distinctHashSet.find(input(blockEnd, a._inCol));
-          if (it == distinctHashSet.end()) {
-            // TODO(schnelle): What's the correct way to handle OPTIONAL here
-            out << inTable->idToOptionalString(input(blockEnd, a._inCol))
-                       .value_or("");
-          }
-          distinctHashSet.clear();
-        } else {
-          for (size_t i = blockStart; i + 1 <= blockEnd; i++) {
-            checkTimeoutAfterNCalls();
-            // TODO(schnelle): What's the correct way to handle OPTIONAL here
-            out << inTable->idToOptionalString(input(i, a._inCol)).value_or("")
-                << *delim;
-          }
-          out << inTable->idToOptionalString(input(blockEnd, a._inCol))
-                     .value_or("");
-        }
-      } else {
-        if (a._distinct) {
-          for (size_t i = blockStart; i + 1 <= blockEnd; i++) {
-            checkTimeoutHashSet();
-            const auto it = distinctHashSet.find(input(i, a._inCol));
-            if (it == distinctHashSet.end()) {
-              distinctHashSet.insert(input(i, a._inCol));
-              // TODO(schnelle): What's the correct way to handle OPTIONAL here
-              std::string entity =
-                  index.idToOptionalString(input(i, a._inCol)).value_or("");
-              if (ad_utility::startsWith(entity, VALUE_PREFIX)) {
-                out << ad_utility::convertIndexWordToValueLiteral(entity)
-                    << *delim;
-              } else {
-                out << entity << *delim;
-              }
-            }
-          }
-          const auto it = distinctHashSet.find(input(blockEnd, a._inCol));
-          if (it == distinctHashSet.end()) {
-            // TODO(schnelle): What's the correct way to handle OPTIONAL here
-            std::string entity =
-                index.idToOptionalString(input(blockEnd, a._inCol))
-                    .value_or("");
-            if (ad_utility::startsWith(entity, VALUE_PREFIX)) {
-              out << ad_utility::convertIndexWordToValueLiteral(entity);
-            } else {
-              out << entity;
-            }
-          }
-          distinctHashSet.clear();
+        } else if (inputTypes[a._inCol] == ResultTable::ResultType::TEXT) {
+          out << index.getTextExcerpt(input(i, a._inCol));
+        } else if (inputTypes[a._inCol] ==
+                   ResultTable::ResultType::LOCAL_VOCAB) {
+          // TODO(schnelle): What's the correct way to handle OPTIONAL here
+          out << inTable->idToOptionalString(input(i, a._inCol)).value_or("");
         } else {
-          for (size_t i = blockStart; i + 1 <= blockEnd; i++) {
-            checkTimeoutAfterNCalls();
-            // TODO(schnelle): What's the correct way to handle OPTIONAL here
-            std::string entity =
-                index.idToOptionalString(input(i, a._inCol)).value_or("");
-            if (ad_utility::startsWith(entity, VALUE_PREFIX)) {
-              out << ad_utility::convertIndexWordToValueLiteral(entity)
-                  << *delim;
-            } else {
-              out << entity << *delim;
-            }
-          }
           // TODO(schnelle): What's the correct way to handle OPTIONAL here
           std::string entity =
-              index.idToOptionalString(input(blockEnd, a._inCol)).value_or("");
+              index.idToOptionalString(input(i, a._inCol)).value_or("");
           if (ad_utility::startsWith(entity, VALUE_PREFIX)) {
             out << ad_utility::convertIndexWordToValueLiteral(entity);
           } else {
             out << entity;
           }
         }
+      };
+      bool isFirst = true;
+      for (size_t i = blockStart; i <= blockEnd; i++) {
+        if (a._distinct) {
+          checkTimeoutHashSet();
+          if (!distinctHashSet.insert(input(i, a._inCol)).second) {
+            continue;
+          }
+        } else {
+          checkTimeoutAfterNCalls();
+        }
+        if (!isFirst) {
+          out << *delim;
+        }
+        isFirst = false;
+        writeValue(i);
       }
+      distinctHashSet.clear();
       (*result)(resultRow, a._outCol) = outTable->_localVocab->size();
       outTable->_localVocab->push_back(out.str());
       break;
     }
     case ParsedQuery::AggregateType::MAX: {
       if (inputTypes[a._inCol] == ResultTable::ResultType::VERBATIM) {
-        Id res = std::numeric_limits<Id>::lowest();
+        Id res = ID_NO_VALUE;
         for (size_t i = blockStart; i <= blockEnd; i++) {
-          res = std::max(res, input(i, a._inCol));
+          // Unbound values have the largest id, but are not the maximum.
+          const Id value = input(i, a._inCol);
+          if (value != ID_NO_VALUE && (res == ID_NO_VALUE || value > res)) {
+            res = value;
+          }
         }
         (*result)(resultRow, a._outCol) = res;
       } else if (inputTypes[a._inCol] == ResultTable::ResultType::FLOAT) {
@@ -475,9 +383,13 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
                  inputTypes[a._inCol] == ResultTable::ResultType::LOCAL_VOCAB) {
         (*result)(resultRow, a._outCol) = ID_NO_VALUE;
       } else {
-        Id res = std::numeric_limits<Id>::lowest();
+        Id res = ID_NO_VALUE;
         for (size_t i = blockStart; i <= blockEnd; i++) {
-          res = std::max(res, input(i, a._inCol));
+          // Unbound values have the largest id, but are not the maximum.
+          const Id value = input(i, a._inCol);
+          if (value != ID_NO_VALUE && (res == ID_NO_VALUE || value > res)) {
+            res = value;
+          }
         }
         (*result)(resultRow, a._outCol) = res;
       }
@@ -627,7 +539,7 @@ void GroupBy::doGroupBy(const IdTable& dynInput,
   if (groupByCols.empty()) {
     // The entire input is a single group
     size_t blockStart = 0;
-    size_t blockEnd = input.size();
+    size_t blockEnd = input.size() - 1;
 
     result.emplace_back();
     size_t resIdx = result.size() - 1;
-- 
2.43.0


From 20780b397e4deaed4164c1de2fe296369f4765ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:53:41 +0000
Subject: [PATCH 18/55] fix: keep generated strings when a result is joined
 with another one

---
 src/engine/GroupBy.cpp          |  3 +++
 src/engine/HasPredicateScan.cpp |  1 +
 src/engine/Join.cpp             |  3 +++
 src/engine/Minus.cpp            |  1 +
 src/engine/MultiColumnJoin.cpp  |  1 +
 src/engine/OptionalJoin.cpp     |  1 +
 src/engine/ResultTable.cpp      | 14 ++++++++++++++
 src/engine/ResultTable.h        |  6 ++++++
 src/engine/TransitivePath.cpp   |  2 ++
 src/engine/TwoColumnJoin.cpp    |  1 +
 src/engine/Union.cpp            |  1 +
 11 files changed, 34 insertions(+)

diff --git a/src/engine/GroupBy.cpp b/src/engine/GroupBy.cpp
index e7dedd7..5debb99 100644
--- a/src/engine/GroupBy.cpp
+++ b/src/engine/GroupBy.cpp
@@ -658,6 +658,9 @@ void GroupBy::computeResult(ResultTable* result) {
   RuntimeInformation& runtimeInfo = getRuntimeInfo();
   runtimeInfo.addChild(_subtree->getRootOperation()->getRuntimeInfo());
 
+  // The grouped columns may contain entries from the local vocabulary.
+  *result->_localVocab = *subresult->_localVocab;
+
   // populate the result type vector
   result->_resultTypes.resize(result->_data.cols());
   for (size_t i = 0; i < result->_data.cols(); i++) {
diff --git a/src/engine/HasPredicateScan.cpp b/src/engine/HasPredicateScan.cpp
index 61db606..1b8d5af 100644
--- a/src/engine/HasPredicateScan.cpp
+++ b/src/engine/HasPredicateScan.cpp
@@ -247,6 +247,7 @@ void HasPredicateScan::computeResult(ResultTable* result) {
                                   subresult->_resultTypes.begin(),
                                   subresult->_resultTypes.end());
       result->_resultTypes.push_back(ResultTable::ResultType::KB);
+      result->_localVocab = subresult->_localVocab;
       int inWidth = subresult->_data.cols();
       int outWidth = result->_data.cols();
       CALL_FIXED_SIZE_2(inWidth, outWidth, HasPredicateScan::computeSubqueryS,
diff --git a/src/engine/Join.cpp b/src/engine/Join.cpp
index 5fcd2b9..fc3fd66 100644
--- a/src/engine/Join.cpp
+++ b/src/engine/Join.cpp
@@ -122,6 +122,7 @@ void Join::computeResult(ResultTable* result) {
     }
   }
   result->_sortedBy = {_leftJoinCol};
+  result->setLocalVocabFromInputs(*leftRes, *rightRes);
 
   int lwidth = leftRes->_data.cols();
   int rwidth = rightRes->_data.cols();
@@ -252,6 +253,7 @@ void Join::computeResultForJoinWithFullScanDummy(ResultTable* result) const {
     result->_resultTypes.insert(result->_resultTypes.end(),
                                 nonDummyRes->_resultTypes.begin(),
                                 nonDummyRes->_resultTypes.end());
+    result->_localVocab = nonDummyRes->_localVocab;
     doComputeJoinWithFullScanDummyLeft(nonDummyRes->_data, &result->_data);
   } else {
     AD_CHECK(!isFullScanDummy(_left))
@@ -265,6 +267,7 @@ void Join::computeResultForJoinWithFullScanDummy(ResultTable* result) const {
                                 nonDummyRes->_resultTypes.end());
     result->_resultTypes.push_back(ResultTable::ResultType::KB);
     result->_resultTypes.push_back(ResultTable::ResultType::KB);
+    result->_localVocab = nonDummyRes->_localVocab;
 
     doComputeJoinWithFullScanDummyRight(nonDummyRes->_data, &result->_data);
   }
diff --git a/src/engine/Minus.cpp b/src/engine/Minus.cpp
index 20f4a7e..636b941 100644
--- a/src/engine/Minus.cpp
+++ b/src/engine/Minus.cpp
@@ -66,6 +66,7 @@ void Minus::computeResult(ResultTable* result) {
   // We have the same output columns as the left input, so we also
   // have the same output column types.
   result->_resultTypes = leftResult->_resultTypes;
+  result->_localVocab = leftResult->_localVocab;
 
   LOG(DEBUG) << "Computing minus of results of size " << leftResult->size()
              << " and " << rightResult->size() << endl;
diff --git a/src/engine/MultiColumnJoin.cpp b/src/engine/MultiColumnJoin.cpp
index 4d4de49..c027c7f 100644
--- a/src/engine/MultiColumnJoin.cpp
+++ b/src/engine/MultiColumnJoin.cpp
@@ -105,6 +105,7 @@ void MultiColumnJoin::computeResult(ResultTable* result) {
       result->_resultTypes.push_back(rightResult->_resultTypes[col]);
     }
   }
+  result->setLocalVocabFromInputs(*leftResult, *rightResult);
 
   LOG(DEBUG) << "Computing a multi column join between results of size "
              << leftResult->size() << " and " << rightResult->size() << endl;
diff --git a/src/engine/OptionalJoin.cpp b/src/engine/OptionalJoin.cpp
index 7255480..f8a8dec 100644
--- a/src/engine/OptionalJoin.cpp
+++ b/src/engine/OptionalJoin.cpp
@@ -115,6 +115,7 @@ void OptionalJoin::computeResult(ResultTable* result) {
       result->_resultTypes.push_back(rightResult->_resultTypes[col]);
     }
   }
+  result->setLocalVocabFromInputs(*leftResult, *rightResult);
 
   LOG(DEBUG) << "Computing optional join between results of size "
              << leftResult->size() << " and " << rightResult->size() << endl;
diff --git a/src/engine/ResultTable.cpp b/src/engine/ResultTable.cpp
index b7b482e..31368d4 100644
--- a/src/engine/ResultTable.cpp
+++ b/src/engine/ResultTable.cpp
@@ -4,6 +4,7 @@
 
 #include "./ResultTable.h"
 #include <cassert>
+#include "../util/Exception.h"
 
 // _____________________________________________________________________________
 ResultTable::ResultTable(ad_utility::AllocatorWithLimit<Id> allocator)
@@ -34,5 +35,18 @@ string ResultTable::asDebugString() const {
   return os.str();
 }
 
+// _____________________________________________________________________________
+void ResultTable::setLocalVocabFromInputs(const ResultTable& left,
+                                          const ResultTable& right) {
+  if (!left._localVocab->empty() && !right._localVocab->empty() &&
+      left._localVocab != right._localVocab) {
+    AD_THROW(ad_semsearch::Exception::NOT_YET_IMPLEMENTED,
+             "Combining two results which both contain generated strings (e.g. "
+             "from GROUP_CONCAT) is not supported.");
+  }
+  _localVocab =
+      left._localVocab->empty() ? right._localVocab : left._localVocab;
+}
+
 // _____________________________________________________________________________
 size_t ResultTable::size() const { return _data.size(); }
diff --git a/src/engine/ResultTable.h b/src/engine/ResultTable.h
index 676708b..b657ce3 100644
--- a/src/engine/ResultTable.h
+++ b/src/engine/ResultTable.h
@@ -93,6 +93,12 @@ class ResultTable {
 
   string asDebugString() const;
 
+  // Take over the `_localVocab` of the inputs of an operation which copies
+  // columns of those inputs to its result. At most one of the inputs may have
+  // local entries.
+  void setLocalVocabFromInputs(const ResultTable& left,
+                               const ResultTable& right);
+
   ResultType getResultType(size_t col) const {
     if (col < _resultTypes.size()) {
       return _resultTypes[col];
diff --git a/src/engine/TransitivePath.cpp b/src/engine/TransitivePath.cpp
index 7d87f68..033f261 100644
--- a/src/engine/TransitivePath.cpp
+++ b/src/engine/TransitivePath.cpp
@@ -693,6 +693,7 @@ void TransitivePath::computeResult(ResultTable* result) {
         result->_resultTypes.push_back(leftRes->getResultType(c));
       }
     }
+    result->_localVocab = leftRes->_localVocab;
     runtimeInfo.addChild(_leftSideTree->getRootOperation()->getRuntimeInfo());
     int leftWidth = leftRes->_data.cols();
     CALL_FIXED_SIZE_3(subWidth, leftWidth, _resultWidth,
@@ -707,6 +708,7 @@ void TransitivePath::computeResult(ResultTable* result) {
         result->_resultTypes.push_back(rightRes->getResultType(c));
       }
     }
+    result->_localVocab = rightRes->_localVocab;
     runtimeInfo.addChild(_rightSideTree->getRootOperation()->getRuntimeInfo());
     int rightWidth = rightRes->_data.cols();
     CALL_FIXED_SIZE_3(subWidth, rightWidth, _resultWidth,
diff --git a/src/engine/TwoColumnJoin.cpp b/src/engine/TwoColumnJoin.cpp
index 1943150..d7f01e7 100644
--- a/src/engine/TwoColumnJoin.cpp
+++ b/src/engine/TwoColumnJoin.cpp
@@ -113,6 +113,7 @@ void TwoColumnJoin::computeResult(ResultTable* result) {
     result->_resultTypes.insert(result->_resultTypes.end(),
                                 toFilter->_resultTypes.begin(),
                                 toFilter->_resultTypes.end());
+    result->_localVocab = toFilter->_localVocab;
     AD_CHECK_GE(result->_data.cols(), 2);
 
     int inWidth = toFilter->_data.cols();
diff --git a/src/engine/Union.cpp b/src/engine/Union.cpp
index 48f9bdf..e891f5d 100644
--- a/src/engine/Union.cpp
+++ b/src/engine/Union.cpp
@@ -147,6 +147,7 @@ void Union::computeResult(ResultTable* result) {
   runtimeInfo.addChild(_subtrees[1]->getRootOperation()->getRuntimeInfo());
 
   result->_sortedBy = resultSortedOn();
+  result->setLocalVocabFromInputs(*subRes1, *subRes2);
   for (const std::array<size_t, 2>& o : _columnOrigins) {
     if (o[0] != NO_COLUMN) {
       result->_resultTypes.push_back(subRes1->getResultType(o[0]));
-- 
2.43.0


From 4de508e2d112a3a4926ab4b08a379f2de84535e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:03:14 +0000
Subject: [PATCH 19/55] fix: hide variables of a subquery that are not selected

---
 src/engine/QueryPlanner.cpp     | 9 +++++++++
 src/engine/RuntimeInformation.h | 4 ++++
 src/engine/Union.cpp            | 9 +++++++--
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index 4d0cda2..d54d213 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -320,6 +320,15 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::optimize(
         SubtreePlan plan(_qec);
         plan._qet = std::make_shared<QueryExecutionTree>(
             createExecutionTree(arg._subquery));
+        // Only the selected variables of a subquery are visible outside of it.
+        ad_utility::HashMap<string, size_t> visibleColumns;
+        for (const auto& var : arg._subquery._selectedVariables) {
+          auto it = plan._qet->getVariableColumns().find(var);
+          if (it != plan._qet->getVariableColumns().end()) {
+            visibleColumns.insert(*it);
+          }
+        }
+        plan._qet->setVariableColumns(visibleColumns);
         joinCandidates(std::vector{std::move(plan)});
       } else if constexpr (std::is_same_v<T,
                                           GraphPatternOperation::TransPath>) {
diff --git a/src/engine/RuntimeInformation.h b/src/engine/RuntimeInformation.h
index c29e26c..4a59750 100644
--- a/src/engine/RuntimeInformation.h
+++ b/src/engine/RuntimeInformation.h
@@ -93,6 +93,10 @@ class RuntimeInformation {
       const ad_utility::HashMap<std::string, size_t>& columnMap) {
     _columnNames.resize(columnMap.size());
     for (const auto& column : columnMap) {
+      // Some columns might not have a name.
+      if (column.second >= _columnNames.size()) {
+        _columnNames.resize(column.second + 1);
+      }
       _columnNames[column.second] = column.first;
     }
   }
diff --git a/src/engine/Union.cpp b/src/engine/Union.cpp
index e891f5d..d2da0f9 100644
--- a/src/engine/Union.cpp
+++ b/src/engine/Union.cpp
@@ -16,7 +16,11 @@ Union::Union(QueryExecutionContext* qec,
 
   // compute the column origins
   ad_utility::HashMap<string, size_t> variableColumns = getVariableColumns();
-  _columnOrigins.resize(variableColumns.size(), {NO_COLUMN, NO_COLUMN});
+  size_t width = t1->getResultWidth();
+  for (const auto& it : variableColumns) {
+    width = std::max(width, it.second + 1);
+  }
+  _columnOrigins.resize(width, {NO_COLUMN, NO_COLUMN});
   const auto& t1VarCols = t1->getVariableColumns();
   const auto& t2VarCols = t2->getVariableColumns();
   for (auto it : variableColumns) {
@@ -75,7 +79,8 @@ ad_utility::HashMap<string, size_t> Union::getVariableColumns() const {
   ad_utility::HashMap<string, size_t> variableColumns(
       _subtrees[0]->getVariableColumns());
 
-  size_t column = variableColumns.size();
+  // Not every column of the left subtree has to belong to a variable.
+  size_t column = _subtrees[0]->getResultWidth();
   for (auto it : _subtrees[1]->getVariableColumns()) {
     if (variableColumns.find(it.first) == variableColumns.end()) {
       variableColumns[it.first] = column;
-- 
2.43.0


From 67f9609c985ea4da3ed44862244b4d41f5720c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:17:46 +0000
Subject: [PATCH 20/55] fix: compute transitive paths with distance limits and
 payload columns correctly

Search breadth first, so that a node first seen via a long path does not
hide the nodes behind it.  Take the other columns of a bound side from the
current row.  Do not reuse the sort order and the number of columns of the
unbound operation.
---
 src/engine/TransitivePath.cpp | 346 ++++++++++------------------------
 1 file changed, 102 insertions(+), 244 deletions(-)

diff --git a/src/engine/TransitivePath.cpp b/src/engine/TransitivePath.cpp
index 033f261..52a9f8e 100644
--- a/src/engine/TransitivePath.cpp
+++ b/src/engine/TransitivePath.cpp
@@ -10,6 +10,47 @@
 #include "CallFixedSize.h"
 #include "IndexScan.h"
 
+namespace {
+// Call `action` once for every node which can be reached from `root` by
+// following at least `minDist` and at most `maxDist` edges. The search is
+// breadth first, because in a depth first search the nodes behind a node that
+// is first found via a long path might wrongly be considered too far away.
+template <typename Edges, typename Action>
+void forEachReachableNode(const Edges& edges, Id root, size_t minDist,
+                          size_t maxDist, Action action) {
+  if (minDist == 0) {
+    AD_THROW(ad_semsearch::Exception::NOT_YET_IMPLEMENTED,
+             "The TransitivePath operation does not support a minimum "
+             "distance of 0 (use at least one instead).");
+  }
+  // The nodes for which `action` was already called.
+  ad_utility::HashSet<Id> marks;
+  // The nodes from which the search continues.
+  std::vector<Id> current{root};
+  for (size_t dist = 1; dist <= maxDist && !current.empty(); ++dist) {
+    std::vector<Id> next;
+    ad_utility::HashSet<Id> seen;
+    for (Id node : current) {
+      auto it = edges.find(node);
+      if (it == edges.end()) {
+        continue;
+      }
+      for (Id child : *it->second) {
+        if (dist < minDist) {
+          if (seen.insert(child).second) {
+            next.push_back(child);
+          }
+        } else if (marks.insert(child).second) {
+          action(child);
+          next.push_back(child);
+        }
+      }
+    }
+    current = std::move(next);
+  }
+}
+}  // namespace
+
 // _____________________________________________________________________________
 TransitivePath::TransitivePath(
     QueryExecutionContext* qec, std::shared_ptr<QueryExecutionTree> child,
@@ -319,72 +360,14 @@ void TransitivePath::computeTransitivePath(IdTable* dynRes,
     }
   }
 
-  // For every node do a dfs on the graph
-
-  // Stores nodes we already have a path to. This avoids cycles.
-  ad_utility::HashSet<Id> marks;
-
-  // The stack used to store the dfs' progress
-  std::vector<ad_utility::HashSet<Id>::const_iterator> positions;
-
-  // Used to store all edges leading away from a node for every level.
-  // Reduces access to the hashmap, and is safe as the map will not
-  // be modified after this point.
-  std::vector<std::shared_ptr<const ad_utility::HashSet<Id>>> edgeCache;
-
-  for (size_t i = 0; i < nodes.size(); i++) {
-    MapIt rootEdges = edges.find(nodes[i]);
-    if (rootEdges != edges.end()) {
-      positions.push_back(rootEdges->second->begin());
-      edgeCache.push_back(rootEdges->second);
-    }
-    if (minDist == 0) {
-      AD_THROW(ad_semsearch::Exception::NOT_YET_IMPLEMENTED,
-               "The TransitivePath operation does not support a minimum "
-               "distance of 0 (use at least one instead).");
-    }
-
-    // While we have not found the entire transitive hull and have not reached
-    // the max step limit
-    while (!positions.empty()) {
-      size_t stackIndex = positions.size() - 1;
-      // Process the next child of the node at the top of the stack
-      ad_utility::HashSet<Id>::const_iterator& pos = positions[stackIndex];
-      const ad_utility::HashSet<Id>* nodeEdges = edgeCache.back().get();
-
-      if (pos == nodeEdges->end()) {
-        // We finished processing this node
-        positions.pop_back();
-        edgeCache.pop_back();
-        continue;
-      }
-
-      size_t child = *pos;
-      ++pos;
-      size_t childDepth = positions.size();
-      if (childDepth <= maxDist && marks.count(child) == 0) {
-        // process the child
-        if (childDepth >= minDist) {
-          marks.insert(child);
-          if constexpr (rightIsVar) {
-            res.push_back({nodes[i], child});
-          } else {
-            res.push_back({child, nodes[i]});
-          }
-        }
-        // Add the child to the stack
-        MapIt it = edges.find(child);
-        if (it != edges.end()) {
-          positions.push_back(it->second->begin());
-          edgeCache.push_back(it->second);
-        }
+  for (Id node : nodes) {
+    forEachReachableNode(edges, node, minDist, maxDist, [&res, node](Id other) {
+      if constexpr (rightIsVar) {
+        res.push_back({node, other});
+      } else {
+        res.push_back({other, node});
       }
-    }
-
-    if (i + 1 < nodes.size()) {
-      // reset everything for the next iteration
-      marks.clear();
-    }
+    });
   }
 
   *dynRes = res.moveToDynamic();
@@ -426,100 +409,34 @@ void TransitivePath::computeTransitivePathLeftBound(
     }
   }
 
-  // For every node do a dfs on the graph
-
-  // Stores nodes we already have a path to. This avoids cycles.
-  ad_utility::HashSet<Id> marks;
-
-  // The stack used to store the dfs' progress
-  std::vector<ad_utility::HashSet<Id>::const_iterator> positions;
-  // Used to store all edges leading away from a node for every level.
-  // Reduces access to the hashmap, and is safe as the map will not
-  // be modified after this point.
-  std::vector<std::shared_ptr<const ad_utility::HashSet<Id>>> edgeCache;
-
   size_t last_elem = std::numeric_limits<size_t>::max();
-  size_t last_result_begin = 0;
-  size_t last_result_end = 0;
+  // All nodes that are connected to last_elem and match the other side.
+  std::vector<Id> connected;
   for (size_t i = 0; i < left.size(); i++) {
     checkTimeoutHashSet();
-    if (left[i][leftSideCol] == last_elem) {
-      // We can repeat the last output
-      size_t num_new = last_result_end - last_result_begin;
-      size_t res_row = res.size();
-      res.resize(res.size() + num_new);
-      checkTimeoutAfterNCalls(num_new * resWidth);
-      for (size_t j = 0; j < num_new; j++) {
-        for (size_t c = 0; c < resWidth; c++) {
-          res(res_row + j, c) = res(last_result_begin + j, c);
+    if (left(i, leftSideCol) != last_elem) {
+      last_elem = left(i, leftSideCol);
+      connected.clear();
+      forEachReachableNode(edges, last_elem, minDist, maxDist, [&](Id node) {
+        if (rightIsVar || node == rightValue) {
+          connected.push_back(node);
         }
-      }
-      continue;
-    }
-    last_elem = left[i][leftSideCol];
-    last_result_begin = res.size();
-    MapIt rootEdges = edges.find(last_elem);
-    if (rootEdges != edges.end()) {
-      positions.push_back(rootEdges->second->begin());
-      edgeCache.push_back(rootEdges->second);
+      });
     }
-    if (minDist == 0) {
-      AD_THROW(ad_semsearch::Exception::NOT_YET_IMPLEMENTED,
-               "The TransitivePath operation does not support a minimum "
-               "distance of 0 (use at least one instead).");
-    }
-
-    // While we have not found the entire transitive hull and have not reached
-    // the max step limit
-    while (!positions.empty()) {
-      size_t stackIndex = positions.size() - 1;
-      // Process the next child of the node at the top of the stack
-      ad_utility::HashSet<Id>::const_iterator& pos = positions[stackIndex];
-      const ad_utility::HashSet<Id>* nodeEdges = edgeCache.back().get();
-
-      if (pos == nodeEdges->end()) {
-        // We finished processing this node
-        positions.pop_back();
-        edgeCache.pop_back();
-        continue;
-      }
-
-      size_t child = *pos;
-      ++pos;
-      size_t childDepth = positions.size();
-      if (childDepth <= maxDist && marks.count(child) == 0) {
-        // process the child
-        if (childDepth >= minDist) {
-          marks.insert(child);
-          if (rightIsVar || child == rightValue) {
-            size_t row = res.size();
-            res.emplace_back();
-            res(row, 0) = last_elem;
-            res(row, 1) = child;
-            for (size_t k = 2; k < resWidth + 1; k++) {
-              if (k - 2 < leftSideCol) {
-                res(row, k) = left(i, k - 2);
-              } else if (k - 2 > leftSideCol) {
-                res(row, k - 1) = left(i, k - 2);
-              }
-            }
-          }
-        }
-        // Add the child to the stack
-        MapIt it = edges.find(child);
-        if (it != edges.end()) {
-          positions.push_back(it->second->begin());
-          edgeCache.push_back(it->second);
+    checkTimeoutAfterNCalls(connected.size() * resWidth);
+    for (Id node : connected) {
+      size_t row = res.size();
+      res.emplace_back();
+      res(row, 0) = last_elem;
+      res(row, 1) = node;
+      for (size_t k = 2; k < resWidth + 1; k++) {
+        if (k - 2 < leftSideCol) {
+          res(row, k) = left(i, k - 2);
+        } else if (k - 2 > leftSideCol) {
+          res(row, k - 1) = left(i, k - 2);
         }
       }
     }
-
-    if (i + 1 < left.size()) {
-      // reset everything for the next iteration
-      marks.clear();
-    }
-
-    last_result_end = res.size();
   }
 
   *dynRes = res.moveToDynamic();
@@ -563,101 +480,34 @@ void TransitivePath::computeTransitivePathRightBound(
     }
   }
 
-  // For every node do a dfs on the graph
-
-  // Stores nodes we already have a path to. This avoids cycles.
-  ad_utility::HashSet<Id> marks;
-
-  // The stack used to store the dfs' progress
-  std::vector<ad_utility::HashSet<Id>::const_iterator> positions;
-
-  // Used to store all edges leading away from a node for every level.
-  // Reduces access to the hashmap, and is safe as the map will not
-  // be modified after this point.
-  std::vector<std::shared_ptr<const ad_utility::HashSet<Id>>> edgeCache;
-
   size_t last_elem = std::numeric_limits<size_t>::max();
-  size_t last_result_begin = 0;
-  size_t last_result_end = 0;
+  // All nodes that are connected to last_elem and match the other side.
+  std::vector<Id> connected;
   for (size_t i = 0; i < right.size(); i++) {
     checkTimeoutHashSet();
-    if (right[i][rightSideCol] == last_elem) {
-      // We can repeat the last output
-      size_t num_new = last_result_end - last_result_begin;
-      size_t res_row = res.size();
-      res.resize(res.size() + num_new);
-      for (size_t j = 0; j < num_new; j++) {
-        for (size_t c = 0; c < resWidth; c++) {
-          res(res_row + j, c) = res(last_result_begin + j, c);
+    if (right(i, rightSideCol) != last_elem) {
+      last_elem = right(i, rightSideCol);
+      connected.clear();
+      forEachReachableNode(edges, last_elem, minDist, maxDist, [&](Id node) {
+        if (leftIsVar || node == leftValue) {
+          connected.push_back(node);
         }
-      }
-      checkTimeoutAfterNCalls(num_new * resWidth);
-      continue;
+      });
     }
-    last_elem = right(i, rightSideCol);
-    last_result_begin = res.size();
-    MapIt rootEdges = edges.find(last_elem);
-    if (rootEdges != edges.end()) {
-      positions.push_back(rootEdges->second->begin());
-      edgeCache.push_back(rootEdges->second);
-    }
-    if (minDist == 0) {
-      AD_THROW(ad_semsearch::Exception::NOT_YET_IMPLEMENTED,
-               "The TransitivePath operation does not support a minimum "
-               "distance of 0 (use at least one instead).");
-    }
-
-    // While we have not found the entire transitive hull and have not reached
-    // the max step limit
-    while (!positions.empty()) {
-      size_t stackIndex = positions.size() - 1;
-      // Process the next child of the node at the top of the stack
-      ad_utility::HashSet<Id>::const_iterator& pos = positions[stackIndex];
-      const ad_utility::HashSet<Id>* nodeEdges = edgeCache.back().get();
-
-      if (pos == nodeEdges->end()) {
-        // We finished processing this node
-        positions.pop_back();
-        edgeCache.pop_back();
-        continue;
-      }
-
-      size_t child = *pos;
-      ++pos;
-      size_t childDepth = positions.size();
-      if (childDepth <= maxDist && marks.count(child) == 0) {
-        // process the child
-        if (childDepth >= minDist) {
-          marks.insert(child);
-          if (leftIsVar || child == leftValue) {
-            size_t row = res.size();
-            res.emplace_back();
-            res(row, 0) = child;
-            res(row, 1) = last_elem;
-            for (size_t k = 2; k < resWidth + 1; k++) {
-              if (k - 2 < rightSideCol) {
-                res(row, k) = right(i, k - 2);
-              } else if (k - 2 > rightSideCol) {
-                res(row, k - 1) = right(i, k - 2);
-              }
-            }
-          }
-        }
-        // Add the child to the stack
-        MapIt it = edges.find(child);
-        if (it != edges.end()) {
-          positions.push_back(it->second->begin());
-          edgeCache.push_back(it->second);
+    checkTimeoutAfterNCalls(connected.size() * resWidth);
+    for (Id node : connected) {
+      size_t row = res.size();
+      res.emplace_back();
+      res(row, 0) = node;
+      res(row, 1) = last_elem;
+      for (size_t k = 2; k < resWidth + 1; k++) {
+        if (k - 2 < rightSideCol) {
+          res(row, k) = right(i, k - 2);
+        } else if (k - 2 > rightSideCol) {
+          res(row, k - 1) = right(i, k - 2);
         }
       }
     }
-
-    if (i + 1 < right.size()) {
-      // reset everything for the next iteration
-      marks.clear();
-    }
-
-    last_result_end = res.size();
   }
 
   *dynRes = res.moveToDynamic();
@@ -729,10 +579,15 @@ void TransitivePath::computeResult(ResultTable* result) {
 // _____________________________________________________________________________
 std::shared_ptr<TransitivePath> TransitivePath::bindLeftSide(
     std::shared_ptr<QueryExecutionTree> leftop, size_t inputCol) const {
-  // Create a copy of this
-  std::shared_ptr<TransitivePath> p = std::make_shared<TransitivePath>(*this);
+  // Do not copy `this`, because the order of the result is different for the
+  // new operation, but might already have been computed for this one.
+  auto p = std::make_shared<TransitivePath>(
+      _executionContext, _subtree, _leftIsVar, _rightIsVar, _leftSubCol,
+      _rightSubCol, _leftValue, _rightValue, _leftColName, _rightColName,
+      _minDist, _maxDist);
   p->_leftSideTree = leftop;
   p->_leftSideCol = inputCol;
+  p->_resultWidth += leftop->getResultWidth() - 1;
   const ad_utility::HashMap<string, size_t>& var = leftop->getVariableColumns();
   for (auto col : var) {
     if (col.second != inputCol) {
@@ -741,7 +596,6 @@ std::shared_ptr<TransitivePath> TransitivePath::bindLeftSide(
       } else {
         p->_variableColumns[col.first] = col.second + 2;
       }
-      p->_resultWidth++;
     }
   }
   return p;
@@ -750,10 +604,15 @@ std::shared_ptr<TransitivePath> TransitivePath::bindLeftSide(
 // _____________________________________________________________________________
 std::shared_ptr<TransitivePath> TransitivePath::bindRightSide(
     std::shared_ptr<QueryExecutionTree> rightop, size_t inputCol) const {
-  // Create a copy of this
-  std::shared_ptr<TransitivePath> p = std::make_shared<TransitivePath>(*this);
+  // Do not copy `this`, because the order of the result is different for the
+  // new operation, but might already have been computed for this one.
+  auto p = std::make_shared<TransitivePath>(
+      _executionContext, _subtree, _leftIsVar, _rightIsVar, _leftSubCol,
+      _rightSubCol, _leftValue, _rightValue, _leftColName, _rightColName,
+      _minDist, _maxDist);
   p->_rightSideTree = rightop;
   p->_rightSideCol = inputCol;
+  p->_resultWidth += rightop->getResultWidth() - 1;
   const ad_utility::HashMap<string, size_t>& var =
       rightop->getVariableColumns();
   for (auto col : var) {
@@ -763,7 +622,6 @@ std::shared_ptr<TransitivePath> TransitivePath::bindRightSide(
       } else {
         p->_variableColumns[col.first] = col.second + 2;
       }
-      p->_resultWidth++;
     }
   }
   return p;
-- 
2.43.0


From a0d55acd2b3033123346c354da3840f1d6c8c9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:17:46 +0000
Subject: [PATCH 21/55] fix: parse limited paths after a group and detect empty
 alternatives

---
 src/parser/ParsedQuery.cpp        | 5 +++++
 src/parser/PropertyPathParser.cpp | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/parser/ParsedQuery.cpp b/src/parser/ParsedQuery.cpp
index dc2a201..5f1f6b1 100644
--- a/src/parser/ParsedQuery.cpp
+++ b/src/parser/ParsedQuery.cpp
@@ -181,9 +181,14 @@ std::string PropertyPath::asString() const {
 // _____________________________________________________________________________
 void PropertyPath::computeCanBeNull() {
   _can_be_null = _children.size() > 0;
+  bool anyChildCanBeNull = false;
   for (PropertyPath& p : _children) {
     p.computeCanBeNull();
     _can_be_null &= p._can_be_null;
+    anyChildCanBeNull |= p._can_be_null;
+  }
+  if (_operation == Operation::ALTERNATIVE) {
+    _can_be_null = anyChildCanBeNull;
   }
   if (_operation == Operation::TRANSITIVE ||
       _operation == Operation::TRANSITIVE_MAX ||
diff --git a/src/parser/PropertyPathParser.cpp b/src/parser/PropertyPathParser.cpp
index 5f43ab0..4659338 100644
--- a/src/parser/PropertyPathParser.cpp
+++ b/src/parser/PropertyPathParser.cpp
@@ -80,6 +80,7 @@ std::vector<PropertyPathParser::Token> PropertyPathParser::tokenize(
           start = pos;
         }
         while (pos < str.size() && DELIMITER_CHARS[(uint8_t)str[pos]]) {
+          c = str[pos];
           pos++;
           if (c == '*' && pos < str.size() && std::isdigit(str[pos])) {
             // The * token has a number following it
-- 
2.43.0


From 9328de466cc6cfbeca59990299576dd02b60c968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:17:46 +0000
Subject: [PATCH 22/55] fix: plan sequences with optional parts and repeated
 path variables

Use the variables and child indices of the chunk, bind the side of the
transitive path that takes part in the join, and filter when both sides of
a transitive path are the same variable.
---
 src/engine/QueryPlanner.cpp | 63 ++++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 22 deletions(-)

diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index d54d213..3ea7d77 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -343,6 +343,8 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::optimize(
           std::string leftColName, rightColName;
           size_t min, max;
           bool leftVar, rightVar;
+          const bool sameVar =
+              isVariable(arg._left) && arg._left == arg._right;
           if (isVariable(arg._left)) {
             leftVar = true;
             leftCol = sub._qet->getVariableColumn(arg._innerLeft);
@@ -359,7 +361,9 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::optimize(
           if (isVariable(arg._right)) {
             rightVar = true;
             rightCol = sub._qet->getVariableColumn(arg._innerRight);
-            rightColName = arg._right;
+            // If both sides are the same variable, compute the path with a new
+            // variable on the right side, and then filter.
+            rightColName = sameVar ? generateUniqueVarName() : arg._right;
           } else {
             rightVar = false;
             rightCol = sub._qet->getVariableColumn(arg._innerRight);
@@ -379,6 +383,17 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::optimize(
           tree.setVariableColumns(static_cast<TransitivePath*>(transOp.get())
                                       ->getVariableColumns());
           tree.setOperation(QueryExecutionTree::TRANSITIVE_PATH, transOp);
+          if (sameVar) {
+            auto filter = std::make_shared<Filter>(
+                _qec, candidatesOut.back()._qet, SparqlFilter::FilterType::EQ,
+                leftColName, rightColName, vector<string>{}, vector<string>{});
+            candidatesOut.back()._qet =
+                std::make_shared<QueryExecutionTree>(_qec);
+            candidatesOut.back()._qet->setOperation(
+                QueryExecutionTree::OperationType::FILTER, filter);
+            candidatesOut.back()._qet->setVariableColumns(
+                filter->getVariableColumns());
+          }
         }
         joinCandidates(std::move(candidatesOut));
 
@@ -1609,7 +1624,7 @@ std::shared_ptr<ParsedQuery::GraphPattern> QueryPlanner::seedFromSequence(
 
     for (size_t i = chunk[0]; i < chunk[1]; i++) {
       if (path._children[i]._can_be_null) {
-        null_child_indices[i] = num_null_children;
+        null_child_indices[i - chunk[0]] = num_null_children;
         ++num_null_children;
       }
     }
@@ -1632,7 +1647,7 @@ std::shared_ptr<ParsedQuery::GraphPattern> QueryPlanner::seedFromSequence(
       included_ids.clear();
       for (size_t i = chunk[0]; i < chunk[1]; i++) {
         if (!path._children[i]._can_be_null ||
-            (bitmask & (1 << null_child_indices[i])) > 0) {
+            (bitmask & (1 << null_child_indices[i - chunk[0]])) > 0) {
           included_ids.push_back(i);
         }
       }
@@ -1640,12 +1655,12 @@ std::shared_ptr<ParsedQuery::GraphPattern> QueryPlanner::seedFromSequence(
       if (included_ids.empty()) {
         continue;
       }
-      std::string l = left;
+      std::string l = chunkLeft;
       std::string r;
       if (included_ids.size() > 1) {
         r = generateUniqueVarName();
       } else {
-        r = right;
+        r = chunkRight;
       }
 
       // Merge all the child plans into one graph pattern
@@ -1661,7 +1676,7 @@ std::shared_ptr<ParsedQuery::GraphPattern> QueryPlanner::seedFromSequence(
         if (i + 2 < included_ids.size()) {
           r = generateUniqueVarName();
         } else {
-          r = right;
+          r = chunkRight;
         }
       }
       join_patterns.push_back(p);
@@ -3004,17 +3019,19 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::createJoinCandidates(
 
     // Test for binding the other operation to the left side of the
     // transitive path
-    if ((a._qet->getType() ==
-             QueryExecutionTree::OperationType::TRANSITIVE_PATH &&
-         jcs[0][0] == 0) ||
-        (b._qet->getType() ==
-             QueryExecutionTree::OperationType::TRANSITIVE_PATH &&
-         jcs[0][1] == 0)) {
+    const bool bindLeftOfA =
+        a._qet->getType() ==
+            QueryExecutionTree::OperationType::TRANSITIVE_PATH &&
+        jcs[0][0] == 0;
+    const bool bindLeftOfB =
+        b._qet->getType() ==
+            QueryExecutionTree::OperationType::TRANSITIVE_PATH &&
+        jcs[0][1] == 0;
+    if (bindLeftOfA || bindLeftOfB) {
       std::shared_ptr<TransitivePath> srcpath;
       std::shared_ptr<QueryExecutionTree> other;
       size_t otherCol;
-      if (a._qet->getType() ==
-          QueryExecutionTree::OperationType::TRANSITIVE_PATH) {
+      if (bindLeftOfA) {
         srcpath = std::reinterpret_pointer_cast<TransitivePath>(
             a._qet->getRootOperation());
         other = b._qet;
@@ -3061,17 +3078,19 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::createJoinCandidates(
 
     // Test for binding the other operation to the right side of the
     // transitive path
-    if ((a._qet->getType() ==
-             QueryExecutionTree::OperationType::TRANSITIVE_PATH &&
-         jcs[0][0] == 1) ||
-        (b._qet->getType() ==
-             QueryExecutionTree::OperationType::TRANSITIVE_PATH &&
-         jcs[0][1] == 1)) {
+    const bool bindRightOfA =
+        a._qet->getType() ==
+            QueryExecutionTree::OperationType::TRANSITIVE_PATH &&
+        jcs[0][0] == 1;
+    const bool bindRightOfB =
+        b._qet->getType() ==
+            QueryExecutionTree::OperationType::TRANSITIVE_PATH &&
+        jcs[0][1] == 1;
+    if (bindRightOfA || bindRightOfB) {
       std::shared_ptr<TransitivePath> srcpath;
       std::shared_ptr<QueryExecutionTree> other;
       size_t otherCol;
-      if (a._qet->getType() ==
-          QueryExecutionTree::OperationType::TRANSITIVE_PATH) {
+      if (bindRightOfA) {
         srcpath = std::reinterpret_pointer_cast<TransitivePath>(
             a._qet->getRootOperation());
         other = b._qet;
-- 
2.43.0


From c738341bad795d98369a7b9416a754a40a914d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:44:59 +0000
Subject: [PATCH 23/55] fix: answer all forms of queries for the predicates of
 entities

The join of a has-predicate scan with another result stopped at the first
entity without a pattern. Queries that ask for the predicates of a set of
entities without a count read a missing alias, lost their filters on the
predicate, and ignored MINUS and VALUES on the predicate as well as the
position of OPTIONAL, MINUS and BIND. A has-predicate scan or path from a
subquery exposed variables that the subquery does not select.
---
 src/engine/HasPredicateScan.cpp |   2 -
 src/engine/QueryPlanner.cpp     | 102 ++++++++++++++++++++------------
 2 files changed, 65 insertions(+), 39 deletions(-)

diff --git a/src/engine/HasPredicateScan.cpp b/src/engine/HasPredicateScan.cpp
index 1b8d5af..57c0c3d 100644
--- a/src/engine/HasPredicateScan.cpp
+++ b/src/engine/HasPredicateScan.cpp
@@ -397,8 +397,6 @@ void HasPredicateScan::computeSubqueryS(
         }
         result(backIdx, input.cols()) = predicateData[j];
       }
-    } else {
-      break;
     }
   }
   *dynResult = result.moveToDynamic();
diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index 3ea7d77..8f5df6a 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -551,6 +551,29 @@ bool QueryPlanner::checkUsePatternTrick(
         continue;
       }
 
+      // OPTIONAL, MINUS and BIND extend or restrict what comes before them, so
+      // the subject has to be bound there without the ql:has-predicate triple.
+      bool subjectIsBound = !isVariable(t._s);
+      for (auto& op : pq->children()) {
+        if (op.is<GraphPatternOperation::BasicGraphPattern>()) {
+          for (const SparqlTriple& other : op.getBasic()._whereClauseTriples) {
+            if (&other != &t && (other._s == t._s || other._o == t._s)) {
+              subjectIsBound = true;
+            }
+          }
+        } else if (op.is<GraphPatternOperation::Optional>() ||
+                   op.is<GraphPatternOperation::Minus>() ||
+                   op.is<GraphPatternOperation::Bind>()) {
+          if (!subjectIsBound) {
+            usePatternTrick = false;
+          }
+          break;
+        }
+      }
+      if (!usePatternTrick) {
+        continue;
+      }
+
       // Check for filters on the ql:has-predicate triple's subject or
       // object.
       // Filters that filter on the triple's object but have a static
@@ -576,7 +599,8 @@ bool QueryPlanner::checkUsePatternTrick(
           using T = std::decay_t<decltype(arg)>;
           if constexpr (std::is_same_v<T, GraphPatternOperation::Optional> ||
                         std::is_same_v<
-                            T, GraphPatternOperation::GroupGraphPattern>) {
+                            T, GraphPatternOperation::GroupGraphPattern> ||
+                        std::is_same_v<T, GraphPatternOperation::Minus>) {
             graphsToProcess.push_back(&arg._child);
           } else if constexpr (std::is_same_v<T,
                                               GraphPatternOperation::Union>) {
@@ -600,12 +624,18 @@ bool QueryPlanner::checkUsePatternTrick(
               }
             }
 
+          } else if constexpr (std::is_same_v<
+                                   T, GraphPatternOperation::Values>) {
+            for (const auto& var : arg._inlineValues._variables) {
+              if (var == t._o) {
+                usePatternTrick = false;
+                break;
+              }
+            }
           } else {
             static_assert(
                 std::is_same_v<T, GraphPatternOperation::TransPath> ||
-                std::is_same_v<T, GraphPatternOperation::BasicGraphPattern> ||
-                std::is_same_v<T, GraphPatternOperation::Values> ||
-                std::is_same_v<T, GraphPatternOperation::Minus>);
+                std::is_same_v<T, GraphPatternOperation::BasicGraphPattern>);
           }
           // Transitive paths cannot yet exist in the query. They could also
           // not contain the variables we are interested in.
@@ -683,7 +713,7 @@ bool QueryPlanner::checkUsePatternTrick(
 
       LOG(DEBUG) << "Using the pattern trick to answer the query." << endl;
       *patternTrickTriple = t;
-      // remove the triple from the graph
+      // remove the triple from the graph, t is not valid anymore afterwards
       curPattern._whereClauseTriples.erase(
           curPattern._whereClauseTriples.begin() + i);
       // Transform filters on the ql:has-relation triple's object that
@@ -693,7 +723,7 @@ bool QueryPlanner::checkUsePatternTrick(
       auto& filters = pq->_rootGraphPattern._filters;
       for (size_t i = 0; i < filters.size(); i++) {
         const SparqlFilter& filter = filters[i];
-        if (filter._lhs == t._o && filter._rhs[0] != '?') {
+        if (filter._lhs == patternTrickTriple->_o && filter._rhs[0] != '?') {
           pq->_havingClauses.push_back(filter);
           filters.erase(filters.begin() + i);
           i--;
@@ -915,6 +945,10 @@ vector<QueryPlanner::SubtreePlan> QueryPlanner::getPatternTrickRow(
     previous = &dpTab.back();
   }
   vector<SubtreePlan> added;
+  // The counts are always computed, even if the query does not ask for them.
+  const std::string countVarName = pq._aliases.empty()
+                                       ? generateUniqueVarName()
+                                       : pq._aliases[0]._outVarName;
   if (previous != nullptr && !previous->empty()) {
     added.reserve(previous->size());
     for (size_t i = 0; i < previous->size(); ++i) {
@@ -952,7 +986,7 @@ vector<QueryPlanner::SubtreePlan> QueryPlanner::getPatternTrickRow(
       auto countPred = std::make_shared<CountAvailablePredicates>(
           _qec, isSorted ? parent._qet : orderByPlan._qet, subjectColumn);
 
-      countPred->setVarNames(patternTrickTriple._o, pq._aliases[0]._outVarName);
+      countPred->setVarNames(patternTrickTriple._o, countVarName);
       QueryExecutionTree& tree = *patternTrickPlan._qet;
       tree.setVariableColumns(countPred->getVariableColumns());
       tree.setOperation(QueryExecutionTree::COUNT_AVAILABLE_PREDICATES,
@@ -965,7 +999,7 @@ vector<QueryPlanner::SubtreePlan> QueryPlanner::getPatternTrickRow(
     auto countPred =
         std::make_shared<CountAvailablePredicates>(_qec, patternTrickTriple._s);
 
-    countPred->setVarNames(patternTrickTriple._o, pq._aliases[0]._outVarName);
+    countPred->setVarNames(patternTrickTriple._o, countVarName);
     QueryExecutionTree& tree = *patternTrickPlan._qet;
     tree.setVariableColumns(countPred->getVariableColumns());
     tree.setOperation(QueryExecutionTree::COUNT_AVAILABLE_PREDICATES,
@@ -976,11 +1010,7 @@ vector<QueryPlanner::SubtreePlan> QueryPlanner::getPatternTrickRow(
     SubtreePlan patternTrickPlan(_qec);
     auto countPred = std::make_shared<CountAvailablePredicates>(_qec);
 
-    if (pq._aliases.size() > 0) {
-      countPred->setVarNames(patternTrickTriple._o, pq._aliases[0]._outVarName);
-    } else {
-      countPred->setVarNames(patternTrickTriple._o, generateUniqueVarName());
-    }
+    countPred->setVarNames(patternTrickTriple._o, countVarName);
     QueryExecutionTree& tree = *patternTrickPlan._qet;
     tree.setVariableColumns(countPred->getVariableColumns());
     tree.setOperation(QueryExecutionTree::COUNT_AVAILABLE_PREDICATES,
@@ -2910,23 +2940,28 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::createJoinCandidates(
     }
 
     // CASE: JOIN ON ONE COLUMN ONLY.
+    // The operations that are rebuilt together with the other side of the join
+    // below expose all their variables, so this must not be done with the
+    // result of a subquery that hides some of them.
+    auto isRebuildable = [](const QueryExecutionTree& tree,
+                            QueryExecutionTree::OperationType type) {
+      return tree.getType() == type &&
+             tree.getVariableColumns().size() ==
+                 tree.getRootOperation()->getVariableColumns().size();
+    };
     auto isDummyScan = [](const QueryExecutionTree& tree) {
       return tree.getType() == QueryExecutionTree::SCAN &&
              tree.getResultWidth() == 3;
     };
-    if ((a._qet->getType() ==
-             QueryExecutionTree::OperationType::TEXT_WITHOUT_FILTER ||
-         b._qet->getType() ==
-             QueryExecutionTree::OperationType::TEXT_WITHOUT_FILTER)) {
+    if ((isRebuildable(*a._qet, QueryExecutionTree::TEXT_WITHOUT_FILTER) ||
+         isRebuildable(*b._qet, QueryExecutionTree::TEXT_WITHOUT_FILTER))) {
       // If one of the join results is a text operation without filter
       // also consider using the other one as filter and thus
       // turning this join into a text operation with filter, instead,
       bool aTextOp = true;
       // If both are TextOps, the smaller one will be used as filter.
-      if (a._qet->getType() !=
-              QueryExecutionTree::OperationType::TEXT_WITHOUT_FILTER ||
-          (b._qet->getType() ==
-               QueryExecutionTree::OperationType::TEXT_WITHOUT_FILTER &&
+      if (!isRebuildable(*a._qet, QueryExecutionTree::TEXT_WITHOUT_FILTER) ||
+          (isRebuildable(*b._qet, QueryExecutionTree::TEXT_WITHOUT_FILTER) &&
            b._qet->getSizeEstimate() > a._qet->getSizeEstimate())) {
         aTextOp = false;
       }
@@ -2963,18 +2998,15 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::createJoinCandidates(
     // If the join column corresponds to the has-predicate scan's
     // subject column we can use a specialized join that avoids
     // loading the full has-predicate predicate.
-    if (a._qet->getType() ==
-            QueryExecutionTree::OperationType::HAS_RELATION_SCAN ||
-        b._qet->getType() ==
-            QueryExecutionTree::OperationType::HAS_RELATION_SCAN) {
+    if (isRebuildable(*a._qet, QueryExecutionTree::HAS_RELATION_SCAN) ||
+        isRebuildable(*b._qet, QueryExecutionTree::HAS_RELATION_SCAN)) {
       bool replaceJoin = false;
       size_t subtree_col = 0;
 
       auto hasPredicateScan = std::make_shared<QueryExecutionTree>(_qec);
       auto other = std::make_shared<QueryExecutionTree>(_qec);
       std::make_shared<QueryExecutionTree>(_qec);
-      if (a._qet->getType() ==
-              QueryExecutionTree::OperationType::HAS_RELATION_SCAN &&
+      if (isRebuildable(*a._qet, QueryExecutionTree::HAS_RELATION_SCAN) &&
           jcs[0][0] == 0) {
         const HasPredicateScan* op =
             static_cast<HasPredicateScan*>(a._qet->getRootOperation().get());
@@ -2984,8 +3016,8 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::createJoinCandidates(
           subtree_col = jcs[0][1];
           replaceJoin = true;
         }
-      } else if (b._qet->getType() ==
-                     QueryExecutionTree::OperationType::HAS_RELATION_SCAN &&
+      } else if (isRebuildable(*b._qet,
+                               QueryExecutionTree::HAS_RELATION_SCAN) &&
                  jcs[0][1] == 0) {
         const HasPredicateScan* op =
             static_cast<HasPredicateScan*>(b._qet->getRootOperation().get());
@@ -3020,12 +3052,10 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::createJoinCandidates(
     // Test for binding the other operation to the left side of the
     // transitive path
     const bool bindLeftOfA =
-        a._qet->getType() ==
-            QueryExecutionTree::OperationType::TRANSITIVE_PATH &&
+        isRebuildable(*a._qet, QueryExecutionTree::TRANSITIVE_PATH) &&
         jcs[0][0] == 0;
     const bool bindLeftOfB =
-        b._qet->getType() ==
-            QueryExecutionTree::OperationType::TRANSITIVE_PATH &&
+        isRebuildable(*b._qet, QueryExecutionTree::TRANSITIVE_PATH) &&
         jcs[0][1] == 0;
     if (bindLeftOfA || bindLeftOfB) {
       std::shared_ptr<TransitivePath> srcpath;
@@ -3079,12 +3109,10 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::createJoinCandidates(
     // Test for binding the other operation to the right side of the
     // transitive path
     const bool bindRightOfA =
-        a._qet->getType() ==
-            QueryExecutionTree::OperationType::TRANSITIVE_PATH &&
+        isRebuildable(*a._qet, QueryExecutionTree::TRANSITIVE_PATH) &&
         jcs[0][0] == 1;
     const bool bindRightOfB =
-        b._qet->getType() ==
-            QueryExecutionTree::OperationType::TRANSITIVE_PATH &&
+        isRebuildable(*b._qet, QueryExecutionTree::TRANSITIVE_PATH) &&
         jcs[0][1] == 1;
     if (bindRightOfA || bindRightOfB) {
       std::shared_ptr<TransitivePath> srcpath;
-- 
2.43.0


From 7db411288665c25daefc81a245a3a7b7acdeb07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:49:37 +0000
Subject: [PATCH 24/55] fix: do not compute sizes while holding the lock on the
 pinned sizes

---
 src/engine/Operation.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/engine/Operation.cpp b/src/engine/Operation.cpp
index b6f6265..592ce35 100644
--- a/src/engine/Operation.cpp
+++ b/src/engine/Operation.cpp
@@ -90,12 +90,14 @@ shared_ptr<const ResultTable> Operation::getResult(bool isRoot) {
   // (and distinctness) because the multiplicity for an index scan with a single
   // free variable is always 1.
   if (pinFinalResultButNotSubtrees) {
-    auto lock = getExecutionContext()->getPinnedSizes().wlock();
-    forAllDescendants([&lock](QueryExecutionTree* child) {
+    forAllDescendants([this](QueryExecutionTree* child) {
       if (child->getType() == QueryExecutionTree::OperationType::SCAN &&
           child->getResultWidth() == 1) {
-        (*lock)[child->getRootOperation()->asString()] =
-            child->getSizeEstimate();
+        // Computing the size may itself read the pinned sizes, so this must not
+        // happen while holding the lock.
+        const size_t size = child->getSizeEstimate();
+        auto lock = getExecutionContext()->getPinnedSizes().wlock();
+        (*lock)[child->getRootOperation()->asString()] = size;
       }
     });
   }
-- 
2.43.0


From 9d3752d1334dfd3dcd543ea374e8418f3f91373a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:55:46 +0000
Subject: [PATCH 25/55] fix: initialize the tables of the property path parser
 only once

They were filled anew for every path, so queries that are parsed at the same
time saw half initialized tables and failed with a parse error.
---
 src/parser/PropertyPathParser.cpp | 9 ++++-----
 src/parser/PropertyPathParser.h   | 4 +++-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/parser/PropertyPathParser.cpp b/src/parser/PropertyPathParser.cpp
index 4659338..c47ce3b 100644
--- a/src/parser/PropertyPathParser.cpp
+++ b/src/parser/PropertyPathParser.cpp
@@ -13,7 +13,7 @@
 #include "../util/StringUtils.h"
 #include "ParseException.h"
 
-bool PropertyPathParser::delimiters_initialized = false;
+std::once_flag PropertyPathParser::delimiters_initialized;
 
 std::array<bool, 256> PropertyPathParser::DELIMITER_CHARS;
 std::array<bool, 256> PropertyPathParser::VALID_CHARS;
@@ -37,10 +37,9 @@ PropertyPath PropertyPathParser::parse() {
 // _____________________________________________________________________________
 std::vector<PropertyPathParser::Token> PropertyPathParser::tokenize(
     std::string_view str) {
-  // runs only once to initialize the delimiter characters
-  if (!delimiters_initialized) {
-    initDelimiters();
-  }
+  // runs only once to initialize the delimiter characters, several queries may
+  // be parsed at the same time
+  std::call_once(delimiters_initialized, initDelimiters);
 
   std::vector<Token> tokens;
 
diff --git a/src/parser/PropertyPathParser.h b/src/parser/PropertyPathParser.h
index 7f678e4..b40f7ba 100644
--- a/src/parser/PropertyPathParser.h
+++ b/src/parser/PropertyPathParser.h
@@ -4,6 +4,8 @@
 
 #pragma once
 
+#include <array>
+#include <mutex>
 #include <string>
 #include <string_view>
 #include <vector>
@@ -88,5 +90,5 @@ class PropertyPathParser {
   // Static members
   static std::array<bool, 256> DELIMITER_CHARS;
   static std::array<bool, 256> VALID_CHARS;
-  static bool delimiters_initialized;
+  static std::once_flag delimiters_initialized;
 };
-- 
2.43.0


From b833859bb136844b42dd0e36cc2375a3f44e3bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:13:19 +0000
Subject: [PATCH 26/55] fix: escape newlines in the file with the vocabulary
 prefixes

The file has one prefix per line, so a prefix with a newline moved all
prefixes after it and words were expanded with the wrong prefix.
---
 src/index/Index.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/index/Index.cpp b/src/index/Index.cpp
index dc9ca1d..8c6f792 100644
--- a/src/index/Index.cpp
+++ b/src/index/Index.cpp
@@ -13,6 +13,7 @@
 
 #include "../parser/NTriplesParser.h"
 #include "../parser/ParallelParseBuffer.h"
+#include "../parser/RdfEscaping.h"
 #include "../parser/TsvParser.h"
 #include "../util/BatchedPipeline.h"
 #include "../util/Conversions.h"
@@ -108,7 +109,8 @@ void Index::createFromFile(const string& filename) {
     std::ofstream prefixFile(_onDiskBase + PREFIX_FILE);
     AD_CHECK(prefixFile.is_open());
     for (const auto& prefix : prefixes) {
-      prefixFile << prefix << std::endl;
+      prefixFile << RdfEscaping::escapeNewlinesAndBackslashes(prefix)
+                 << std::endl;
     }
   }
   _configurationJson["prefixes"] = _vocabPrefixCompressed;
@@ -1350,7 +1352,8 @@ void Index::readConfiguration() {
       std::ifstream prefixFile(_onDiskBase + PREFIX_FILE);
       AD_CHECK(prefixFile.is_open());
       for (string prefix; std::getline(prefixFile, prefix);) {
-        prefixes.emplace_back(std::move(prefix));
+        prefixes.emplace_back(
+            RdfEscaping::unescapeNewlinesAndBackslashes(prefix));
       }
       _vocab.initializePrefixes(prefixes);
     } else {
-- 
2.43.0


From 6a192e8a34b9d0130affb5848d4cb31468d53ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:13:19 +0000
Subject: [PATCH 27/55] fix: accept numeric escapes at the end of literals and
 IRIs

---
 src/parser/RdfEscaping.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/RdfEscaping.cpp b/src/parser/RdfEscaping.cpp
index 1df8443..b5224a0 100644
--- a/src/parser/RdfEscaping.cpp
+++ b/src/parser/RdfEscaping.cpp
@@ -76,7 +76,7 @@ void unescapeStringAndNumericEscapes(InputIterator beginIterator,
   auto pushNumericEscape = [&outputIterator, &endIterator](const auto& iterator,
                                                            size_t length) {
     if constexpr (!acceptOnlyBackslashAndNewline) {
-      AD_CHECK(iterator + length < endIterator);
+      AD_CHECK(iterator + length <= endIterator);
       auto unesc =
           hexadecimalCharactersToUtf8(std::string_view(iterator, length));
       std::copy(unesc.begin(), unesc.end(), outputIterator);
-- 
2.43.0


From 956faff8901f2227c732c81ec34cd26a5424d5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:13:19 +0000
Subject: [PATCH 28/55] fix: read escape sequences in N-Triples

A literal ended at its first escaped quote, and escape sequences were kept
as they are written instead of being replaced as in Turtle.
---
 src/parser/NTriplesParser.cpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/parser/NTriplesParser.cpp b/src/parser/NTriplesParser.cpp
index 7b79d43..3fe2bb6 100644
--- a/src/parser/NTriplesParser.cpp
+++ b/src/parser/NTriplesParser.cpp
@@ -7,6 +7,7 @@
 #include <iostream>
 #include "../util/Exception.h"
 #include "../util/Log.h"
+#include "./RdfEscaping.h"
 
 using ad_utility::lstrip;
 
@@ -58,6 +59,7 @@ bool NTriplesParser::getLine(array<string, 3>& res) {
       AD_THROW(ad_semsearch::Exception::BAD_INPUT,
                "Object not followed by space in : " + line);
     }
+    size_t literalEnd = i;
     if (line[i] == '<') {
       // URI
       j = line.find('>', i + 1);
@@ -74,7 +76,11 @@ bool NTriplesParser::getLine(array<string, 3>& res) {
       }
     } else {
       // Literal
-      j = line.find('\"', i + 1);
+      if (line[i] != '\"') {
+        AD_THROW(ad_semsearch::Exception::BAD_INPUT,
+                 "Illegal literal in : " + line);
+      }
+      j = i + 1;
       bool escape = false;
       while (j < line.size()) {
         if (!escape && line[j] == '\\') {
@@ -92,6 +98,7 @@ bool NTriplesParser::getLine(array<string, 3>& res) {
                  "Illegal literal in : " + line);
       }
       ++j;
+      literalEnd = j;
       while (j < line.size() && line[j] != ' ' && line[j] != '\t') {
         ++j;
       }
@@ -101,6 +108,20 @@ bool NTriplesParser::getLine(array<string, 3>& res) {
                "Object not followed by space in : " + line);
     }
     res[2] = line.substr(i, j - i);
+    if (literalEnd != i) {
+      string suffix = line.substr(literalEnd, j - literalEnd);
+      if (ad_utility::startsWith(suffix, "^^<")) {
+        suffix = "^^" + RdfEscaping::unescapeIriref(suffix.substr(2));
+      }
+      res[2] = RdfEscaping::normalizeRDFLiteral(
+                   std::string_view(line).substr(i, literalEnd - i)) +
+               suffix;
+    }
+    for (auto& el : res) {
+      if (ad_utility::startsWith(el, "<")) {
+        el = RdfEscaping::unescapeIriref(el);
+      }
+    }
     return true;
   }
   return false;
-- 
2.43.0


From b7350a4210e17b9646beea61b4510a29ffebe362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:13:19 +0000
Subject: [PATCH 29/55] fix: accept more of Turtle and never skip a part of the
 input

Numbers with a fraction or an exponent were cut after their integer part,
numbers and booleans without quotes got no type, @base kept its final dot,
SPARQL PREFIX kept the angle brackets, a blank node property list as subject
used the wrong subject, keywords matched the beginning of names, only one
comment was skipped, the empty prefix was rejected, the memory mapped parser
stopped after the first statement, and input after an unexpected character
was silently ignored.
A dot at the end of a block may continue in the next block, and prefixes are
restored when a block is parsed again.
---
 src/global/Constants.h      |  4 +++
 src/parser/Tokenizer.cpp    |  6 ++--
 src/parser/Tokenizer.h      | 41 +++++++++------------
 src/parser/TurtleParser.cpp | 72 +++++++++++++++++++++++++++++--------
 src/parser/TurtleParser.h   | 27 +++++++++++++-
 5 files changed, 108 insertions(+), 42 deletions(-)

diff --git a/src/global/Constants.h b/src/global/Constants.h
index c0d3560..dc8aee5 100644
--- a/src/global/Constants.h
+++ b/src/global/Constants.h
@@ -58,6 +58,10 @@ static const char VALUE_DATE_PREFIX[] = ":v:date:";
 static const char VALUE_FLOAT_PREFIX[] = ":v:float:";
 static const char XSD_DATETIME_SUFFIX[] =
     "^^<http://www.w3.org/2001/XMLSchema#dateTime>";
+static const char XSD_INTEGER_SUFFIX[] =
+    "^^<http://www.w3.org/2001/XMLSchema#integer>";
+static const char XSD_BOOLEAN_SUFFIX[] =
+    "^^<http://www.w3.org/2001/XMLSchema#boolean>";
 static const char XSD_INT_SUFFIX[] = "^^<http://www.w3.org/2001/XMLSchema#int>";
 static const char XSD_FLOAT_SUFFIX[] =
     "^^<http://www.w3.org/2001/XMLSchema#float>";
diff --git a/src/parser/Tokenizer.cpp b/src/parser/Tokenizer.cpp
index 44950ac..247462a 100644
--- a/src/parser/Tokenizer.cpp
+++ b/src/parser/Tokenizer.cpp
@@ -7,8 +7,10 @@
 // ______________________________________________________
 void Tokenizer::skipWhitespaceAndComments() {
   skipWhitespace();
-  skipComments();
-  skipWhitespace();
+  while (ad_utility::startsWith(view(), "#")) {
+    skipComments();
+    skipWhitespace();
+  }
 }
 
 // _______________________________________________________
diff --git a/src/parser/Tokenizer.h b/src/parser/Tokenizer.h
index 2ad09bb..388e721 100644
--- a/src/parser/Tokenizer.h
+++ b/src/parser/Tokenizer.h
@@ -130,14 +130,14 @@ struct TurtleTokenCtre {
   static constexpr auto Exponent = grp(ExponentString);
 
   static constexpr auto DoubleString =
-      fixed_string("[\\+\\-]?([0-9]+\\.[0-9]*") + ExponentString + "|" +
-      ExponentString + ")";
+      fixed_string("[\\+\\-]?([0-9]+\\.[0-9]*") + ExponentString +
+      "|\\.?[0-9]+" + ExponentString + "|" + ExponentString + ")";
 
   static constexpr auto Double = grp(DoubleString);
 
   static constexpr auto HexString = fixed_string("0-9A-Fa-f");
   static constexpr auto UcharString =
-      fixed_string("\\\\u[0-9a-fA-f]{4}|\\\\U[0-9a-fA-f]{8}");
+      fixed_string("\\\\u[0-9a-fA-F]{4}|\\\\U[0-9a-fA-F]{8}");
 
   static constexpr auto EcharString = fixed_string("\\\\[tbnrf\"\'\\\\]");
 
@@ -197,7 +197,7 @@ struct TurtleTokenCtre {
                                          cls(PnCharsString) + "|" +
                                          cls(PnCharsString) + ")*";
 
-  static constexpr auto PnameNSString = PnPrefixString + ":";
+  static constexpr auto PnameNSString = grp(PnPrefixString) + "?:";
 
   static constexpr fixed_string PnLocalEscString =
       "\\\\[_~.\\-!$&'()*+,;=/?#@%]";
@@ -318,11 +318,12 @@ struct TurtleToken {
   const string ExponentString = "[eE][+-]?[0-9]+";
   const RE2 Exponent;
   const string DoubleString =
-      "[+-]?([0-9]+\\.[0-9]*" + ExponentString + "|" + ExponentString + ")";
+      "[+-]?([0-9]+\\.[0-9]*" + ExponentString + "|\\.?[0-9]+" +
+      ExponentString + "|" + ExponentString + ")";
   const RE2 Double;
 
   const string HexString = "0-9A-Fa-f";
-  const string UcharString = "\\\\u[0-9a-fA-f]{4}|\\\\U[0-9a-fA-f]{8}";
+  const string UcharString = "\\\\u[0-9a-fA-F]{4}|\\\\U[0-9a-fA-F]{8}";
 
   const string EcharString = "\\\\[tbnrf\"\'\\\\]";
 
@@ -378,7 +379,7 @@ struct TurtleToken {
                                 cls(PnCharsString) + "|" + cls(PnCharsString) +
                                 ")*";
 
-  const string PnameNSString = PnPrefixString + ":";
+  const string PnameNSString = grp(PnPrefixString) + "?:";
   const RE2 PnameNS;
 
   const string PnLocalEscString = "\\\\[_~.\\-!$&'()*+,;=/?#@%]";
@@ -485,8 +486,10 @@ class TokenizerCtre {
   /// skip any whitespace or comments at the beginning of the held characters
   void skipWhitespaceAndComments() {
     skipWhitespace();
-    skipComments();
-    skipWhitespace();
+    while (ad_utility::startsWith(view(), "#")) {
+      skipComments();
+      skipWhitespace();
+    }
   }
 
   /** If there is a prefix match with the argument, move forward the beginning
@@ -519,9 +522,7 @@ class TokenizerCtre {
   void skipWhitespace() {
     auto v = view();
     auto pos = v.find_first_not_of("\x20\x09\x0D\x0A");
-    if (pos != string::npos) {
-      _data.remove_prefix(pos);
-    }
+    _data.remove_prefix(std::min(pos, v.size()));
   }
 
   // ___________________________________________________________________________________
@@ -531,12 +532,8 @@ class TokenizerCtre {
     auto v = view();
     if (ad_utility::startsWith(v, "#")) {
       auto pos = v.find("\n");
-      if (pos == string::npos) {
-        // TODO: this actually should yield a n error
-        LOG(INFO) << "Warning, unfinished comment found while parsing";
-      } else {
-        _data.remove_prefix(pos + 1);
-      }
+      // the last line of the input does not need to end with a newline
+      _data.remove_prefix(pos == string::npos ? v.size() : pos + 1);
     }
   }
   FRIEND_TEST(TokenizerTest, WhitespaceAndComments);
@@ -780,12 +777,8 @@ class Tokenizer {
     auto v = view();
     if (ad_utility::startsWith(v, "#")) {
       auto pos = v.find("\n");
-      if (pos == string::npos) {
-        // TODO: this actually should yield a n error
-        LOG(INFO) << "Warning, unfinished comment found while parsing";
-      } else {
-        _data.remove_prefix(pos + 1);
-      }
+      // the last line of the input does not need to end with a newline
+      _data.remove_prefix(pos == string::npos ? v.size() : pos + 1);
     }
   }
   FRIEND_TEST(TokenizerTest, WhitespaceAndComments);
diff --git a/src/parser/TurtleParser.cpp b/src/parser/TurtleParser.cpp
index 3ef3596..49e8081 100644
--- a/src/parser/TurtleParser.cpp
+++ b/src/parser/TurtleParser.cpp
@@ -43,7 +43,7 @@ bool TurtleParser<T>::prefixID() {
 template <class T>
 bool TurtleParser<T>::base() {
   if (skip<TokId::TurtleBase>()) {
-    if (iriref()) {
+    if (iriref() && check(skip<TokId::Dot>())) {
       _baseIRI = _lastParseResult;
       return true;
     } else {
@@ -57,9 +57,11 @@ bool TurtleParser<T>::base() {
 // ________________________________________________________________
 template <class T>
 bool TurtleParser<T>::sparqlPrefix() {
-  if (skip<TokId::SparqlPrefix>()) {
+  if (skipKeyword<TokId::SparqlPrefix>()) {
     if (pnameNS() && iriref()) {
-      _prefixMap[_activePrefix] = _lastParseResult;
+      // strip  the angled brackes <bla> -> bla
+      _prefixMap[_activePrefix] =
+          _lastParseResult.substr(1, _lastParseResult.size() - 2);
       return true;
     } else {
       raise("sparqlPrefix");
@@ -72,7 +74,7 @@ bool TurtleParser<T>::sparqlPrefix() {
 // ________________________________________________________________
 template <class T>
 bool TurtleParser<T>::sparqlBase() {
-  if (skip<TokId::SparqlBase>()) {
+  if (skipKeyword<TokId::SparqlBase>()) {
     if (iriref()) {
       _baseIRI = _lastParseResult;
       return true;
@@ -94,7 +96,8 @@ bool TurtleParser<T>::triples() {
       raise("triples");
     }
   } else {
-    if (blankNodePropertyList()) {
+    if (blankNodePropertyList(false)) {
+      _activeSubject = _lastParseResult;
       predicateObjectList();
       return true;
     } else {
@@ -141,9 +144,7 @@ bool TurtleParser<T>::verb() {
 // ___________________________________________________________________
 template <class T>
 bool TurtleParser<T>::predicateSpecialA() {
-  _tok.skipWhitespaceAndComments();
-  if (auto [success, word] = _tok.template getNextToken<TokId::A>(); success) {
-    (void)word;
+  if (skipKeyword<TokId::A>()) {
     _activePredicate = "<http://www.w3.org/1999/02/22-rdf-syntax-ns#type>"s;
     return true;
   } else {
@@ -197,17 +198,19 @@ bool TurtleParser<T>::literal() {
 
 // _____________________________________________________________________
 template <class T>
-bool TurtleParser<T>::blankNodePropertyList() {
+bool TurtleParser<T>::blankNodePropertyList(bool isObject) {
   if (!skip<TokId::OpenSquared>()) {
     return false;
   }
   // save subject and predicate
   string savedSubject = _activeSubject;
   string savedPredicate = _activePredicate;
-  // new triple with blank node as object
   string blank = createAnonNode();
-  _lastParseResult = blank;
-  emitTriple();
+  if (isObject) {
+    // new triple with blank node as object
+    _lastParseResult = blank;
+    emitTriple();
+  }
   // the following triples have the blank node as subject
   _activeSubject = blank;
   check(predicateObjectList());
@@ -215,6 +218,7 @@ bool TurtleParser<T>::blankNodePropertyList() {
   // restore subject and predicate
   _activeSubject = savedSubject;
   _activePredicate = savedPredicate;
+  _lastParseResult = blank;
   return true;
 }
 
@@ -231,7 +235,26 @@ bool TurtleParser<T>::collection() {
 // ______________________________________________________________________
 template <class T>
 bool TurtleParser<T>::numericLiteral() {
-  return integer() || decimal() || doubleParse();
+  _tok.skipWhitespaceAndComments();
+  auto view = _tok.view();
+  // prefixed names may begin with an exponent like "e5"
+  if (view.empty() ||
+      std::string_view("+-.0123456789").find(view[0]) == string::npos) {
+    return false;
+  }
+  // an integer can be the prefix of a decimal and both of a double
+  string suffix;
+  if (doubleParse()) {
+    suffix = XSD_DOUBLE_SUFFIX;
+  } else if (decimal()) {
+    suffix = XSD_DECIMAL_SUFFIX;
+  } else if (integer()) {
+    suffix = XSD_INTEGER_SUFFIX;
+  } else {
+    return false;
+  }
+  _lastParseResult = '"' + _lastParseResult + '"' + suffix;
+  return true;
 }
 
 // ______________________________________________________________________
@@ -259,7 +282,16 @@ bool TurtleParser<T>::rdfLiteral() {
 // ______________________________________________________________________
 template <class T>
 bool TurtleParser<T>::booleanLiteral() {
-  return parseTerminal<TokId::True>() || parseTerminal<TokId::False>();
+  string value;
+  if (skipKeyword<TokId::True>()) {
+    value = "true";
+  } else if (skipKeyword<TokId::False>()) {
+    value = "false";
+  } else {
+    return false;
+  }
+  _lastParseResult = '"' + value + '"' + XSD_BOOLEAN_SUFFIX;
+  return true;
 }
 
 // ______________________________________________________________________
@@ -444,6 +476,7 @@ typename TurtleStreamParser<T>::TurtleParserBackupState
 TurtleStreamParser<T>::backupState() const {
   TurtleParserBackupState b;
   b._numBlankNodes = this->_numBlankNodes;
+  b._prefixMap = this->_prefixMap;
   b._numTriples = this->_triples.size();
   b._tokenizerPosition = this->_tok.data().begin();
   b._tokenizerSize = this->_tok.data().size();
@@ -466,6 +499,7 @@ bool TurtleStreamParser<T>::resetStateAndRead(
 
   // return to the state of the last backup
   this->_numBlankNodes = b._numBlankNodes;
+  this->_prefixMap = b._prefixMap;
   AD_CHECK(this->_triples.size() >= b._numTriples);
   this->_triples.resize(b._numTriples);
   this->_tok.reset(b._tokenizerPosition, b._tokenizerSize);
@@ -515,7 +549,7 @@ bool TurtleMmapParser<T>::getLine(std::array<string, 3>* triple) {
     // relatively expensive backup calls.
     while (_triples.size() < PARSER_MIN_TRIPLES_AT_ONCE &&
            !_isParserExhausted) {
-      if (this->statement()) {
+      if (!this->statement()) {
         // we cannot parse anymore from an mmaped file but there was no
         // error. check if we are just at the end of the input, otherwise
         // inform.
@@ -528,6 +562,7 @@ bool TurtleMmapParser<T>::getLine(std::array<string, 3>* triple) {
           auto s = std::min(size_t(1000), size_t(d.size()));
           LOG(INFO) << "Logging first 1000 unparsed characters\n";
           LOG(INFO) << std::string_view(d.data(), s) << std::endl;
+          this->raise("The remaining input is not a turtle statement");
         }
         _isParserExhausted = true;
         break;
@@ -581,6 +616,12 @@ bool TurtleStreamParser<T>::getLine(std::array<string, 3>* triple) {
         // variable parsedStatement will be true iff a statement can
         // successfully be parsed
         parsedStatement = this->statement();
+        // If a dot is the last byte of the buffer, it might also belong to a
+        // number or a prefixed name that continues in the next block.
+        if (parsedStatement && _tok.view().empty()) {
+          resetStateAndRead(&b);
+          continue;
+        }
       } catch (const typename TurtleParser<T>::ParseException& p) {
         parsedStatement = false;
         exceptionThrown = true;
@@ -636,6 +677,7 @@ bool TurtleStreamParser<T>::getLine(std::array<string, 3>* triple) {
               auto s = std::min(size_t(1000), size_t(d.size()));
               LOG(INFO) << "Logging first 1000 unparsed characters\n";
               LOG(INFO) << std::string_view(d.data(), s);
+              this->raise("The remaining input is not a turtle statement");
             }
             _isParserExhausted = true;
             break;
diff --git a/src/parser/TurtleParser.h b/src/parser/TurtleParser.h
index 2cfc032..a2140ab 100644
--- a/src/parser/TurtleParser.h
+++ b/src/parser/TurtleParser.h
@@ -150,7 +150,9 @@ class TurtleParser {
   bool triples();
   bool subject();
   bool predicateObjectList();
-  bool blankNodePropertyList();
+  // If the list is not an object but a subject, then no triple with the blank
+  // node as object is emitted.
+  bool blankNodePropertyList(bool isObject = true);
   bool objectList();
   bool object();
   bool verb();
@@ -199,6 +201,27 @@ class TurtleParser {
     return _tok.template skip<reg>();
   }
 
+  // Like skip, but do not match the beginning of a longer (prefixed) name
+  template <TokId reg>
+  bool skipKeyword() {
+    _tok.skipWhitespaceAndComments();
+    auto before = _tok.view();
+    if (!_tok.template skip<reg>()) {
+      return false;
+    }
+    auto view = _tok.view();
+    if (!view.empty() &&
+        (std::isalnum(static_cast<unsigned char>(view[0])) ||
+         static_cast<unsigned char>(view[0]) >= 0x80 || view[0] == '_' ||
+         view[0] == '-' || view[0] == ':' ||
+         (view[0] == '.' && view.size() > 1 &&
+          std::isalpha(static_cast<unsigned char>(view[1]))))) {
+      _tok.reset(before.data(), before.size());
+      return false;
+    }
+    return true;
+  }
+
   // if the prefix of the current input position matches the regex argument,
   // put the matching prefix into _lastParseResult, move the input position
   // forward by the length of the match and return true else return false and do
@@ -336,6 +359,8 @@ class TurtleStreamParser : public TurtleParser<Tokenizer_T> {
   // before the backup
   struct TurtleParserBackupState {
     size_t _numBlankNodes = 0;
+    // prefixes can be redefined by the statements that have to be repeated
+    ad_utility::HashMap<std::string, std::string> _prefixMap;
     size_t _numTriples;
     const char* _tokenizerPosition;
     size_t _tokenizerSize;
-- 
2.43.0


From 3ab6bd4b9198858f455b7eadf41f77ed1c129472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:25:15 +0000
Subject: [PATCH 30/55] fix: recognize duplicates of externalized words when
 merging vocabularies

---
 src/index/VocabularyGeneratorImpl.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/index/VocabularyGeneratorImpl.h b/src/index/VocabularyGeneratorImpl.h
index 167ff33..422c9fb 100644
--- a/src/index/VocabularyGeneratorImpl.h
+++ b/src/index/VocabularyGeneratorImpl.h
@@ -156,8 +156,10 @@ void VocabularyMerger::writeQueueWordsToIdVec(const std::vector<QueueWord>& buff
       if (_lastWritten < EXTERNALIZED_LITERALS_PREFIX) {
         _outfile << RdfEscaping::escapeNewlinesAndBackslashes(_lastWritten) << '\n';
       } else {
-        // we have to strip the externalization character again
-        auto& c = _lastWritten[0];
+        // we have to strip the externalization character again, but only for
+        // the output: duplicates still contain it.
+        std::string externalWord = _lastWritten;
+        auto& c = externalWord[0];
         switch (c) {
           case EXTERNALIZED_LITERALS_PREFIX_CHAR:
             c = '"';
@@ -171,7 +173,7 @@ void VocabularyMerger::writeQueueWordsToIdVec(const std::vector<QueueWord>& buff
                           "should never happen\n";
             AD_CHECK(false)
         }
-        _outfileExternal << RdfEscaping::escapeNewlinesAndBackslashes(_lastWritten) << '\n';
+        _outfileExternal << RdfEscaping::escapeNewlinesAndBackslashes(externalWord) << '\n';
       }
 
       // write id to corresponding vec
-- 
2.43.0


From 2f131fdd005204463ad695a51eb1a46bc89bb34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:40:30 +0000
Subject: [PATCH 31/55] fix: keep the server alive for arbitrary requests

The target of a request may contain "HTTP". Requests that are too short
and texts that are not valid UTF-8 ended the process.
---
 src/engine/Server.cpp  | 18 +++++++++++++-----
 src/util/StringUtils.h | 18 ++++++++++++++----
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/engine/Server.cpp b/src/engine/Server.cpp
index c84d8b7..288e012 100644
--- a/src/engine/Server.cpp
+++ b/src/engine/Server.cpp
@@ -16,6 +16,12 @@
 #include "./Server.h"
 #include "QueryPlanner.h"
 
+// Neither queries nor the knowledge base have to be valid UTF-8, which would
+// otherwise make the serialization throw.
+static string dumpJson(const nlohmann::json& j) {
+  return j.dump(4, ' ', false, nlohmann::json::error_handler_t::replace);
+}
+
 // _____________________________________________________________________________
 Server::~Server() {
   if (_initialized) {
@@ -108,10 +114,12 @@ void Server::process(Socket* client) {
              << " and headers with total size: " << headers.size() << endl;
 
   size_t indexOfGET = request.find("GET");
-  size_t indexOfHTTP = request.find("HTTP");
+  // The target of the request might also contain "HTTP".
+  size_t indexOfHTTP = request.rfind("HTTP");
   size_t upper = indexOfHTTP;
 
-  if (indexOfGET != request.npos && indexOfHTTP != request.npos) {
+  if (indexOfGET != request.npos && indexOfHTTP != request.npos &&
+      indexOfGET + 5 < indexOfHTTP) {
     size_t indexOfQuest = request.find("?", indexOfGET);
     if (indexOfQuest != string::npos && indexOfQuest < indexOfHTTP) {
       upper = indexOfQuest + 1;
@@ -261,7 +269,7 @@ Server::ParamValueMap Server::parseHttpRequest(
   // Parse the HTTP Request.
 
   size_t indexOfGET = httpRequest.find("GET");
-  size_t indexOfHTTP = httpRequest.find("HTTP");
+  size_t indexOfHTTP = httpRequest.rfind("HTTP");
 
   if (indexOfGET == httpRequest.npos || indexOfHTTP == httpRequest.npos) {
     AD_THROW(ad_semsearch::Exception::BAD_REQUEST,
@@ -405,7 +413,7 @@ string Server::composeResponseJson(const ParsedQuery& query,
   j["time"]["total"] = std::to_string(requestTimer.usecs() / 1000.0) + "ms";
   j["time"]["computeResult"] = std::to_string(compResultUsecs / 1000.0) + "ms";
 
-  return j.dump(4);
+  return dumpJson(j);
 }
 
 // _____________________________________________________________________________
@@ -440,7 +448,7 @@ string Server::composeResponseJson(const string& query,
   j["time"]["total"] = requestTimer.msecs();
   j["time"]["computeResult"] = requestTimer.msecs();
   j["exception"] = exception.what();
-  return j.dump(4);
+  return dumpJson(j);
 }
 
 // _____________________________________________________________________________
diff --git a/src/util/StringUtils.h b/src/util/StringUtils.h
index 52f4b26..2776c88 100644
--- a/src/util/StringUtils.h
+++ b/src/util/StringUtils.h
@@ -252,11 +252,16 @@ string getLowercaseUtf8(const std::string_view orig) {
     } else {
       wchar_t wChar;
       size_t len = mbrtowc(&wChar, &orig[i], orig.size() - i, &state);
-      // If this assertion fails, there is an invalid multi-byte character.
+      // If this happens, there is an invalid multi-byte character.
       // However, this usually means that the locale is not utf8.
       // Note that the default locale is always C. Main classes need to set them
       // To utf8, even if the system's default is utf8 already.
-      assert(len > 0 && len <= static_cast<size_t>(MB_CUR_MAX));
+      if (len == 0 || len > static_cast<size_t>(MB_CUR_MAX)) {
+        // Keep bytes that are not part of a valid character.
+        retVal += orig[i];
+        state = std::mbstate_t();
+        continue;
+      }
       i += len - 1;
       size_t ret = wcrtomb(
           buf, static_cast<wchar_t>(towlower(static_cast<wint_t>(wChar))),
@@ -281,11 +286,16 @@ string getUppercaseUtf8(const std::string_view orig) {
     } else {
       wchar_t wChar;
       size_t len = mbrtowc(&wChar, &orig[i], orig.size() - i, &state);
-      // If this assertion fails, there is an invalid multi-byte character.
+      // If this happens, there is an invalid multi-byte character.
       // However, this usually means that the locale is not utf8.
       // Note that the default locale is always C. Main classes need to set them
       // To utf8, even if the system's default is utf8 already.
-      assert(len > 0 && len <= static_cast<size_t>(MB_CUR_MAX));
+      if (len == 0 || len > static_cast<size_t>(MB_CUR_MAX)) {
+        // Keep bytes that are not part of a valid character.
+        retVal += orig[i];
+        state = std::mbstate_t();
+        continue;
+      }
       i += len - 1;
       size_t ret = wcrtomb(
           buf, static_cast<wchar_t>(towupper(static_cast<wint_t>(wChar))),
-- 
2.43.0


From 6b6ef3aafa5a3a39e423346466d93f5a84cde9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:40:30 +0000
Subject: [PATCH 32/55] fix: do not write beyond the table of the random
 generator

---
 src/util/Random.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/Random.h b/src/util/Random.h
index 8bb60a8..e9c3dd6 100644
--- a/src/util/Random.h
+++ b/src/util/Random.h
@@ -29,7 +29,7 @@ class FastRandomIntGenerator {
   FastRandomIntGenerator() {
     // Randomly initialize the shuffleTable
     std::random_device seeder{};
-    for (size_t i = 0; i <= _shuffleTable.size(); ++i) {
+    for (size_t i = 0; i < _shuffleTable.size(); ++i) {
       _shuffleTable[i] = seeder();
     }
   }
-- 
2.43.0


From 0272b72cf3b0cb178f1282e5efdf6bea2a187e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:53:22 +0000
Subject: [PATCH 33/55] fix: reject aliases that are grouped by and ignore
 repeated GROUP BY variables

The result of the grouping had fewer columns than were written. The names
of the token types were incomplete.
---
 src/parser/SparqlLexer.cpp  |  5 +++--
 src/parser/SparqlParser.cpp | 20 +++++++++++++++-----
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/parser/SparqlLexer.cpp b/src/parser/SparqlLexer.cpp
index c67c245..b7587f8 100644
--- a/src/parser/SparqlLexer.cpp
+++ b/src/parser/SparqlLexer.cpp
@@ -3,13 +3,14 @@
 // Author: Florian Kramer (florian.kramer@neptun.uni-freiburg.de)
 
 #include "SparqlLexer.h"
+
 #include "../util/StringUtils.h"
 #include "ParseException.h"
 #include "Tokenizer.h"
 
 const std::string SparqlToken::TYPE_NAMES[] = {
-    "IRI",       "WS",         "KEYWORD", "VARIABLE", "SYMBOL",
-    "AGGREGATE", "RDFLITERAL", "INTEGER", "FLOAT",    "LOGICAL_OR"};
+    "IRI",    "WS",        "KEYWORD",    "GROUP_BY", "ORDER_BY", "VARIABLE",
+    "SYMBOL", "AGGREGATE", "RDFLITERAL", "INTEGER",  "FLOAT",    "LOGICAL_OR"};
 
 const std::string SparqlLexer::LANGTAG = "@[a-zA-Z]+(-[a-zA-Z0-9]+)*";
 const std::string SparqlLexer::IRIREF =
diff --git a/src/parser/SparqlParser.cpp b/src/parser/SparqlParser.cpp
index cdb303f..76ee49b 100644
--- a/src/parser/SparqlParser.cpp
+++ b/src/parser/SparqlParser.cpp
@@ -83,7 +83,14 @@ void SparqlParser::parseQuery(ParsedQuery* query) {
                            "an alias was already selected on.\n" +
                            _lexer.input());
     }
-    variable_counts[a._outVarName];
+    if (std::find(query->_groupByVariables.begin(),
+                  query->_groupByVariables.end(),
+                  a._outVarName) != query->_groupByVariables.end()) {
+      throw ParseException("The variable name " + a._outVarName +
+                           " used in "
+                           "an alias was already used in the GROUP BY.\n" +
+                           _lexer.input());
+    }
   }
 }
 
@@ -663,10 +670,13 @@ void SparqlParser::parseSolutionModifiers(ParsedQuery* query) {
       query->_offset = _lexer.current().raw;
     } else if (_lexer.accept(SparqlToken::Type::GROUP_BY)) {
       _lexer.expect(SparqlToken::Type::VARIABLE);
-      query->_groupByVariables.emplace_back(_lexer.current().raw);
-      while (_lexer.accept(SparqlToken::Type::VARIABLE)) {
-        query->_groupByVariables.emplace_back(_lexer.current().raw);
-      }
+      do {
+        auto& vars = query->_groupByVariables;
+        const string& var = _lexer.current().raw;
+        if (std::find(vars.begin(), vars.end(), var) == vars.end()) {
+          vars.emplace_back(var);
+        }
+      } while (_lexer.accept(SparqlToken::Type::VARIABLE));
     } else if (_lexer.accept("having")) {
       parseFilter(&query->_havingClauses, true, &query->_rootGraphPattern);
       while (parseFilter(&query->_havingClauses, false,
-- 
2.43.0


From a8ecc8fcc7dfcc450091bb28810ae29c784b20c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:56:24 +0000
Subject: [PATCH 34/55] Make some limits changeable for tests if
 QLEVER_TESTABLE_LIMITS is defined

---
 src/global/Constants.h             | 10 +++++++---
 src/global/TestableLimit.h         | 18 ++++++++++++++++++
 src/index/ConstantsIndexCreation.h |  8 ++++++--
 src/index/VocabularyGenerator.h    |  2 +-
 4 files changed, 32 insertions(+), 6 deletions(-)
 create mode 100644 src/global/TestableLimit.h

diff --git a/src/global/Constants.h b/src/global/Constants.h
index dc8aee5..51de76b 100644
--- a/src/global/Constants.h
+++ b/src/global/Constants.h
@@ -6,6 +6,8 @@
 #include <stdexcept>
 #include <string>
 
+#include "./TestableLimit.h"
+
 static const size_t STXXL_MEMORY_TO_USE = 1024L * 1024L * 1024L * 2L;
 static const size_t STXXL_DISK_SIZE_INDEX_BUILDER = 1000 * 1000;
 static const size_t STXXL_DISK_SIZE_INDEX_TEST = 10;
@@ -29,12 +31,14 @@ static const size_t MAX_NOF_FILTERS = 64;
 
 static const size_t BUFFER_SIZE_RELATION_SIZE = 1000 * 1000 * 1000;
 static const size_t BUFFER_SIZE_DOCSFILE_LINE = 1024 * 1024 * 100;
-static const size_t DISTINCT_LHS_PER_BLOCK = 10 * 1000;
-static const size_t USE_BLOCKS_INDEX_SIZE_TRESHOLD = 20 * 1000;
+static const size_t DISTINCT_LHS_PER_BLOCK =
+    TESTABLE_LIMIT("DISTINCT_LHS_PER_BLOCK", 10 * 1000);
+static const size_t USE_BLOCKS_INDEX_SIZE_TRESHOLD =
+    TESTABLE_LIMIT("USE_BLOCKS_INDEX_SIZE_TRESHOLD", 20 * 1000);
 
 static const size_t TEXT_PREDICATE_CARDINALITY_ESTIMATE = 1000 * 1000 * 1000;
 
-static const size_t GALLOP_THRESHOLD = 1000;
+static const size_t GALLOP_THRESHOLD = TESTABLE_LIMIT("GALLOP_THRESHOLD", 1000);
 
 static const char CONTAINS_ENTITY_PREDICATE[] =
     "<QLever-internal-function/contains-entity>";
diff --git a/src/global/TestableLimit.h b/src/global/TestableLimit.h
new file mode 100644
index 0000000..a29254b
--- /dev/null
+++ b/src/global/TestableLimit.h
@@ -0,0 +1,18 @@
+#pragma once
+
+// Some code only runs when a limit is exceeded that is far too big for a test.
+// If QLEVER_TESTABLE_LIMITS is defined, such a limit can be changed via the
+// environment variable QLEVER_<name>. Otherwise it is just the default value.
+#ifdef QLEVER_TESTABLE_LIMITS
+#include <cstddef>
+#include <cstdlib>
+
+inline size_t testableLimit(const char* variable, size_t defaultValue) {
+  const char* value = std::getenv(variable);
+  return value ? static_cast<size_t>(std::strtoull(value, nullptr, 10))
+               : defaultValue;
+}
+#define TESTABLE_LIMIT(name, value) testableLimit("QLEVER_" name, value)
+#else
+#define TESTABLE_LIMIT(name, value) (value)
+#endif
diff --git a/src/index/ConstantsIndexCreation.h b/src/index/ConstantsIndexCreation.h
index 808eebd..7809bdb 100644
--- a/src/index/ConstantsIndexCreation.h
+++ b/src/index/ConstantsIndexCreation.h
@@ -5,6 +5,8 @@
 
 #include <string>
 
+#include "../global/TestableLimit.h"
+
 // Constants which are only used during index creation
 
 // here we store all the literals in a text file, which will be externalized.
@@ -28,11 +30,13 @@ static const size_t PARSER_BATCH_SIZE = 1000000;
 // That many triples does the turtle parser have to buffer before the call to
 // getline returns (unless our input reaches EOF). This makes parsing from
 // streams faster.
-static const size_t PARSER_MIN_TRIPLES_AT_ONCE = 100000;
+static const size_t PARSER_MIN_TRIPLES_AT_ONCE =
+    TESTABLE_LIMIT("PARSER_MIN_TRIPLES_AT_ONCE", 100000);
 
 // When reading from a file, Chunks of this size will
 // be fed to the parser at once (100 << 20  is exactly 100 MiB
-static const size_t FILE_BUFFER_SIZE = 100 << 20;
+static const size_t FILE_BUFFER_SIZE =
+    TESTABLE_LIMIT("FILE_BUFFER_SIZE", 100 << 20);
 
 // When the BZIP2 parser encouters a parsing exception it will increase its
 // buffer and try again (we have no other way currently to determine if the
diff --git a/src/index/VocabularyGenerator.h b/src/index/VocabularyGenerator.h
index 41e5af5..fad9928 100644
--- a/src/index/VocabularyGenerator.h
+++ b/src/index/VocabularyGenerator.h
@@ -102,7 +102,7 @@ class VocabularyMerger {
   Id _langPredLowerBound = 0;
   Id _langPredUpperBound = 0;
 
-  const size_t _bufferSize = 10000000;
+  const size_t _bufferSize = TESTABLE_LIMIT("VOCABULARY_BUFFER_SIZE", 10000000);
 
   // inner helper function for the parallel pipeline. perform the actual write
   // to the IdPairVecs. Format of argument is <vecToWriteTo<internalId,
-- 
2.43.0


From ddf7bab1f27d09b589f934f4f75aa203d54d4bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:15:49 +0000
Subject: [PATCH 35/55] fix: read on if a dot near the end of a block might not
 end the statement

---
 src/parser/TurtleParser.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parser/TurtleParser.cpp b/src/parser/TurtleParser.cpp
index 49e8081..b5ecf8e 100644
--- a/src/parser/TurtleParser.cpp
+++ b/src/parser/TurtleParser.cpp
@@ -616,9 +616,11 @@ bool TurtleStreamParser<T>::getLine(std::array<string, 3>* triple) {
         // variable parsedStatement will be true iff a statement can
         // successfully be parsed
         parsedStatement = this->statement();
-        // If a dot is the last byte of the buffer, it might also belong to a
-        // number or a prefixed name that continues in the next block.
-        if (parsedStatement && _tok.view().empty()) {
+        // If there is no whitespace between the dot and the end of the buffer,
+        // the dot might also belong to a number or a prefixed name that
+        // continues in the next block.
+        if (parsedStatement &&
+            _tok.view().find_first_of(" \t\r\n") == std::string_view::npos) {
           resetStateAndRead(&b);
           continue;
         }
-- 
2.43.0


From 2ae44dba26b572ed015c3c150b2202f560360707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:35:35 +0000
Subject: [PATCH 36/55] fix: do not read beyond the block if a scan finds no
 match in it

---
 src/index/Index.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/index/Index.cpp b/src/index/Index.cpp
index 8c6f792..ae79aa5 100644
--- a/src/index/Index.cpp
+++ b/src/index/Index.cpp
@@ -1151,7 +1151,7 @@ void Index::scanFunctionalRelation(const pair<off_t, size_t>& blockOff,
   auto it = std::lower_bound(
       block.begin(), block.end(), lhsId,
       [](const array<Id, 2>& elem, Id key) { return elem[0] < key; });
-  if ((*it)[0] == lhsId) {
+  if (it != block.end() && (*it)[0] == lhsId) {
     result->push_back({(*it)[1]});
   }
   LOG(TRACE) << "Read " << result->size() << " RHS.\n";
@@ -1176,7 +1176,7 @@ void Index::scanNonFunctionalRelation(const pair<off_t, size_t>& blockOff,
   auto it = std::lower_bound(
       block.begin(), block.end(), lhsId,
       [](const pair<Id, off_t>& elem, Id key) { return elem.first < key; });
-  if (it->first == lhsId) {
+  if (it != block.end() && it->first == lhsId) {
     size_t nofBytes = 0;
     if ((it + 1) != block.end()) {
       LOG(TRACE) << "Obtained upper bound from same block!\n";
-- 
2.43.0


From daaae56cd6f4b78d334b8df0f2ad2d4d5a301cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:09:56 +0000
Subject: [PATCH 37/55] fix: end the excerpt of a text record at the end of the
 documents

The excerpt was searched for beyond the last document, and a read at the
end of a file was repeated forever.
---
 src/index/DocsDB.cpp | 10 ++++++++--
 src/util/File.h      |  4 ++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/index/DocsDB.cpp b/src/index/DocsDB.cpp
index a09c411..bb20c48 100644
--- a/src/index/DocsDB.cpp
+++ b/src/index/DocsDB.cpp
@@ -19,15 +19,21 @@ void DocsDB::init(const string& fileName) {
 
 // _____________________________________________________________________________
 string DocsDB::getTextExcerpt(Id cid) const {
+  if (cid >= _size) {
+    // There is no document for this context.
+    return "";
+  }
   off_t ft[2];
   off_t& from = ft[0];
   off_t& to = ft[1];
   off_t at = _startOfOffsets + cid * sizeof(off_t);
   at += _dbFile.read(ft, sizeof(ft), at);
-  while (to == from) {
+  // The offset after the last context is the last one in the file.
+  const off_t endOfOffsets = _startOfOffsets + (_size + 1) * sizeof(off_t);
+  while (to == from && at < endOfOffsets) {
     at += _dbFile.read(&to, sizeof(off_t), at);
   }
-  assert(to > from);
+  assert(to >= from);
   size_t nofBytes = static_cast<size_t>(to - from);
   string line(nofBytes, '\0');
   _dbFile.read(line.data(), nofBytes, from);
diff --git a/src/util/File.h b/src/util/File.h
index 593529d..d0c65e5 100644
--- a/src/util/File.h
+++ b/src/util/File.h
@@ -212,6 +212,10 @@ class File {
       if (ret < 0) {
         return ret;
       }
+      if (ret == 0) {
+        // The end of the file has been reached.
+        break;
+      }
       bytesRead += ret;
     }
     return bytesRead;
-- 
2.43.0


From b1c72bfbce781a8f4d0a71945817aa6817878680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:10:12 +0000
Subject: [PATCH 38/55] fix: reject malformed words and docs files instead of
 misreading them

The format of the lines was only checked by assertions. Lines that are not
sorted by context id made the compression of the lists run forever.
---
 src/index/Index.Text.cpp         | 15 ++++++++++++---
 src/parser/ContextFileParser.cpp | 21 ++++++++++++++-------
 src/parser/ContextFileParser.h   |  4 +---
 src/util/File.h                  | 11 ++++++++---
 4 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/src/index/Index.Text.cpp b/src/index/Index.Text.cpp
index dfb0146..33d17b1 100644
--- a/src/index/Index.Text.cpp
+++ b/src/index/Index.Text.cpp
@@ -38,11 +38,21 @@ void Index::buildDocsDB(const string& docsFileName) {
   OffVec offsets;
   off_t currentOffset = 0;
   Id currentContextId = 0;
-  char* buf = new char[BUFFER_SIZE_DOCSFILE_LINE];
+  std::unique_ptr<char[]> buf(new char[BUFFER_SIZE_DOCSFILE_LINE]);
   string line;
-  while (docsFile.readLine(&line, buf, BUFFER_SIZE_DOCSFILE_LINE)) {
+  while (docsFile.readLine(&line, buf.get(), BUFFER_SIZE_DOCSFILE_LINE)) {
     size_t tab = line.find('\t');
+    if (tab == string::npos) {
+      AD_THROW(ad_semsearch::Exception::BAD_INPUT,
+               "Line in docs file does not have the format "
+               "<context id>\\t<text>: " +
+                   line);
+    }
     Id contextId = static_cast<Id>(atol(line.substr(0, tab).c_str()));
+    if (contextId < currentContextId || contextId >= (1ul << 60)) {
+      AD_THROW(ad_semsearch::Exception::BAD_INPUT,
+               "The docs file has to be sorted by context id: " + line);
+    }
     line = line.substr(tab + 1);
     ofs << line;
     while (currentContextId < contextId) {
@@ -55,7 +65,6 @@ void Index::buildDocsDB(const string& docsFileName) {
   }
   offsets.push_back(currentOffset);
 
-  delete[] buf;
   ofs.close();
   // Now append the tmp file to the docsDB file.
   ad_utility::File out(string(_onDiskBase + ".text.docsDB").c_str(), "a");
diff --git a/src/parser/ContextFileParser.cpp b/src/parser/ContextFileParser.cpp
index 700f250..6b3cf15 100644
--- a/src/parser/ContextFileParser.cpp
+++ b/src/parser/ContextFileParser.cpp
@@ -20,24 +20,31 @@ bool ContextFileParser::getLine(ContextFileParser::Line& line) {
   string l;
   if (std::getline(_in, l)) {
     size_t i = l.find('\t');
-    assert(i != string::npos);
-    size_t j = i + 2;
-    assert(j + 3 < l.size());
-    size_t k = l.find('\t', j + 2);
-    assert(k != string::npos);
+    size_t j = i == string::npos ? i : l.find('\t', i + 1);
+    size_t k = j == string::npos ? j : l.find('\t', j + 1);
+    if (k == string::npos || j != i + 2) {
+      AD_THROW(ad_semsearch::Exception::BAD_INPUT,
+               "Line in ContextFile does not have the format "
+               "<word>\\t<0|1>\\t<context id>\\t<score>: " +
+                   l);
+    }
     line._isEntity = (l[i + 1] == '1');
     line._word =
         (line._isEntity ? l.substr(0, i)
                         : _localeManager.getLowercaseUtf8(l.substr(0, i)));
     line._contextId = static_cast<Id>(atol(l.substr(j + 1, k - j - 1).c_str()));
     line._score = static_cast<Score>(atol(l.substr(k + 1).c_str()));
-#ifndef NDEBUG
+    // The lists of context ids can only be compressed if they are ascending
+    // and do not need more than 60 bits.
     if (_lastCId > line._contextId) {
       AD_THROW(ad_semsearch::Exception::BAD_INPUT,
                "ContextFile has to be sorted by context Id.");
     }
+    if (line._contextId >= (1ul << 60)) {
+      AD_THROW(ad_semsearch::Exception::BAD_INPUT,
+               "Context id in ContextFile is too large: " + l);
+    }
     _lastCId = line._contextId;
-#endif
     return true;
   }
   return false;
diff --git a/src/parser/ContextFileParser.h b/src/parser/ContextFileParser.h
index 60f44fa..6825009 100644
--- a/src/parser/ContextFileParser.h
+++ b/src/parser/ContextFileParser.h
@@ -35,9 +35,7 @@ class ContextFileParser {
 
  private:
   std::ifstream _in;
-#ifndef NDEBUG
-  // Only used for sanity checks in debug builds
+  // Only used for sanity checks
   size_t _lastCId = 0;
-#endif
   LocaleManager _localeManager;
 };
diff --git a/src/util/File.h b/src/util/File.h
index d0c65e5..a690152 100644
--- a/src/util/File.h
+++ b/src/util/File.h
@@ -132,11 +132,16 @@ class File {
   bool readLine(string* line, char* buf, size_t bufferSize) {
     assert(_file);
     char* retVal = fgets(buf, bufferSize, _file);
+    if (!retVal) {
+      // Nothing was written to the buffer.
+      line->clear();
+      return false;
+    }
     size_t stringLength = strlen(buf);
-    if (retVal && stringLength > 0 && buf[stringLength - 1] == '\n') {
+    if (stringLength > 0 && buf[stringLength - 1] == '\n') {
       // Remove the trailing \n
       buf[stringLength - 1] = 0;
-    } else if (retVal && !isAtEof()) {
+    } else if (!isAtEof()) {
       // Stopped inside a line because the end of the buffer was reached.
       AD_THROW(ad_semsearch::Exception::INVALID_PARAMETER_VALUE,
                "Buffer too small when reading from file: " + _name +
@@ -144,7 +149,7 @@ class File {
                    "Or the line contains a 0 character.");
     }
     *line = buf;
-    return retVal;
+    return true;
   }
 
   // write to current file pointer position
-- 
2.43.0


From 216d06cae3d74701d9201604b450a28f3a590ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:04:28 +0000
Subject: [PATCH 39/55] fix: write the right columns if a text search with
 several entities is filtered

The column of one entity stayed uninitialized if the filter had one column.
---
 src/index/FTSAlgorithms.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/index/FTSAlgorithms.cpp b/src/index/FTSAlgorithms.cpp
index 356a758..0361b70 100644
--- a/src/index/FTSAlgorithms.cpp
+++ b/src/index/FTSAlgorithms.cpp
@@ -1307,7 +1307,7 @@ void FTSAlgorithms::multVarsFilterAggScoresAndTakeTopKContexts(
       result(n, 1) = rscore;
       size_t off = 2;
       for (size_t i = 1; i < keyEids.size(); i++) {
-        result(n, 2 + i) = keyEids[i];
+        result(n, off) = keyEids[i];
         off++;
       }
       result(n, off) = keyEids[0];
-- 
2.43.0


From f3e6bb72cde8b70340125c66e977013bcd91114d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:04:28 +0000
Subject: [PATCH 40/55] fix: keep the column types of the filter of a text
 operation

Text records and scores of another text operation were printed as entities.
---
 src/engine/TextOperationWithFilter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/engine/TextOperationWithFilter.cpp b/src/engine/TextOperationWithFilter.cpp
index 886b0a8..148107d 100644
--- a/src/engine/TextOperationWithFilter.cpp
+++ b/src/engine/TextOperationWithFilter.cpp
@@ -88,9 +88,13 @@ void TextOperationWithFilter::computeResult(ResultTable* result) {
   result->_resultTypes.reserve(result->_data.cols());
   result->_resultTypes.push_back(ResultTable::ResultType::TEXT);
   result->_resultTypes.push_back(ResultTable::ResultType::VERBATIM);
-  for (size_t i = 2; i < result->_data.cols(); i++) {
+  for (size_t i = 1; i < getNofVars(); i++) {
     result->_resultTypes.push_back(ResultTable::ResultType::KB);
   }
+  for (size_t i = 0; i < filterResult->_data.cols(); i++) {
+    result->_resultTypes.push_back(filterResult->getResultType(i));
+  }
+  result->_localVocab = filterResult->_localVocab;
   if (filterResult->_data.cols() == 1) {
     getExecutionContext()->getIndex().getFilteredECListForWordsWidthOne(
         _words, filterResult->_data, getNofVars(), _textLimit, &result->_data);
-- 
2.43.0


From e49619d6540e97215fc3968c2b6c7b94951f9e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:04:28 +0000
Subject: [PATCH 41/55] fix: tell blocks of words and entities of the text
 index apart by their number

The block of an entity was taken for a block of words if its id happened to
follow the last word id. Looking up an entity behind all others read beyond
the list of blocks.
---
 src/index/TextMetaData.cpp | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/index/TextMetaData.cpp b/src/index/TextMetaData.cpp
index ca86272..fc4e592 100644
--- a/src/index/TextMetaData.cpp
+++ b/src/index/TextMetaData.cpp
@@ -53,7 +53,7 @@ bool TextMetaData::existsTextBlockForEntityId(const Id eid) const {
   vector<Id>::const_iterator it = std::lower_bound(
       _blockUpperBoundEntityIds.begin(), _blockUpperBoundEntityIds.end(), eid);
 
-  return (*it == eid);
+  return it != _blockUpperBoundEntityIds.end() && *it == eid;
 }
 
 // _____________________________________________________________________________
@@ -102,25 +102,21 @@ ad_utility::File& operator<<(ad_utility::File& f, const TextMetaData& md) {
 TextMetaData& TextMetaData::createFromByteBuffer(unsigned char* buffer) {
   size_t nofBlocks = *reinterpret_cast<size_t*>(buffer);
   off_t offset = sizeof(size_t);
-  bool stepEntity = false;
+  // The blocks of words are followed by exactly one block for each entity.
+  _nofEntities = *reinterpret_cast<size_t*>(
+      buffer + offset + nofBlocks * TextBlockMetaData::sizeOnDisk());
+  AD_CHECK_LE(_nofEntities, nofBlocks);
   for (size_t i = 0; i < nofBlocks; ++i) {
     TextBlockMetaData tbmd;
     tbmd.createFromByteBuffer(buffer + offset);
     offset += TextBlockMetaData::sizeOnDisk();
-    if (!stepEntity) {
-      if (_blocks.size() == 0 ||
-          _blocks.back()._lastWordId + 1 == tbmd._firstWordId) {
-        _blockUpperBoundWordIds.push_back(tbmd._lastWordId);
-      } else {
-        stepEntity = true;
-        _blockUpperBoundEntityIds.push_back(tbmd._lastWordId);
-      }
+    if (i < nofBlocks - _nofEntities) {
+      _blockUpperBoundWordIds.push_back(tbmd._lastWordId);
     } else {
       _blockUpperBoundEntityIds.push_back(tbmd._lastWordId);
     }
     _blocks.emplace_back(tbmd);
   }
-  _nofEntities = *reinterpret_cast<size_t*>(buffer + offset);
   offset += sizeof(_nofEntities);
   _nofEntityContexts = *reinterpret_cast<size_t*>(buffer + offset);
   offset += sizeof(_nofEntityContexts);
-- 
2.43.0


From 9d575a44f448f9f5aa65c36506c896a8a086fed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:04:28 +0000
Subject: [PATCH 42/55] fix: answer text searches for entities and words
 without co-occurrences

Do not add postings for lines that do not lead to any, check whether fixed
entities and prefixes occur in the text, accept words that never occur
together with an entity and add up the scores of both words.
---
 src/index/Index.Text.cpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/index/Index.Text.cpp b/src/index/Index.Text.cpp
index 33d17b1..15f101e 100644
--- a/src/index/Index.Text.cpp
+++ b/src/index/Index.Text.cpp
@@ -17,7 +17,8 @@ void Index::addTextFromContextFile(const string& contextFile) {
   size_t nofLines = passContextFileForVocabulary(contextFile);
   _textVocab.writeToFile(_onDiskBase + ".text.vocabulary");
   calculateBlockBoundaries();
-  TextVec v(nofLines);
+  TextVec v;
+  v.reserve(nofLines);
   passContextFileIntoVector(contextFile, v);
   LOG(INFO) << "Sorting text index with " << v.size() << " items ..."
             << std::endl;
@@ -557,7 +558,7 @@ void Index::getContextListForWords(const string& words,
     }
     if (cidVecs.size() == 2) {
       FTSAlgorithms::intersectTwoPostingLists(
-          cidVecs[0], scoreVecs[1], cidVecs[1], scoreVecs[1], cids, scores);
+          cidVecs[0], scoreVecs[0], cidVecs[1], scoreVecs[1], cids, scores);
     } else {
       vector<Id> dummy;
       FTSAlgorithms::intersectKWay(cidVecs, scoreVecs, nullptr, cids, dummy,
@@ -825,11 +826,19 @@ void Index::getEntityPostingsForTerm(const string& term, vector<Id>& cids,
     }
     idRange._last = idRange._first;
   }
+  if (entityTerm && !_textMeta.existsTextBlockForEntityId(idRange._first)) {
+    LOG(DEBUG) << "Entity " << term << " not contained in the text.\n";
+    return;
+  }
   const auto& tbmd =
       entityTerm
           ? _textMeta.getBlockInfoByEntityId(idRange._first)
           : _textMeta.getBlockInfoByWordRange(idRange._first, idRange._last);
 
+  if (tbmd._entityCl._nofElements == 0) {
+    // There are no entities in the contexts of this block.
+    return;
+  }
   if (!tbmd._cl.hasMultipleWords() || (tbmd._firstWordId == idRange._first &&
                                        tbmd._lastWordId == idRange._last)) {
     // CASE: Only one word in the block or full block should be matched.
@@ -1177,13 +1186,19 @@ size_t Index::getIndexOfBestSuitedElTerm(const vector<string>& terms) const {
     bool entityTerm = (terms[i][0] == '<' && terms[i].back() == '>');
     IdRange range;
     if (terms[i].back() == PREFIX_CHAR) {
-      _textVocab.getIdRangeForFullTextPrefix(terms[i], &range);
+      if (!_textVocab.getIdRangeForFullTextPrefix(terms[i], &range)) {
+        LOG(DEBUG) << "Prefix: " << terms[i] << " not in vocabulary\n";
+        return i;
+      }
     } else {
       if (entityTerm) {
         if (!_vocab.getId(terms[i], &range._first)) {
           LOG(DEBUG) << "Term: " << terms[i] << " not in entity vocabulary\n";
           return i;
-        } else {
+        }
+        if (!_textMeta.existsTextBlockForEntityId(range._first)) {
+          LOG(DEBUG) << "Entity " << terms[i] << " not in the text\n";
+          return i;
         }
       } else if (!_textVocab.getId(terms[i], &range._first)) {
         LOG(DEBUG) << "Term: " << terms[i] << " not in vocabulary\n";
@@ -1394,6 +1409,10 @@ size_t Index::getSizeEstimate(const string& words) const {
           LOG(DEBUG) << "Term: " << terms[i] << " not in entity vocabulary\n";
           return 0;
         }
+        if (!_textMeta.existsTextBlockForEntityId(range._first)) {
+          LOG(DEBUG) << "Entity " << terms[i] << " not in the text\n";
+          return 0;
+        }
       } else if (!_textVocab.getId(terms[i], &range._first)) {
         LOG(DEBUG) << "Term: " << terms[i] << " not in vocabulary\n";
         return 0;
-- 
2.43.0


From 23fb50fd6adc64b8490ff90b1f2a70b50d5bc73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:28:41 +0000
Subject: [PATCH 43/55] fix: drop time zones of dates and keep literals of
 other datatypes

The time zone of dates without time was taken for a part of the day, month or
year. Literals with another datatype that ends like a supported one, for
example #integer, were changed to numbers and dates.
---
 src/util/Conversions.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/util/Conversions.h b/src/util/Conversions.h
index b5595b4..b947dd7 100644
--- a/src/util/Conversions.h
+++ b/src/util/Conversions.h
@@ -111,8 +111,8 @@ string convertValueLiteralToIndexWord(const string& orig) {
    * 0) "123"^^<http://www.w3.org/2001/XMLSchema#integer>
    * 1) "123"^^xsd:integer
    *
-   * TODO: This ignores the URI such that xsd:integer == foo:integer ==
-   * <http://baz#integer>
+   * Literals with other full URIs, e.g. <http://baz#integer>, are not changed.
+   * TODO: This ignores the prefix such that xsd:integer == foo:integer
    */
   assert(orig.size() > 0);
   assert(orig[0] == '\"');
@@ -124,11 +124,14 @@ string convertValueLiteralToIndexWord(const string& orig) {
   // not an end position
   value = orig.substr(1, posOfSecondQuote - 1);
   if (orig[orig.size() - 1] == '>') {
-    size_t posOfHashTag = orig.rfind('#');
-    assert(posOfHashTag != string::npos);
+    const string xsdPrefix = "^^<http://www.w3.org/2001/XMLSchema#";
+    if (orig.compare(posOfSecondQuote + 1, xsdPrefix.size(), xsdPrefix) != 0) {
+      return orig;
+    }
+    size_t posOfType = posOfSecondQuote + 1 + xsdPrefix.size();
 
-    // +2 for '>' and Hashtag
-    type = orig.substr(posOfHashTag + 1, orig.size() - (posOfHashTag + 2));
+    // +1 for '>'
+    type = orig.substr(posOfType, orig.size() - (posOfType + 1));
   } else {
     size_t posOfDoubleDot = orig.rfind(':');
     if (posOfDoubleDot == string::npos) {
@@ -377,6 +380,10 @@ string normalizeDate(const string& orig) {
   size_t posOfZ = value.find('Z');
   if (posOfZ != string::npos) {
     value = value.substr(0, posOfZ);
+  } else if (value.size() > 6 && value[value.size() - 3] == ':' &&
+             (value[value.size() - 6] == '+' ||
+              value[value.size() - 6] == '-')) {
+    value = value.substr(0, value.size() - 6);
   }
   // Find the possible start of time information.
   size_t posOfT = value.find('T');
-- 
2.43.0


From 894eb8b916abecea9cb17fa16d5a4cacfabc311f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:28:41 +0000
Subject: [PATCH 44/55] fix: order dates with negative years independently of
 the locale

With ignored punctuation, negative years were ordered after positive ones.
---
 src/index/StringSortComparator.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/index/StringSortComparator.h b/src/index/StringSortComparator.h
index cc4716d..f3fe50c 100644
--- a/src/index/StringSortComparator.h
+++ b/src/index/StringSortComparator.h
@@ -564,6 +564,12 @@ class TripleComponentComparator {
       return res;  // different data types, decide on the datatype
     }
 
+    // The words of numbers and dates are made for being compared by bytes,
+    // locales do for example not have to care about the sign of a year.
+    if (isValue(a.firstOriginalChar)) {
+      return a.transformedVal.compare(b.transformedVal);
+    }
+
     if (int res =
             // this correctly dispatches between SortKeys (already transformed)
             // and string_views (not-transformed, perform unicode collation)
@@ -633,6 +639,11 @@ class TripleComponentComparator {
   LocaleManager _locManager;
   Level _defaultLevel = Level::IDENTICAL;
 
+  // Does a word with this first character stand for a number or date?
+  [[nodiscard]] static bool isValue(char firstOriginalChar) {
+    return firstOriginalChar == VALUE_PREFIX[0];
+  }
+
   /* Split a string into its components to prepare collation.
    * SplitValType = SplitVal will transform the inner string according to the
    * locale SplitValTye = SplitValNonOwning will leave the inner string as is.
@@ -663,7 +674,10 @@ class TripleComponentComparator {
       }
     }
     if constexpr (std::is_same_v<SplitValType, SplitVal>) {
-      return {first, _locManager.getSortKey(res, level), std::string(langtag)};
+      return {first,
+              isValue(first) ? LocaleManager::SortKey(res)
+                             : _locManager.getSortKey(res, level),
+              std::string(langtag)};
     } else if constexpr (std::is_same_v<SplitValType, SplitValNonOwning>) {
       return {first, res, langtag};
     } else {
-- 
2.43.0


From 8c9e9d7731e700a8c2332f13a16676ace4d090e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:30:43 +0000
Subject: [PATCH 45/55] Let tests choose the unit of the server's limits if
 QLEVER_TESTABLE_LIMITS is defined

---
 src/engine/Server.h    | 6 +++---
 src/global/Constants.h | 3 +++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/engine/Server.h b/src/engine/Server.h
index 57c40a1..b0bf418 100644
--- a/src/engine/Server.h
+++ b/src/engine/Server.h
@@ -32,10 +32,10 @@ class Server {
       : _numThreads(numThreads),
         _serverSocket(),
         _port(port),
-        _cache(cacheMaxNumEntries, cacheMaxSizeGB * (1ull << 30u) / sizeof(Id),
-               cacheMaxSizeGBSingleEntry * (1ull << 30u) / sizeof(Id)),
+        _cache(cacheMaxNumEntries, cacheMaxSizeGB * BYTES_PER_GB / sizeof(Id),
+               cacheMaxSizeGBSingleEntry * BYTES_PER_GB / sizeof(Id)),
         _allocator(ad_utility::makeAllocationMemoryLeftThreadsafeObject(
-            maxMemGB * (1ull << 30u))),
+            maxMemGB * BYTES_PER_GB)),
         _sortPerformanceEstimator(),
         _index(),
         _engine(),
diff --git a/src/global/Constants.h b/src/global/Constants.h
index 51de76b..4db50c8 100644
--- a/src/global/Constants.h
+++ b/src/global/Constants.h
@@ -12,6 +12,9 @@ static const size_t STXXL_MEMORY_TO_USE = 1024L * 1024L * 1024L * 2L;
 static const size_t STXXL_DISK_SIZE_INDEX_BUILDER = 1000 * 1000;
 static const size_t STXXL_DISK_SIZE_INDEX_TEST = 10;
 
+// The unit of the limits for the memory and the cache of the server.
+static const size_t BYTES_PER_GB = TESTABLE_LIMIT("BYTES_PER_GB", 1ull << 30u);
+
 static constexpr size_t DEFAULT_MEM_FOR_QUERIES_IN_GB = 4;
 
 static const size_t DEFAULT_CACHE_MAX_NUM_ENTRIES = 1000;
-- 
2.43.0


From 9f0a5f66fa6b35f9df1b57b36499c47af16b6484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:41:39 +0000
Subject: [PATCH 46/55] fix: escape the names of the indexes in the statistics
 of the server

---
 src/engine/Server.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/engine/Server.cpp b/src/engine/Server.cpp
index 288e012..e11ba32 100644
--- a/src/engine/Server.cpp
+++ b/src/engine/Server.cpp
@@ -496,7 +496,7 @@ void Server::serveFile(Socket* client, const string& requestedFile) const {
 string Server::composeStatsJson() const {
   std::ostringstream os;
   os << "{\n"
-     << "\"kbindex\": \"" << _index.getKbName() << "\",\n"
+     << "\"kbindex\": " << dumpJson(_index.getKbName()) << ",\n"
      << "\"permutations\": \"" << (_index.hasAllPermutations() ? "6" : "2")
      << "\",\n";
   if (_index.hasAllPermutations()) {
@@ -506,7 +506,7 @@ string Server::composeStatsJson() const {
   }
 
   os << "\"noftriples\": \"" << _index.getNofTriples() << "\",\n"
-     << "\"textindex\": \"" << _index.getTextName() << "\",\n"
+     << "\"textindex\": " << dumpJson(_index.getTextName()) << ",\n"
      << "\"nofrecords\": \"" << _index.getNofTextRecords() << "\",\n"
      << "\"nofwordpostings\": \"" << _index.getNofWordPostings() << "\",\n"
      << "\"nofentitypostings\": \"" << _index.getNofEntityPostings() << "\"\n"
-- 
2.43.0


From 5f625c70023315cba54c6fb6921a539ecd738917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:41:39 +0000
Subject: [PATCH 47/55] fix: do not count an empty text record if the first
 record's id is not zero

---
 src/index/Index.Text.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/index/Index.Text.cpp b/src/index/Index.Text.cpp
index 15f101e..6a0856a 100644
--- a/src/index/Index.Text.cpp
+++ b/src/index/Index.Text.cpp
@@ -156,6 +156,9 @@ void Index::passContextFileIntoVector(const string& contextFile,
 
   size_t entityNotFoundErrorMsgCount = 0;
   while (p.getLine(line)) {
+    if (i == 0) {
+      currentContext = line._contextId;
+    }
     if (line._contextId != currentContext) {
       ++nofContexts;
       addContextToVector(writer, currentContext, wordsInContext,
-- 
2.43.0


From 19874b9dd9a5dd537c4dcb20de2a2daca64ceae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:41:39 +0000
Subject: [PATCH 48/55] fix: store the name of the knowledge base in the index

---
 src/index/Index.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/index/Index.cpp b/src/index/Index.cpp
index ae79aa5..24adbb3 100644
--- a/src/index/Index.cpp
+++ b/src/index/Index.cpp
@@ -495,6 +495,8 @@ void Index::createPermutationPair(
     exchangeMultiplicities(&(metaData.value().first),
                            &(metaData.value().second));
     LOG(INFO) << "Done" << '\n';
+    metaData.value().first.setName(getKbName());
+    metaData.value().second.setName(getKbName());
     LOG(INFO) << "Writing MetaData for " << p1._readableName << " and "
               << p2._readableName << std::endl;
     ad_utility::File f1(_onDiskBase + ".index" + p1._fileSuffix, "r+");
-- 
2.43.0


From 40961b1e2267e716c255af73d890bb20c13596d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:49:07 +0000
Subject: [PATCH 49/55] fix: give equal concatenations of groups the same id

---
 src/engine/GroupBy.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/engine/GroupBy.cpp b/src/engine/GroupBy.cpp
index 5debb99..586eca7 100644
--- a/src/engine/GroupBy.cpp
+++ b/src/engine/GroupBy.cpp
@@ -6,6 +6,7 @@
 
 #include "../index/Index.h"
 #include "../util/Conversions.h"
+#include "../util/HashMap.h"
 #include "../util/HashSet.h"
 #include "CallFixedSize.h"
 
@@ -722,6 +723,18 @@ void GroupBy::computeResult(ResultTable* result) {
                       inputResultTypes, groupByCols, aggregates, &result->_data,
                       subresult.get(), result, getIndex());
     cleanup();
+    // Equal concatenations have to have the same id, because values are
+    // compared by their ids.
+    ad_utility::HashMap<std::string_view, Id> concatenations;
+    for (const Aggregate& a : aggregates) {
+      if (a._type == ParsedQuery::AggregateType::GROUP_CONCAT) {
+        for (size_t row = 0; row < result->_data.rows(); row++) {
+          Id& id = result->_data(row, a._outCol);
+          id = concatenations.try_emplace((*result->_localVocab)[id], id)
+                   .first->second;
+        }
+      }
+    }
     LOG(DEBUG) << "GroupBy result computation done." << std::endl;
   } catch (...) {
     cleanup();
-- 
2.43.0


From b85d034e9801c590ec309199f019f82f341ce6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:53:07 +0000
Subject: [PATCH 50/55] Let tests choose the number of patterns if
 QLEVER_TESTABLE_LIMITS is defined

---
 src/index/Index.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/index/Index.cpp b/src/index/Index.cpp
index 24adbb3..3a6d2b1 100644
--- a/src/index/Index.cpp
+++ b/src/index/Index.cpp
@@ -11,6 +11,7 @@
 #include <stxxl/map>
 #include <unordered_map>
 
+#include "../global/TestableLimit.h"
 #include "../parser/NTriplesParser.h"
 #include "../parser/ParallelParseBuffer.h"
 #include "../parser/RdfEscaping.h"
@@ -31,7 +32,8 @@ const uint32_t Index::PATTERNS_FILE_VERSION = 0;
 // _____________________________________________________________________________
 Index::Index()
     : _usePatterns(false),
-      _maxNumPatterns(std::numeric_limits<PatternID>::max() - 2) {}
+      _maxNumPatterns(TESTABLE_LIMIT(
+          "MAX_NUM_PATTERNS", std::numeric_limits<PatternID>::max() - 2)) {}
 
 // _____________________________________________________________________________________________
 template <class Parser>
-- 
2.43.0


From fe52b6c794c11720a461d06cbf5f3ee8d20e2560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:54:28 +0000
Subject: [PATCH 51/55] fix: keep the predicates of subjects without a pattern
 apart

---
 src/index/Index.cpp | 28 ++++------------------------
 1 file changed, 4 insertions(+), 24 deletions(-)

diff --git a/src/index/Index.cpp b/src/index/Index.cpp
index 3a6d2b1..c2183bb 100644
--- a/src/index/Index.cpp
+++ b/src/index/Index.cpp
@@ -856,18 +856,8 @@ void Index::createPatternsImpl(const string& fileName,
   vector<vector<Id>> hasPredicateTmp;
   if (entityHasPredicate.size() > 0) {
     hasPredicateTmp.resize(entityHasPredicate.back()[0] + 1);
-    size_t pos = 0;
-    for (size_t i = 0; i < entityHasPredicate.size(); i++) {
-      Id current = entityHasPredicate[i][0];
-      while (current > pos) {
-        pos++;
-      }
-      while (i < entityHasPredicate.size() &&
-             entityHasPredicate[i][0] == current) {
-        hasPredicateTmp.back().push_back(entityHasPredicate[i][1]);
-        i++;
-      }
-      pos++;
+    for (const auto& entry : entityHasPredicate) {
+      hasPredicateTmp[entry[0]].push_back(entry[1]);
     }
   }
   hasPredicate.build(hasPredicateTmp);
@@ -1074,18 +1064,8 @@ void Index::createFromOnDiskIndex(const string& onDiskBase) {
       vector<vector<Id>> hasPredicateTmp;
       if (entityHasPredicate.size() > 0) {
         hasPredicateTmp.resize(entityHasPredicate.back()[0] + 1);
-        size_t pos = 0;
-        for (size_t i = 0; i < entityHasPredicate.size(); i++) {
-          Id current = entityHasPredicate[i][0];
-          while (current > pos) {
-            pos++;
-          }
-          while (i < entityHasPredicate.size() &&
-                 entityHasPredicate[i][0] == current) {
-            hasPredicateTmp.back().push_back(entityHasPredicate[i][1]);
-            i++;
-          }
-          pos++;
+        for (const auto& entry : entityHasPredicate) {
+          hasPredicateTmp[entry[0]].push_back(entry[1]);
         }
       }
       _hasPredicate.build(hasPredicateTmp);
-- 
2.43.0


From 532adf9e0d80c1a4f4e8281768767506b6cab56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:12:20 +0000
Subject: [PATCH 52/55] fix: do not fail other queries when a result cannot be
 pinned

A result that is too big for an entry of the cache cannot be pinned. The
query that asked for the pinning reports this as an error. Other queries that
wait for or compute the same result do not want to pin it, so they now get
the result instead of the error.
---
 src/util/ConcurrentCache.h | 45 ++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/util/ConcurrentCache.h b/src/util/ConcurrentCache.h
index 1a97052..6c77ab0 100644
--- a/src/util/ConcurrentCache.h
+++ b/src/util/ConcurrentCache.h
@@ -5,6 +5,7 @@
 #ifndef QLEVER_CONCURRENTCACHE_H
 #define QLEVER_CONCURRENTCACHE_H
 #include <condition_variable>
+#include <exception>
 #include <memory>
 #include <mutex>
 #include <utility>
@@ -52,12 +53,16 @@ class ResultInProgress {
 
   // Distribute the computation results to all the threads that at some point
   // have called or will call getResult(). Check that none of the other threads
-  // waiting for the result have already finished or were aborted.
-  void finish(shared_ptr<Value> result) {
+  // waiting for the result have already finished or were aborted. The
+  // `pinningError` is not null if the result could not be pinned, it only
+  // concerns the threads that have to pin the result.
+  void finish(shared_ptr<Value> result,
+              std::exception_ptr pinningError = nullptr) {
     std::lock_guard lockGuard(_mutex);
     AD_CHECK(_status == Status::IN_PROGRESS);
     _status = Status::FINISHED;
     _result = std::move(result);
+    _pinningError = std::move(pinningError);
     _conditionVariable.notify_all();
   }
 
@@ -74,20 +79,25 @@ class ResultInProgress {
 
   // Wait for another thread to finish the computation and obtain the result.
   // If the computation is aborted, this function throws an
-  // AbortedInOtherThreadException
-  shared_ptr<const Value> getResult() {
+  // AbortedInOtherThreadException. If `pinned` is true and the result could not
+  // be pinned, this function throws the corresponding exception.
+  shared_ptr<const Value> getResult(bool pinned = false) {
     std::unique_lock uniqueLock(_mutex);
     _conditionVariable.wait(uniqueLock,
                             [this] { return _status != Status::IN_PROGRESS; });
     if (_status == ResultInProgress::Status::ABORTED) {
       throw WaitedForResultWhichThenFailedException{};
     }
+    if (pinned && _pinningError) {
+      std::rethrow_exception(_pinningError);
+    }
     return _result;
   }
 
  private:
   enum class Status { IN_PROGRESS, FINISHED, ABORTED };
   shared_ptr<const Value> _result;
+  std::exception_ptr _pinningError;
   // See this SO answer for why mutable is ok here
   // https://stackoverflow.com/questions/3239905/c-mutex-and-const-correctness
   mutable std::condition_variable _conditionVariable;
@@ -214,18 +224,26 @@ class ConcurrentCache {
   // delete the operation with the key from the hash map of the operations that
   // are in progress, and add it to the cache using the computationResult
   // Will crash if the key cannot be found in the hash map
-  void moveFromInProgressToCache(Key key, shared_ptr<Value> computationResult) {
+  // If the result has to be pinned, but this is not possible, the reason is
+  // returned (otherwise null). The result itself is valid also in this case.
+  std::exception_ptr moveFromInProgressToCache(
+      Key key, shared_ptr<Value> computationResult) {
     // Obtain a lock for the whole operation, making it atomic.
     auto lockPtr = _cacheAndInProgressMap.wlock();
     AD_CHECK(lockPtr->_inProgress.contains(key));
     bool pinned = lockPtr->_inProgress[key].first;
+    std::exception_ptr pinningError;
     if (pinned) {
-      lockPtr->_cache.insertPinned(std::move(key),
-                                   std::move(computationResult));
+      try {
+        lockPtr->_cache.insertPinned(key, std::move(computationResult));
+      } catch (...) {
+        pinningError = std::current_exception();
+      }
     } else {
       lockPtr->_cache.insert(std::move(key), std::move(computationResult));
     }
     lockPtr->_inProgress.erase(key);
+    return pinningError;
   }
 
  private:
@@ -267,14 +285,17 @@ class ConcurrentCache {
     }  // release the lock, it is not required while we are computing
     if (mustCompute) {
       LOG(TRACE) << "Not in the cache, need to compute result" << std::endl;
+      std::exception_ptr pinningError;
       try {
         // The actual computation
         shared_ptr<Value> result = make_shared<Value>(computeFunction());
-        moveFromInProgressToCache(key, result);
+        pinningError = moveFromInProgressToCache(key, result);
         // Signal other threads who are waiting for the results.
-        resultInProgress->finish(result);
+        resultInProgress->finish(result, pinningError);
         // result was not cached
-        return {std::move(result), false};
+        if (!pinned || !pinningError) {
+          return {std::move(result), false};
+        }
       } catch (...) {
         // Other threads may try this computation again in the future
         _cacheAndInProgressMap.wlock()->_inProgress.erase(key);
@@ -282,11 +303,13 @@ class ConcurrentCache {
         resultInProgress->abort();
         throw;
       }
+      // We had to pin the result, but this was not possible.
+      std::rethrow_exception(pinningError);
     } else {
       // someone else is computing the result, wait till it is finished and
       // return the result, we do not count this case as "cached" as we had to
       // wait.
-      return {resultInProgress->getResult(), false};
+      return {resultInProgress->getResult(pinned), false};
     }
   }
 
-- 
2.43.0


From d70c8d1d8d0153978424b2909697239ef81576f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:15:12 +0000
Subject: [PATCH 53/55] Let tests choose more limits if QLEVER_TESTABLE_LIMITS
 is defined

These are the size from which on a relation is buffered on disk, the number
of rows that are sent by default and the chunk size of the union.
---
 src/engine/Union.cpp               | 4 +++-
 src/global/Constants.h             | 3 ++-
 src/index/ConstantsIndexCreation.h | 3 ++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/engine/Union.cpp b/src/engine/Union.cpp
index d2da0f9..0fb34f5 100644
--- a/src/engine/Union.cpp
+++ b/src/engine/Union.cpp
@@ -2,6 +2,7 @@
 // Chair of Algorithms and Data Structures.
 // Author: Florian Kramer (florian.kramer@mail.uni-freiburg.de)
 #include "Union.h"
+#include "../global/TestableLimit.h"
 #include "CallFixedSize.h"
 
 const size_t Union::NO_COLUMN = std::numeric_limits<size_t>::max();
@@ -185,7 +186,8 @@ void Union::computeUnion(
 
   // TODO<joka921> insert global constant here
   const size_t chunkSize =
-      100000 / res.cols();  // after this many elements, check for timeouts
+      TESTABLE_LIMIT("UNION_CHUNK_SIZE", 100000) /
+      res.cols();  // after this many elements, check for timeouts
   auto checkAfterChunkSize = checkTimeoutAfterNCallsFactory(chunkSize);
 
   // Append the contents of inputTable to the result. This requires previous
diff --git a/src/global/Constants.h b/src/global/Constants.h
index 4db50c8..f3576e0 100644
--- a/src/global/Constants.h
+++ b/src/global/Constants.h
@@ -20,7 +20,8 @@ static constexpr size_t DEFAULT_MEM_FOR_QUERIES_IN_GB = 4;
 static const size_t DEFAULT_CACHE_MAX_NUM_ENTRIES = 1000;
 static const size_t DEFAULT_CACHE_MAX_SIZE_GB = 30;
 static const size_t DEFAULT_CACHE_MAX_SIZE_GB_SINGLE_ENTRY = 5;
-static const size_t MAX_NOF_ROWS_IN_RESULT = 100000;
+static const size_t MAX_NOF_ROWS_IN_RESULT =
+    TESTABLE_LIMIT("MAX_NOF_ROWS_IN_RESULT", 100000);
 static const size_t MIN_WORD_PREFIX_SIZE = 4;
 static const char PREFIX_CHAR = '*';
 static const char EXTERNALIZED_LITERALS_PREFIX_CHAR{127};
diff --git a/src/index/ConstantsIndexCreation.h b/src/index/ConstantsIndexCreation.h
index 7809bdb..94a6630 100644
--- a/src/index/ConstantsIndexCreation.h
+++ b/src/index/ConstantsIndexCreation.h
@@ -49,7 +49,8 @@ static const size_t BZIP2_MAX_TOTAL_BUFFER_SIZE = 1 << 30;
 
 // If a single relation has more than this number of triples, it will be
 // buffered into an MmapVector during the creation of the relations;
-static const size_t THRESHOLD_RELATION_CREATION = 2 << 20;
+static const size_t THRESHOLD_RELATION_CREATION =
+    TESTABLE_LIMIT("THRESHOLD_RELATION_CREATION", 2 << 20);
 
 // ________________________________________________________________
 static const std::string PARTIAL_VOCAB_FILE_NAME = ".partial-vocabulary";
-- 
2.43.0


From df29db65bab5f01139a98ded4cf254b7ce97dfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:24:42 +0000
Subject: [PATCH 54/55] fix: give the command line query program its default
 memory and patterns

The default amount of memory is a number of gigabytes but was used as a
number of bytes, so every query with a result failed.  Patterns were never
used although there is an option to disable them.
---
 src/SparqlEngineMain.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SparqlEngineMain.cpp b/src/SparqlEngineMain.cpp
index 4254297..13759fc 100644
--- a/src/SparqlEngineMain.cpp
+++ b/src/SparqlEngineMain.cpp
@@ -84,7 +84,7 @@ int main(int argc, char** argv) {
   bool text = false;
   bool interactive = false;
   bool onDiskLiterals = false;
-  bool usePatterns = false;
+  bool usePatterns = true;
 
   optind = 1;
   // Process command line arguments.
@@ -153,7 +153,7 @@ int main(int argc, char** argv) {
 
     ad_utility::AllocatorWithLimit<Id> allocator{
         ad_utility::makeAllocationMemoryLeftThreadsafeObject(
-            DEFAULT_MEM_FOR_QUERIES_IN_GB)};
+            DEFAULT_MEM_FOR_QUERIES_IN_GB * BYTES_PER_GB)};
 
     SortPerformanceEstimator sortPerformanceEstimator;
     QueryExecutionContext qec(index, engine, &cache, &pinnedSizes, allocator,
-- 
2.43.0


From 4312b95549107cd7eb8a8a00d799bdeccc1b5688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:24:42 +0000
Subject: [PATCH 55/55] fix: escape literals when writing N-Triples

The parsers unescape literals, so quotes, backslashes and newlines have to be
escaped again when the triples are written.
---
 src/TurtleParserMain.cpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/TurtleParserMain.cpp b/src/TurtleParserMain.cpp
index 54be8ae..ab936a1 100644
--- a/src/TurtleParserMain.cpp
+++ b/src/TurtleParserMain.cpp
@@ -12,6 +12,30 @@
 #include "./parser/TurtleParser.h"
 #include "./util/Log.h"
 
+// The parsers unescape the content of literals. Escape the characters that are
+// not allowed inside the quotes of a literal in N-Triples.
+std::string escapeLiteral(const std::string& term) {
+  if (!ad_utility::startsWith(term, "\"")) {
+    return term;
+  }
+  size_t posOfLastQuote = term.rfind('"');
+  std::string res;
+  for (size_t i = 0; i < term.size(); ++i) {
+    bool isContent = i > 0 && i < posOfLastQuote;
+    if (isContent && term[i] == '\n') {
+      res += "\\n";
+    } else if (isContent && term[i] == '\r') {
+      res += "\\r";
+    } else {
+      if (isContent && (term[i] == '"' || term[i] == '\\')) {
+        res += '\\';
+      }
+      res += term[i];
+    }
+  }
+  return res;
+}
+
 /**
  * @brief Instantiate a Parser that parses filename and writes the resulting
  * triples to argument out.
@@ -28,7 +52,8 @@ void writeNTImpl(std::ostream& out, const std::string& filename) {
   // this call by reference is necesary because of the TSV-Parsers interface
   size_t numTriples = 0;
   while (p.getLine(triple)) {
-    out << triple[0] << " " << triple[1] << " " << triple[2] << " .\n";
+    out << triple[0] << " " << triple[1] << " " << escapeLiteral(triple[2])
+        << " .\n";
     numTriples++;
     if (numTriples % 10000000 == 0) {
       LOG(INFO) << "Parsed " << numTriples << " triples" << std::endl;
-- 
2.43.0

