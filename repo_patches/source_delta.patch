From 6010a8aff5825cc2a6f916e7b8b5ff82c88bad12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 01/16] fix: check sentence bounds before reading tightness at
 extended phrase edges

AddNonterminalExtremities read source_low[source_back_low - 1] and
source_low[source_back_high] before checking that the phrase can be
extended on that side, which is out of bounds at sentence edges.
---
 extractor/rule_extractor.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/extractor/rule_extractor.cc b/extractor/rule_extractor.cc
index d918117..bbc01cd 100644
--- a/extractor/rule_extractor.cc
+++ b/extractor/rule_extractor.cc
@@ -237,14 +237,6 @@ void RuleExtractor::AddNonterminalExtremities(
     int extend_left, int extend_right) const {
   int source_x_low = source_back_low, source_x_high = source_back_high;
 
-  // Check if the extended source phrase will remain tight.
-  if (require_tight_phrases) {
-    if (source_low[source_back_low - extend_left] == -1 ||
-        source_low[source_back_high + extend_right - 1] == -1) {
-      return;
-    }
-  }
-
   // Check if we can add a nonterminal to the left.
   if (extend_left) {
     if (starts_with_x || source_back_low < min_gap_size) {
@@ -281,6 +273,14 @@ void RuleExtractor::AddNonterminalExtremities(
     }
   }
 
+  // Check if the extended source phrase will remain tight.
+  if (require_tight_phrases) {
+    if (source_low[source_back_low - extend_left] == -1 ||
+        source_low[source_back_high + extend_right - 1] == -1) {
+      return;
+    }
+  }
+
   // More length checks.
   int new_nonterminals = extend_left + extend_right;
   if (source_x_high - source_x_low > max_rule_span ||
-- 
2.43.0


From 1e9e8111e9a347160bf6fc77334c2bc759e8e613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:36 +0000
Subject: [PATCH 02/16] fix: order target gaps correctly when a rule has three
 or more

GetGapOrder mixed up ranks and indices, so for orders such as gaps
(2,0,1) the result was not a permutation.
---
 extractor/rule_extractor_helper.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/extractor/rule_extractor_helper.cc b/extractor/rule_extractor_helper.cc
index d7e332d..60e4072 100644
--- a/extractor/rule_extractor_helper.cc
+++ b/extractor/rule_extractor_helper.cc
@@ -333,13 +333,11 @@ vector<int> RuleExtractorHelper::GetGapOrder(
     const vector<pair<int, int>>& gaps) const {
   vector<int> gap_order(gaps.size());
   for (size_t i = 0; i < gap_order.size(); ++i) {
-    for (size_t j = 0; j < i; ++j) {
-      if (gaps[gap_order[j]] < gaps[i]) {
-        ++gap_order[i];
-      } else {
-        ++gap_order[j];
-      }
+    size_t j = i;
+    for (; j > 0 && gaps[i] < gaps[gap_order[j - 1]]; --j) {
+      gap_order[j] = gap_order[j - 1];
     }
+    gap_order[j] = i;
   }
   return gap_order;
 }
-- 
2.43.0


From 7e083fd2280705bf917784dffb81c4ab4d69dc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:21 +0000
Subject: [PATCH 03/16] fix: CER statistics when no reference is closer than
 the empty string

The best score started at the hypothesis length, so a sentence whose
distance to every reference was at least that long (for instance any
hypothesis sharing no characters with a longer reference) left the
statistics unset: the score was 0/0 and errors were not counted.
---
 mteval/ns_cer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mteval/ns_cer.cc b/mteval/ns_cer.cc
index da6683b..fa86882 100644
--- a/mteval/ns_cer.cc
+++ b/mteval/ns_cer.cc
@@ -19,11 +19,11 @@ void CERMetric::ComputeSufficientStatistics(const std::vector<WordID>& hyp,
                                             SufficientStats* out) const {
   out->fields.resize(kNUMFIELDS);
   std::string hyp_str(TD::GetString(hyp));
-  float best_score = hyp_str.size();
+  float best_score = 0;
   for (size_t i = 0; i < refs.size(); ++i) {
     std::string ref_str(TD::GetString(refs[i]));
     float score = cdec::LevenshteinDistance(hyp_str, ref_str);
-    if (score < best_score) {
+    if (score < best_score || i == 0) {
       out->fields[kEDITDISTANCE] = score;
       out->fields[kCHARCOUNT] = ref_str.size();
       best_score = score;
-- 
2.43.0


From 082793f666388c3e7c98ff9c2c5f0faadb603990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:58 +0000
Subject: [PATCH 04/16] fix: outside score of a node that occurs twice among an
 edge's tails

---
 decoder/inside_outside.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/decoder/inside_outside.h b/decoder/inside_outside.h
index d5bda63..253b0a5 100644
--- a/decoder/inside_outside.h
+++ b/decoder/inside_outside.h
@@ -83,9 +83,8 @@ void Outside(const Hypergraph& hg,
         WeightType* const tail_outside_score = &outside_score[update_tail_node_index];
         WeightType inside_contribution = WeightType(1);
         for (int l = 0; l < num_tail_nodes; ++l) {
-          const int other_tail_node_index = edge.tail_nodes_[l];
-          if (update_tail_node_index != other_tail_node_index)
-            inside_contribution *= inside_score[other_tail_node_index];
+          if (k != l)
+            inside_contribution *= inside_score[edge.tail_nodes_[l]];
         }
         inside_contribution *= head_and_edge_weight;
         *tail_outside_score += inside_contribution;
-- 
2.43.0


From 19cf4d3121c652cacc55c9ca1eb9871b4cef4ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 05/16] fix: do not read past the end of the corpus when
 collecting frequent patterns

With min_frequency <= 1 the empty suffix (start == data.size()) passed the
range check and the one word pattern read one element past the data.
---
 extractor/precomputation.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extractor/precomputation.cc b/extractor/precomputation.cc
index 3e58e2a..0cfdfd3 100644
--- a/extractor/precomputation.cc
+++ b/extractor/precomputation.cc
@@ -84,7 +84,7 @@ vector<vector<int>> Precomputation::FindMostFrequentPatterns(
     for (int len = lcp[i]; len < max_frequent_phrase_len; ++len) {
       int frequency = i - run_start[len];
       int start = suffix_array->GetSuffix(run_start[len]);
-      if (frequency >= min_frequency && start + len <= data.size()) {
+      if (frequency >= min_frequency && start + len < data.size()) {
         heap.push(make_pair(frequency, make_pair(start, len + 1)));
       }
       run_start[len] = i;
-- 
2.43.0


From 09edd761033cb88217d0cb245fc7f0b75faa0255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 06/16] fix: remove the whole third subpattern before trying
 the next ternary collocation

erase(pattern.end() - size3) removed a single word, so after a subpattern of
two or more words the following occurrences were indexed under wrong keys.
---
 extractor/precomputation.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extractor/precomputation.cc b/extractor/precomputation.cc
index 0cfdfd3..27dea58 100644
--- a/extractor/precomputation.cc
+++ b/extractor/precomputation.cc
@@ -160,7 +160,7 @@ void Precomputation::UpdateIndex(
                 && (is_super1 || is_super3)) {
               AppendSubpattern(pattern, annotations[k]);
               AppendCollocation(index[pattern], start1, start2, start3);
-              pattern.erase(pattern.end() - size3);
+              pattern.erase(pattern.end() - size3, pattern.end());
             }
           }
         }
-- 
2.43.0


From 021431d6ae9c9cac7c3b69f7d7c53f4ecf21cde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 07/16] fix: order negative LogVals by magnitude and treat
 signed zeros as equal

Two negative values compared in the wrong order (-1 < -2), and a zero that
carries a sign (x - x, 0 * -1) was unequal to zero and ordered before it.
---
 utils/logval.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/utils/logval.h b/utils/logval.h
index 0c9ee98..b5f4574 100644
--- a/utils/logval.h
+++ b/utils/logval.h
@@ -46,7 +46,7 @@ class LogVal {
 
   std::size_t hash_impl() const {
     using namespace boost;
-    return hash_value(v_)+s_;
+    return hash_value(v_)+(s_ && !is_0());
   }
 
   // just like std::signbit, negative means true.  weird, i know
@@ -118,10 +118,11 @@ class LogVal {
 
   //remember, s_ means negative.
   inline bool lt(Self const& o) const {
-    return s_==o.s_ ? v_ < o.v_ : s_ > o.s_;
+    if (s_==o.s_) return s_ ? o.v_ < v_ : v_ < o.v_;
+    return s_ > o.s_ && !(is_0() && o.is_0());
   }
   inline bool gt(Self const& o) const {
-    return s_==o.s_ ? o.v_ < v_ : s_ < o.s_;
+    return o.lt(*this);
   }
 
   Self operator-() const {
@@ -208,7 +209,7 @@ LogVal<T> pow(const LogVal<T>& b, const T& e) {
 
 template <class T>
 bool operator==(const LogVal<T>& lhs, const LogVal<T>& rhs) {
-  return (lhs.v_ == rhs.v_) && (lhs.s_ == rhs.s_);
+  return (lhs.v_ == rhs.v_) && (lhs.s_ == rhs.s_ || lhs.is_0());
 }
 
 template <class T>
@@ -218,11 +219,7 @@ bool operator!=(const LogVal<T>& lhs, const LogVal<T>& rhs) {
 
 template <class T>
 bool operator<(const LogVal<T>& lhs, const LogVal<T>& rhs) {
-  if (lhs.s_ == rhs.s_) {
-    return (lhs.v_ < rhs.v_);
-  } else {
-    return lhs.s_ > rhs.s_;
-  }
+  return lhs.lt(rhs);
 }
 
 template <class T>
-- 
2.43.0


From c50570b576b2b4162de9b5e1cac0ce05f5418433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 08/16] fix: node ids of subset hypergraphs

Node::copy_reindex renumbered the (still zero) id of the new node instead of
the id of the node being copied, so every node of CreateEdgeSubset,
CreateNodeSubset and CreateViterbiHypergraph carried the same wrong id.
---
 decoder/hg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/hg.h b/decoder/hg.h
index c756012..21debbe 100644
--- a/decoder/hg.h
+++ b/decoder/hg.h
@@ -186,7 +186,7 @@ namespace HG {
     }
     void copy_reindex(Node const& o,indices_after const& n2,indices_after const& e2) {
       copy_fixed(o);
-      id_=n2[id_];
+      id_=n2[o.id_];
       e2.reindex_push_back(o.in_edges_,in_edges_);
       e2.reindex_push_back(o.out_edges_,out_edges_);
     }
-- 
2.43.0


From 490788c4c9c35a512555c783011605d7b08b3ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:27 +0000
Subject: [PATCH 09/16] fix: keep weights, spans and categories when merging
 hypergraphs

Hypergraph::Union copied only the rule and features of the other forest's
edges and nothing of its nodes, so merged edges had probability zero and no
spans, and merged nodes lost their category and hash.
---
 decoder/hg.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/hg.cc b/decoder/hg.cc
index 46543b0..813265c 100644
--- a/decoder/hg.cc
+++ b/decoder/hg.cc
@@ -425,6 +425,7 @@ void Hypergraph::Union(const Hypergraph& other) {
     const Node& on = other.nodes_[i];
     Node& cn = nodes_[i + noff];
     cn.id_ = i + noff;
+    cn.copy_fixed(on);
     cn.in_edges_.resize(on.in_edges_.size());
     for (unsigned j = 0; j < on.in_edges_.size(); ++j)
       cn.in_edges_[j] = on.in_edges_[j] + eoff;
@@ -438,8 +439,7 @@ void Hypergraph::Union(const Hypergraph& other) {
     const Edge& oe = other.edges_[i];
     Edge& ce = edges_[i + eoff];
     ce.id_ = i + eoff;
-    ce.rule_ = oe.rule_;
-    ce.feature_values_ = oe.feature_values_;
+    ce.copy_fixed(oe);
     if (oe.head_node_ == ogoal) {
       ce.head_node_ = cgoal;
       nodes_[cgoal].in_edges_.push_back(ce.id_);
-- 
2.43.0


From 8bb37f983ab348afb3ef9c29433bd080bd0b5cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:43 +0000
Subject: [PATCH 10/16] fix: merging an empty forest dropped or dereferenced a
 missing goal node

---
 decoder/hg.cc       | 2 +-
 decoder/hg_union.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/hg.cc b/decoder/hg.cc
index 813265c..5926f7b 100644
--- a/decoder/hg.cc
+++ b/decoder/hg.cc
@@ -410,7 +410,7 @@ void Hypergraph::PrintGraphviz() const {
 }
 
 void Hypergraph::Union(const Hypergraph& other) {
-  if (&other == this) return;
+  if (&other == this || other.nodes_.empty()) return;
   if (nodes_.empty()) { nodes_ = other.nodes_; edges_ = other.edges_; return; }
   unsigned noff = nodes_.size();
   unsigned eoff = edges_.size();
diff --git a/decoder/hg_union.cc b/decoder/hg_union.cc
index da9f262..1a2fe97 100644
--- a/decoder/hg_union.cc
+++ b/decoder/hg_union.cc
@@ -30,7 +30,7 @@ static bool EdgesMatch(const HG::Edge& a, const Hypergraph& ahg, const HG::Edge&
 }
 
 void Union(const Hypergraph& in, Hypergraph* out) {
-  if (&in == out) return;
+  if (&in == out || in.nodes_.empty()) return;
   if (out->nodes_.empty()) {
     out->nodes_ = in.nodes_;
     out->edges_ = in.edges_; return;
-- 
2.43.0


From 614e3b4c36a5a8ee62ec2e09ea825449f2f806b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:23 +0000
Subject: [PATCH 11/16] fix: FastSparseVector::erase of an absent key dropped
 another entry

---
 utils/fast_sparse_vector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/fast_sparse_vector.h b/utils/fast_sparse_vector.h
index 0697fc4..16cbda6 100644
--- a/utils/fast_sparse_vector.h
+++ b/utils/fast_sparse_vector.h
@@ -204,9 +204,10 @@ class FastSparseVector {
             data_.local[j-1].first() = data_.local[j].first();
             data_.local[j-1].second() = data_.local[j].second();
           }
+          --local_size_;
+          return;
         }
       }
-      --local_size_;
     }
   }
   const FastSparseVector<T>& operator=(const FastSparseVector<T>& other) {
-- 
2.43.0


From 8d8161491d2cf1e4597199b571703a8cb80b65f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:23 +0000
Subject: [PATCH 12/16] fix: FastSparseVector equality took an explicit zero
 for any missing entry

---
 utils/fast_sparse_vector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/fast_sparse_vector.h b/utils/fast_sparse_vector.h
index 16cbda6..4d021e2 100644
--- a/utils/fast_sparse_vector.h
+++ b/utils/fast_sparse_vector.h
@@ -403,7 +403,8 @@ class FastSparseVector {
   bool operator==(const FastSparseVector<T>& other) const {
     if (other.size() != size()) return false;
     for (const_iterator it = begin(), e = end(); it != e; ++it) {
-      if (other.value(it->first) != it->second) return false;
+      const const_iterator o = other.find(it->first);
+      if (o == other.end() || o->second != it->second) return false;
     }
     return true;
   }
-- 
2.43.0


From dadc36633d9c0cf4399e955c96a4147f95a15532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:23 +0000
Subject: [PATCH 13/16] fix: large SmallVector(n) left its elements
 uninitialised

---
 utils/small_vector.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils/small_vector.h b/utils/small_vector.h
index f16bc89..298f035 100644
--- a/utils/small_vector.h
+++ b/utils/small_vector.h
@@ -51,7 +51,9 @@ class SmallVector {
     Alloc(s);
     if (s <= SV_MAX) {
       for (unsigned i = 0; i < s; ++i) new(&data_.vals[i]) T();
-    } //TODO: if alloc were raw space, construct here.
+    } else { //TODO: if alloc were raw space, construct here.
+      for (unsigned i = 0; i < s; ++i) data_.ptr[i] = T();
+    }
   }
 
   SmallVector(size_t s, T const& v) {
-- 
2.43.0


From a50a1b25a5d351095fe84a1adb9666deacf01ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:23 +0000
Subject: [PATCH 14/16] fix: SmallVector::push_back of an element of the vector
 itself

---
 utils/small_vector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/small_vector.h b/utils/small_vector.h
index 298f035..db5ae17 100644
--- a/utils/small_vector.h
+++ b/utils/small_vector.h
@@ -181,7 +181,8 @@ private:
 
 public:
 
-  inline void push_back(T const& v) {
+  inline void push_back(T const& x) {
+    const T v = x; // x may be an element of this vector
     if (size_ < SV_MAX) {
       data_.vals[size_] = v;
       ++size_;
-- 
2.43.0


From 4ca4c71f1b5806765e70eb28929e84c2fda0fd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:06 +0000
Subject: [PATCH 15/16] fix: dpmert keeps the first error segment when the
 hypothesis is empty or has zero statistics

---
 training/dpmert/ces.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/training/dpmert/ces.cc b/training/dpmert/ces.cc
index 157b2d1..3c67f68 100644
--- a/training/dpmert/ces.cc
+++ b/training/dpmert/ces.cc
@@ -56,7 +56,7 @@ void ComputeErrorSurface(const SegmentEvaluator& ss,
       seg.ConstructTranslation(&trans);
     //}
     //cerr << "Scoring: " << TD::GetString(trans) << endl;
-    if (trans == prev_trans) {
+    if (i > 0 && trans == prev_trans) {
       if (!minimize_segments) {
         ErrorSegment& out = (*env)[j];
         out.delta.fields.clear();
@@ -74,7 +74,7 @@ void ComputeErrorSurface(const SegmentEvaluator& ss,
       //string xx; delta.Encode(&xx); cerr << xx << endl;
       prev_trans.swap(trans);
       prev_score = score;
-      if ((!minimize_segments) || (!delta.IsAdditiveIdentity())) {
+      if ((!minimize_segments) || i == 0 || (!delta.IsAdditiveIdentity())) {
         ErrorSegment& out = (*env)[j];
         out.delta = delta;
         out.x = seg.x;
-- 
2.43.0


From 6765d7137f7ee7eb5e50ec9ff06f25f54fab3f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:06 +0000
Subject: [PATCH 16/16] fix: ConvexHull(int) initialises is_sorted

---
 training/dpmert/mert_geometry.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/training/dpmert/mert_geometry.cc b/training/dpmert/mert_geometry.cc
index d697365..7796246 100644
--- a/training/dpmert/mert_geometry.cc
+++ b/training/dpmert/mert_geometry.cc
@@ -5,7 +5,7 @@
 
 using namespace std;
 
-ConvexHull::ConvexHull(int i) {
+ConvexHull::ConvexHull(int i) : is_sorted(true) {
   if (i == 0) {
     // do nothing - <>
   } else if (i == 1) {
-- 
2.43.0

