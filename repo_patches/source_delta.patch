From 5b80be28c88aca39a76c461a4edbed995f7a241c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:20 +0000
Subject: [PATCH 01/64] fix: give nodes of a forest subset the index they have
 in the subset

Node::copy_reindex looked up the new index of its own (default) id instead
of the copied node's, so every node of CreateNodeEdgeSubset's result
(CreateViterbiHypergraph, CreateEdgeSubset) got the first kept node's id.
---
 decoder/hg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/hg.h b/decoder/hg.h
index c756012..21debbe 100644
--- a/decoder/hg.h
+++ b/decoder/hg.h
@@ -186,7 +186,7 @@ namespace HG {
     }
     void copy_reindex(Node const& o,indices_after const& n2,indices_after const& e2) {
       copy_fixed(o);
-      id_=n2[id_];
+      id_=n2[o.id_];
       e2.reindex_push_back(o.in_edges_,in_edges_);
       e2.reindex_push_back(o.out_edges_,out_edges_);
     }
-- 
2.43.0


From 0fb8a695d9cd51a43aec3e8c6312b6afd506a0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 02/64] fix: outside scores when an edge uses a node more than
 once

The outside recursion skipped every tail with the id of the node being
updated instead of the one occurrence, dropping the inside score of the
others.
---
 decoder/inside_outside.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/decoder/inside_outside.h b/decoder/inside_outside.h
index d5bda63..253b0a5 100644
--- a/decoder/inside_outside.h
+++ b/decoder/inside_outside.h
@@ -83,9 +83,8 @@ void Outside(const Hypergraph& hg,
         WeightType* const tail_outside_score = &outside_score[update_tail_node_index];
         WeightType inside_contribution = WeightType(1);
         for (int l = 0; l < num_tail_nodes; ++l) {
-          const int other_tail_node_index = edge.tail_nodes_[l];
-          if (update_tail_node_index != other_tail_node_index)
-            inside_contribution *= inside_score[other_tail_node_index];
+          if (k != l)
+            inside_contribution *= inside_score[edge.tail_nodes_[l]];
         }
         inside_contribution *= head_and_edge_weight;
         *tail_outside_score += inside_contribution;
-- 
2.43.0


From 63bddde79c4eb4d84076456290bde5ffa6cc2b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 03/64] fix: pruning must not lose the best derivation to
 rounding

With ties among the best derivations the density cutoff is itself (about)
1, and edges of the best derivation whose computed margin is 1 minus an
ulp were removed, which could leave an empty forest.
---
 decoder/hg.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/decoder/hg.cc b/decoder/hg.cc
index 46543b0..dcd686e 100644
--- a/decoder/hg.cc
+++ b/decoder/hg.cc
@@ -370,6 +370,10 @@ bool Hypergraph::PruneInsideOutside(double alpha,double density,const EdgeMask*
       cutoff=beam_cut;
     }
   }
+  // edges of a best derivation have margin 1 only up to rounding error; a
+  // cutoff of (about) 1 must not lose some of them
+  const prob_t max_cutoff=prob_t::exp(-1e-6);
+  if (cutoff>max_cutoff) cutoff=max_cutoff;
   MarginPrune(mm,cutoff,preserve_mask,safe_inside);
   return density_won;
 }
-- 
2.43.0


From b8f703ee5e2332a2a4702dd5ef67447f3abcd288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 04/64] fix: pruning threshold must not drift with the number
 of edges

The cutoff was tightened by a fixed factor per edge, so in forests of a
million edges it passed the best margin and everything, the best
derivation included, was removed.
---
 decoder/hg.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decoder/hg.cc b/decoder/hg.cc
index dcd686e..8c90fdb 100644
--- a/decoder/hg.cc
+++ b/decoder/hg.cc
@@ -295,7 +295,8 @@ void Hypergraph::MarginPrune(vector<prob_t> const& io,prob_t cutoff,vector<bool>
 
   //TODO: //FIXME: if EPSILON is 0, then remnants (useless edges that don't connect to top? or top-connected but not bottom-up buildable referenced?) are left in the hypergraph output that cause mr_vest_map to segfault.  adding EPSILON probably just covers up the symptom by making it far less frequent; I imagine any time threshold is set by DensityPrune, cutoff is exactly equal to the io of several nodes, but because of how it's computed, some round slightly down vs. slightly up.  probably the flaw is in PruneEdges.
 
-  const prob_t creep=abslog(cutoff).pow(1e-6); // some barely >1 (small positive log) ratio.  linear in logspace of course // start more permissive, then become less generous.  this is barely more than 1.  we want to do this because it's a disaster if something lower in a derivation tree is deleted, but the higher thing remains (unless safe_inside)
+  cutoff*=abslog(cutoff).pow(0.5e-6); // edges exactly at the cutoff go, whichever way they were rounded
+  const prob_t creep=abslog(cutoff).pow(0.5e-6/(io.size()+1)); // some barely >1 (small positive log) ratio.  linear in logspace of course // start more permissive, then become less generous.  this is barely more than 1.  we want to do this because it's a disaster if something lower in a derivation tree is deleted, but the higher thing remains (unless safe_inside)
 
   vector<bool> prune(edges_.size());
   if (verbose) {
-- 
2.43.0


From 980418d1b4e3e946de0b93cd2b0e03cef45bdbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:55 +0000
Subject: [PATCH 05/64] fix: write all features of a lattice arc in PLF, not
 the one the reader never sets

---
 decoder/hg_io.cc | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/decoder/hg_io.cc b/decoder/hg_io.cc
index 71f50a2..34a016d 100644
--- a/decoder/hg_io.cc
+++ b/decoder/hg_io.cc
@@ -87,10 +87,16 @@ string HypergraphIO::AsPLF(const Hypergraph& hg, bool include_global_parentheses
   return os.str();
 }
 
-// TODO this should write out the PLF with the Python dictionary format
-// rather than just the single "LatticeCost" feature
-double PLFFeatureDictionary(const SparseVector<double>& f) {
-  return f.get(FD::Convert("LatticeCost"));
+// all features of an arc, in the Python dictionary format
+static void WritePLFFeatures(const SparseVector<double>& f, ostream* out) {
+  *out << '{';
+  bool first = true;
+  for (SparseVector<double>::const_iterator it = f.begin(); it != f.end(); ++it) {
+    if (!first) *out << ',';
+    first = false;
+    *out << '\'' << HypergraphIO::Escape(FD::Convert(it->first)) << "':" << it->second;
+  }
+  *out << '}';
 }
 
 string HypergraphIO::AsPLF(const Lattice& lat, bool include_global_parentheses) {
@@ -98,14 +104,16 @@ string HypergraphIO::AsPLF(const Lattice& lat, bool include_global_parentheses)
   if (first) { InitEscapes(); first = false; }
   if (lat.empty()) return "()";
   ostringstream os;
+  os.precision(9);  // features are read back in single precision
   if (include_global_parentheses) os << '(';
   static const string EPS="*EPS*";
   for (int i = 0; i < lat.size(); ++i) {
     const vector<LatticeArc> arcs = lat[i];
     os << '(';
     for (int j = 0; j < arcs.size(); ++j) {
-      os << "('" << Escape(TD::Convert(arcs[j].label)) << "',"
-                 << PLFFeatureDictionary(arcs[j].features) << ',' << arcs[j].dist2next << "),";
+      os << "('" << Escape(TD::Convert(arcs[j].label)) << "',";
+      WritePLFFeatures(arcs[j].features, &os);
+      os << ',' << arcs[j].dist2next << "),";
     }
     os << "),";
   }
-- 
2.43.0


From 4ad475cd0311d55515a5a49caadb2b05b7b2dfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:55 +0000
Subject: [PATCH 06/64] fix: PushWeightsToSource on lattices, whose start node
 has no incoming edges

---
 decoder/hg.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/decoder/hg.cc b/decoder/hg.cc
index 8c90fdb..65e4082 100644
--- a/decoder/hg.cc
+++ b/decoder/hg.cc
@@ -186,7 +186,16 @@ prob_t Hypergraph::ComputeBestPathThroughEdges(vector<prob_t>* post) const {
 
 void Hypergraph::PushWeightsToSource(double scale) {
   vector<prob_t> posts;
-  ComputeEdgePosteriors(scale, &posts);
+  if (!nodes_.empty() && nodes_[0].in_edges_.empty()) {
+    // the start node of a lattice has the empty derivation
+    Hypergraph g(*this);
+    Edge* start = g.AddEdge(TRulePtr(), TailNodeVector());
+    start->edge_prob_ = prob_t::One();
+    g.ConnectEdgeToHeadNode(start->id_, 0);
+    g.ComputeEdgePosteriors(scale, &posts);
+  } else {
+    ComputeEdgePosteriors(scale, &posts);
+  }
   for (unsigned i = 0; i < nodes_.size(); ++i) {
     const Hypergraph::Node& node = nodes_[i];
     prob_t z = prob_t::Zero();
-- 
2.43.0


From 4d6806b2ad9fc44b09e4eee5d73f811c3b5d4e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:41 +0000
Subject: [PATCH 07/64] fix: do not align target words that no source word
 generates

With the soft threshold a target word whose links all have probability zero
(one inserted by a rule without source words) was linked to every source
word, since the threshold was zero as well.
---
 decoder/aligner.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/aligner.cc b/decoder/aligner.cc
index fd64837..73799dd 100644
--- a/decoder/aligner.cc
+++ b/decoder/aligner.cc
@@ -292,7 +292,7 @@ void AlignerTools::WriteAlignment(const Lattice& src_lattice,
         //threshold *= prob_t(0.99);
       }
       for (int i = 0; i < src_size; ++i)
-        grid(i, j) = align(i+1, j) >= threshold;
+        grid(i, j) = align(i+1, j) > prob_t::Zero() && align(i+1, j) >= threshold;
     }
     if (out == &cout && k_best < 2) {
       // TODO need to do some sort of verbose flag
-- 
2.43.0


From 2a7b1d82a15a8e8c5c711ede5d3ace1c33906726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:07 +0000
Subject: [PATCH 08/64] fix: treat single-path lattices with empty words or
 jumps as lattices

IsSentence() accepted every lattice with at most one arc per node, so that
references and inputs with *EPS* or longer arcs were filtered and aligned as
if they were plain sentences.
---
 decoder/hg_intersect.cc | 5 ++---
 decoder/lattice.cc      | 7 +++++++
 decoder/lattice.h       | 8 ++------
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/decoder/hg_intersect.cc b/decoder/hg_intersect.cc
index b9381d0..668ed59 100644
--- a/decoder/hg_intersect.cc
+++ b/decoder/hg_intersect.cc
@@ -24,12 +24,11 @@ struct RuleFilter {
   unordered_map<vector<WordID>, bool, boost::hash<vector<WordID> > > exists_;
   bool true_lattice;
   RuleFilter(const Lattice& target, unsigned max_phrase_size) {
-    true_lattice = false;
-    for (unsigned i = 0; i < target.size(); ++i) {
+    true_lattice = !IsSentence(target);
+    for (unsigned i = 0; i < target.size() && !true_lattice; ++i) {
       vector<WordID> phrase;
       const unsigned lim = min(static_cast<unsigned>(target.size()), i + max_phrase_size);
       for (unsigned j = i; j < lim; ++j) {
-        if (target[j].size() > 1) { true_lattice = true; break; }
         phrase.push_back(target[j][0].label);
         exists_[phrase] = true;
       }
diff --git a/decoder/lattice.cc b/decoder/lattice.cc
index 2740ce6..981cc52 100644
--- a/decoder/lattice.cc
+++ b/decoder/lattice.cc
@@ -60,3 +60,10 @@ void LatticeTools::ConvertTextOrPLF(const string& text_or_plf, Lattice* pl) {
   pl->ComputeDistances();
 }
 
+bool IsSentence(const Lattice& in) {
+  static const WordID kEPS = TD::Convert("*EPS*");
+  for (auto& alt : in)
+    if (alt.size() != 1 || alt[0].dist2next != 1 || alt[0].label == kEPS) return false;
+  return true;
+}
+
diff --git a/decoder/lattice.h b/decoder/lattice.h
index 469615b..6d80e91 100644
--- a/decoder/lattice.h
+++ b/decoder/lattice.h
@@ -39,11 +39,7 @@ class Lattice : public std::vector<std::vector<LatticeArc> > {
   Array2D<int> dist_;
 };
 
-inline bool IsSentence(const Lattice& in) {
-  bool res = true;
-  for (auto& alt : in)
-    if (alt.size() > 1) { res = false; break; }
-  return res;
-}
+// true if the only path reads one word at every position
+bool IsSentence(const Lattice& in);
 
 #endif
-- 
2.43.0


From 38ccd1da3e02ba3d02726729f278af7685bcbc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:25 +0000
Subject: [PATCH 09/64] fix: reference shorter than the target side in
 linear-chain intersection

Tagging with a reference that has fewer words than the input read past the
end of the reference and could succeed.
---
 decoder/hg_intersect.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/decoder/hg_intersect.cc b/decoder/hg_intersect.cc
index 668ed59..47bb501 100644
--- a/decoder/hg_intersect.cc
+++ b/decoder/hg_intersect.cc
@@ -61,15 +61,16 @@ static bool FastLinearIntersect(const Lattice& target, Hypergraph* hg) {
   for (unsigned i = 0; i < prune.size(); ++i) {
     Hypergraph::Edge& edge = hg->edges_[i];
     if (edge.Arity() == 0) {
-      const int trg_index = edge.prev_i_;
-      const WordID trg = target[trg_index][0].label;
+      const unsigned trg_index = edge.prev_i_;
       assert(edge.rule_->EWords() == 1);
       TRulePtr& inv_rule = inverted_rules[edge.rule_.get()];
       if (!inv_rule) {
         inv_rule.reset(new TRule(*edge.rule_));
         inv_rule->e_.swap(inv_rule->f_);
       }
-      prune[i] = (edge.rule_->e_[0] != trg);
+      // a position past the end of the target cannot be generated
+      prune[i] = (trg_index >= target.size() ||
+                  edge.rule_->e_[0] != target[trg_index][0].label);
       if (!prune[i]) {
         cov.insert(trg_index);
         swap(edge.prev_i_, edge.i_);
@@ -79,7 +80,7 @@ static bool FastLinearIntersect(const Lattice& target, Hypergraph* hg) {
     }
   }
   hg->PruneEdges(prune, true);
-  return (cov.size() == target.size());
+  return (!hg->edges_.empty() && cov.size() == target.size());
 }
 
 namespace HG {
-- 
2.43.0


From ec1a9de084f9326684085f364f27d009126fd66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:36 +0000
Subject: [PATCH 10/64] fix: invert every use of a lexical rule in linear-chain
 intersection

The inverted copy was swapped into the edge, so that the second edge sharing
the rule (the same word pair elsewhere in the sentence) got the original
orientation back and showed source words on the target side.
---
 decoder/hg_intersect.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/hg_intersect.cc b/decoder/hg_intersect.cc
index 47bb501..f02dafc 100644
--- a/decoder/hg_intersect.cc
+++ b/decoder/hg_intersect.cc
@@ -75,7 +75,7 @@ static bool FastLinearIntersect(const Lattice& target, Hypergraph* hg) {
         cov.insert(trg_index);
         swap(edge.prev_i_, edge.i_);
         swap(edge.prev_j_, edge.j_);
-        edge.rule_.swap(inv_rule);
+        edge.rule_ = inv_rule;
       }
     }
   }
-- 
2.43.0


From d0c24211cb23fc01a804409be840f7a193da28d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:08 +0000
Subject: [PATCH 11/64] fix: begin-of-sentence context in n-gram features of
 order three and above

---
 decoder/ff_ngrams.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ff_ngrams.cc b/decoder/ff_ngrams.cc
index a45bd27..999afae 100644
--- a/decoder/ff_ngrams.cc
+++ b/decoder/ff_ngrams.cc
@@ -173,7 +173,7 @@ class NgramDetectorImpl {
 
   inline const State<5> BeginSentenceState() const {
     State<5> state(order_);
-    state.state[0] = kSOS_;
+    if (order_ > 1) state.state[order_ - 2] = kSOS_;  // most recent word of the context
     return state;
   }
 
-- 
2.43.0


From 63665691841f8dbaee035bd7280280533a2c0e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:38 +0000
Subject: [PATCH 12/64] fix: later rescoring passes follow their own
 intersection strategy

---
 decoder/decoder.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/decoder.cc b/decoder/decoder.cc
index 1e6c319..0d4256b 100644
--- a/decoder/decoder.cc
+++ b/decoder/decoder.cc
@@ -585,11 +585,11 @@ DecoderImpl::DecoderImpl(po::variables_map& conf, int argc, char** argv, istream
       if (LowercaseString(str(isn.c_str(),conf)) == "full") {
         palg = 0;
       }
-      if (LowercaseString(conf["intersection_strategy"].as<string>()) == "fast_cube_pruning") {
+      if (LowercaseString(str(isn.c_str(),conf)) == "fast_cube_pruning") {
         palg = 2;
         cerr << "Using Fast Cube Pruning intersection (see Algorithm 2 described in: Gesmundo A., Henderson J,. Faster Cube Pruning, IWSLT 2010).\n";
       }
-      if (LowercaseString(conf["intersection_strategy"].as<string>()) == "fast_cube_pruning_2") {
+      if (LowercaseString(str(isn.c_str(),conf)) == "fast_cube_pruning_2") {
         palg = 3;
         cerr << "Using Fast Cube Pruning 2 intersection (see Algorithm 3 described in: Gesmundo A., Henderson J,. Faster Cube Pruning, IWSLT 2010).\n";
       }
-- 
2.43.0


From 51b7812431347061ce59ca2533a6d0f813f0dddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:11 +0000
Subject: [PATCH 13/64] fix: phrase-based translator keeps all lattice paths
 over an initial span

---
 decoder/phrasebased_translator.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/decoder/phrasebased_translator.cc b/decoder/phrasebased_translator.cc
index 8415353..418771f 100644
--- a/decoder/phrasebased_translator.cc
+++ b/decoder/phrasebased_translator.cc
@@ -145,7 +145,15 @@ struct PhraseBasedTranslatorImpl {
         new_cov.Cover(s.i, s.j);
         EnqueuePossibleContinuations(new_cov, &q, &ucs);
         const vector<TRulePtr>& phrases = s.fst->GetTranslations()->GetRules();
-        const int phrase_head_index = minus_lm_forest->AddNode(kNT_TYPE)->id_;
+        CoverageNodeMap::iterator cit = c.find(s.coverage);
+        assert(cit != c.end());
+        const int tail_node_plus1 = cit->second;
+        // at the left edge, the phrase is all there is to the new coverage; if
+        // that already has a node (a lattice can have several paths over the
+        // same span), the phrase is added to it
+        int phrase_head_index = tail_node_plus1 == 0 ? c[new_cov] - 1 : -1;
+        if (phrase_head_index < 0)
+          phrase_head_index = minus_lm_forest->AddNode(kNT_TYPE)->id_;
         for (int i = 0; i < phrases.size(); ++i) {
           Hypergraph::Edge* edge = minus_lm_forest->AddEdge(phrases[i], Hypergraph::TailNodeVector());
           edge->feature_values_ = edge->rule_->scores_;
@@ -153,9 +161,6 @@ struct PhraseBasedTranslatorImpl {
           edge->j_ = s.j;
           minus_lm_forest->ConnectEdgeToHeadNode(edge->id_, phrase_head_index);
         }
-        CoverageNodeMap::iterator cit = c.find(s.coverage);
-        assert(cit != c.end());
-        const int tail_node_plus1 = cit->second;
         if (tail_node_plus1 == 0) {  // left edge
           c[new_cov] = phrase_head_index + 1;
         } else { // not left edge
-- 
2.43.0


From ccca06f1f4c1208c1ce6731c273c7843aa4001fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:11 +0000
Subject: [PATCH 14/64] fix: bound the phrase-based translator's storage
 estimate for large distortion limits

---
 decoder/phrasebased_translator.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decoder/phrasebased_translator.cc b/decoder/phrasebased_translator.cc
index 418771f..bd42ccd 100644
--- a/decoder/phrasebased_translator.cc
+++ b/decoder/phrasebased_translator.cc
@@ -115,7 +115,8 @@ struct PhraseBasedTranslatorImpl {
     LatticeTools::ConvertTextOrPLF(input, &lattice);
     smeta->SetSourceLength(lattice.size());
     smeta->ComputeInputLatticeType();
-    size_t est_nodes = lattice.size() * lattice.size() * (1 << max_distortion);
+    // only an estimate, so don't let a large distortion limit exhaust the memory
+    const size_t est_nodes = min<size_t>(lattice.size() * lattice.size() * (1 << min(max_distortion, 10)), 50000);
     minus_lm_forest->ReserveNodes(est_nodes, est_nodes * 100);
     if (add_pass_through_rules) {
       SparseVector<double> feats;
-- 
2.43.0


From e7df1cfcd733250395640f624b8cc3fd7c37529c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:47 +0000
Subject: [PATCH 15/64] fix: phrase-based translator aborted on its own
 concatenation rule

---
 decoder/phrasebased_translator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/phrasebased_translator.cc b/decoder/phrasebased_translator.cc
index bd42ccd..6bf447e 100644
--- a/decoder/phrasebased_translator.cc
+++ b/decoder/phrasebased_translator.cc
@@ -76,7 +76,7 @@ struct PhraseBasedTranslatorImpl {
   PhraseBasedTranslatorImpl(const boost::program_options::variables_map& conf) :
       add_pass_through_rules(conf.count("add_pass_through_rules")),
       max_distortion(conf["pb_max_distortion"].as<int>()),
-      kCONCAT_RULE(new TRule("[X] ||| [X,1] [X,2] ||| [X,1] [X,2]", true)),
+      kCONCAT_RULE(new TRule("[X] ||| [X,1] [X,2] ||| [X,1] [X,2]")),
       kNT_TYPE(TD::Convert("X") * -1) {
     assert(max_distortion >= 0);
     vector<string> gfiles = conf["grammar"].as<vector<string> >();
-- 
2.43.0


From 899fff663651328a927f0708ad272c608a933330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:08 +0000
Subject: [PATCH 16/64] fix: clearing pass-through translations removed longer
 phrases from the table

---
 decoder/phrasetable_fst.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/decoder/phrasetable_fst.cc b/decoder/phrasetable_fst.cc
index b3bec86..e2fa6fb 100644
--- a/decoder/phrasetable_fst.cc
+++ b/decoder/phrasetable_fst.cc
@@ -96,8 +96,13 @@ void TextFSTNode::AddPassThroughTranslation(const WordID& w, const SparseVector<
 }
 
 void TextFSTNode::ClearPassThroughTranslations() {
-  for (int i = 0; i < passthroughs.size(); ++i)
-    ptr.erase(passthroughs[i]);
+  for (int i = 0; i < passthroughs.size(); ++i) {
+    map<WordID, TextFSTNode>::iterator it = ptr.find(passthroughs[i]);
+    if (it->second.ptr.empty())
+      ptr.erase(it);
+    else  // longer phrases start with the same word
+      it->second.data.reset();
+  }
   passthroughs.clear();
 }
 
-- 
2.43.0


From 8ef882c6fd5d65125e12f00c38a0e316b0ff9c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:14 +0000
Subject: [PATCH 17/64] fix: SmallVector::pop_back and compact work for element
 types other than int

---
 utils/small_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/small_vector.h b/utils/small_vector.h
index f16bc89..86ca9b7 100644
--- a/utils/small_vector.h
+++ b/utils/small_vector.h
@@ -171,7 +171,7 @@ private:
   }
   inline void ptr_to_small() {
     assert(size_<=SV_MAX);
-    int *tmp=data_.ptr;
+    T *tmp=data_.ptr;
     for (unsigned i=0;i<size_;++i)
       data_.vals[i]=tmp[i];
     delete[] tmp;
-- 
2.43.0


From d54893e80d4e6aa54ff022d0629ac01996a65c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:14 +0000
Subject: [PATCH 18/64] fix: erasing an absent key from a sparse vector dropped
 its last element

---
 utils/fast_sparse_vector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/fast_sparse_vector.h b/utils/fast_sparse_vector.h
index 0697fc4..b3c129b 100644
--- a/utils/fast_sparse_vector.h
+++ b/utils/fast_sparse_vector.h
@@ -204,9 +204,10 @@ class FastSparseVector {
             data_.local[j-1].first() = data_.local[j].first();
             data_.local[j-1].second() = data_.local[j].second();
           }
+          --local_size_;
+          break;
         }
       }
-      --local_size_;
     }
   }
   const FastSparseVector<T>& operator=(const FastSparseVector<T>& other) {
-- 
2.43.0


From aab38e1c194ed90a4353ad3095ba96ffd70e3881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:28 +0000
Subject: [PATCH 19/64] fix: SmallVector::push_back of one of its own elements
 across a reallocation

---
 utils/small_vector.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/utils/small_vector.h b/utils/small_vector.h
index 86ca9b7..83103cd 100644
--- a/utils/small_vector.h
+++ b/utils/small_vector.h
@@ -184,12 +184,14 @@ public:
       data_.vals[size_] = v;
       ++size_;
       return;
-    } else if (size_ == SV_MAX) {
+    }
+    const T x = v;  // v may be an element of this vector
+    if (size_ == SV_MAX) {
       copy_vals_to_ptr();
     } else if (size_ == capacity_) {
       ensure_capacity(size_ + 1);
     }
-    data_.ptr[size_] = v;
+    data_.ptr[size_] = x;
     ++size_;
   }
 
-- 
2.43.0


From ad22bab370c20b86e7b41a4e4c3f169f88358272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:38 +0000
Subject: [PATCH 20/64] fix: sparse vectors with explicit zeros compared equal
 to different vectors

---
 utils/fast_sparse_vector.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/fast_sparse_vector.h b/utils/fast_sparse_vector.h
index b3c129b..de18da9 100644
--- a/utils/fast_sparse_vector.h
+++ b/utils/fast_sparse_vector.h
@@ -405,6 +405,10 @@ class FastSparseVector {
     for (const_iterator it = begin(), e = end(); it != e; ++it) {
       if (other.value(it->first) != it->second) return false;
     }
+    // explicit zeros may have hidden a key of other
+    for (const_iterator it = other.begin(), e = other.end(); it != e; ++it) {
+      if (value(it->first) != it->second) return false;
+    }
     return true;
   }
   void swap(FastSparseVector<T>& other) {
-- 
2.43.0


From 664a64296730b0f43131997c0fb195d5bdcd0370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:08 +0000
Subject: [PATCH 21/64] fix: SmallVector(n) left heap-stored elements
 uninitialised

---
 utils/small_vector.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/small_vector.h b/utils/small_vector.h
index 83103cd..ab9ff13 100644
--- a/utils/small_vector.h
+++ b/utils/small_vector.h
@@ -51,6 +51,8 @@ class SmallVector {
     Alloc(s);
     if (s <= SV_MAX) {
       for (unsigned i = 0; i < s; ++i) new(&data_.vals[i]) T();
+    } else {
+      for (unsigned i = 0; i < s; ++i) data_.ptr[i] = T();
     } //TODO: if alloc were raw space, construct here.
   }
 
-- 
2.43.0


From d68cb30fb347bfcb744886da8ccfbe88160c27b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:19 +0000
Subject: [PATCH 22/64] fix: base64 encoding lost four bits of data whose size
 is 2 modulo 3

---
 utils/b64tools.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/b64tools.cc b/utils/b64tools.cc
index 78c1cb4..e8b3d6d 100644
--- a/utils/b64tools.cc
+++ b/utils/b64tools.cc
@@ -13,7 +13,7 @@ static void encodeblock(const unsigned char* in, ostream* os, int len) {
   // cerr << len << endl;
   out[0] = cb64[ in[0] >> 2 ];
   out[1] = cb64[ ((in[0] & 0x03) << 4) | (len > 1 ? ((in[1] & 0xf0) >> 4) : static_cast<unsigned char>(0))];
-  out[2] = (len > 2 ? cb64[ ((in[1] & 0x0f) << 2) | ((in[2] & 0xc0) >> 6) ] : '=');
+  out[2] = (len > 1 ? cb64[ ((in[1] & 0x0f) << 2) | (len > 2 ? ((in[2] & 0xc0) >> 6) : static_cast<unsigned char>(0)) ] : '=');
   out[3] = (len > 2 ? cb64[ in[2] & 0x3f ] : '=');
   os->write(out, 4);
 }
-- 
2.43.0


From eda9d0e0da91fffd9c1fc4a5d1dd44ce857f5393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:33 +0000
Subject: [PATCH 23/64] fix: decoding sparse vectors with feature names of 128
 to 255 bytes

---
 utils/sparse_vector.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_vector.cc b/utils/sparse_vector.cc
index 00e7bd6..9e957fa 100644
--- a/utils/sparse_vector.cc
+++ b/utils/sparse_vector.cc
@@ -71,7 +71,7 @@ bool Decode(double* objective, SparseVector<double>* v, const char* in, size_t s
   int fc = 0;
   while(fc < num_feats && cur < decoded_size) {
     ++fc;
-    const int fname_len = data[cur++];
+    const int fname_len = static_cast<unsigned char>(data[cur++]);
     assert(fname_len > 0);
     assert(fname_len < 256);
     string fname(fname_len, '\0');
-- 
2.43.0


From 3e9594620b2b32b5bbd8d1018e58b1a8d34947e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 24/64] fix: sentserver queued ===SYNCH=== with an
 uninitialised status

Another thread could flush and free it while it was still in use.
---
 training/utils/sentserver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/training/utils/sentserver.cc b/training/utils/sentserver.cc
index b425955..c5de8f0 100644
--- a/training/utils/sentserver.cc
+++ b/training/utils/sentserver.cc
@@ -88,6 +88,7 @@ struct line * queue_get(int fid) {
 		cur = (line*)malloc(sizeof (struct line));
 		cur->id = n_sent;
 		cur->s = s;
+		cur->status = STATUS_RUNNING;
 		cur->next = NULL;
 
 		*ptail = cur;
@@ -113,7 +114,6 @@ struct line * queue_get(int fid) {
 			s = read_line(0,0);
 		} else {
 			if (log_mutex) fprintf(stderr, "  Received new data %d (fid %d)\n", cur->id, fid);
-			cur->status = STATUS_RUNNING;
 			if (log_mutex) fprintf(stderr, "Unlocking queue mutex (%d)\n", fid);
 			pthread_mutex_unlock(&queue_mutex);
 			return cur;
-- 
2.43.0


From e71c10267fe746a6ff64929a326416b2f14b76b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 25/64] fix: sentserver crashed when a client left before
 sending its key

---
 training/utils/sentserver.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/training/utils/sentserver.cc b/training/utils/sentserver.cc
index c5de8f0..59c2af1 100644
--- a/training/utils/sentserver.cc
+++ b/training/utils/sentserver.cc
@@ -494,8 +494,8 @@ int main (int argc, char *argv[]) {
 			free(client);
 		} else {
 			client_key = read_line(client->s,0);
-			client_key[strlen(client_key)-1]='\0'; /* chop trailing newline */
-			if (strcmp(key, client_key)==0){
+			if (client_key) client_key[strlen(client_key)-1]='\0'; /* chop trailing newline */
+			if (client_key && strcmp(key, client_key)==0){
 				pthread_create(&tid, NULL, new_client, client);
 			} else {
 				fprintf(stderr, "Prospective client failed to respond with correct key.\n");
-- 
2.43.0


From 9afa987069d3dc3b50db72ad663a28535d61068c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 26/64] fix: sentserver lost finished sentences behind an
 unfinished one when clients ran out

---
 training/utils/sentserver.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/training/utils/sentserver.cc b/training/utils/sentserver.cc
index 59c2af1..27aac79 100644
--- a/training/utils/sentserver.cc
+++ b/training/utils/sentserver.cc
@@ -139,19 +139,20 @@ struct line * queue_get(int fid) {
 
 void queue_panic() {
 	struct line *next;
-	while (head && head->status == STATUS_FINISHED) {
+	while (head) {
 		/* Write out finished sentences */
 		if (head->status == STATUS_FINISHED) {
 			fputs(head->s, stdout);
 			fflush(stdout);
 		}
 		/* Write out blank line for unfinished sentences */
-		if (head->status == STATUS_ABORTED) {
+		else {
 			fputs("\n", stdout);
 			fflush(stdout);
 		}
-		/* By defition, there cannot be any RUNNING sentences, since
-		function is only called when n_clients == 0 */
+		/* A RUNNING sentence here belongs to a client that has died but
+		has not aborted it yet, since this function is only called when
+		n_clients == 0 */
 		free(head->s);
 		next = head->next;
 		free(head);
-- 
2.43.0


From 679b66162d8ec75827d14aa3e9e7b58f48816d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 27/64] fix: sentserver hung when a client died while the last
 other one was being dismissed

---
 training/utils/sentserver.cc | 39 +++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/training/utils/sentserver.cc b/training/utils/sentserver.cc
index 27aac79..f366261 100644
--- a/training/utils/sentserver.cc
+++ b/training/utils/sentserver.cc
@@ -46,9 +46,23 @@ int log_mutex = 0;
 int stay_alive = 0;		/* dont panic and die with zero clients */
 
 void queue_finish(struct line *node, char *s, int fid);
+void queue_panic();
 char * read_line(int fd, int multiline);
 void done (int code);
 
+/* Returns an aborted sentence, if there is one. queue_mutex must be held. */
+struct line * queue_take_aborted() {
+	struct line *cur;
+
+	for (cur = head; cur != NULL; cur = cur->next) {
+		if (cur->status == STATUS_ABORTED) {
+			cur->status = STATUS_RUNNING;
+			return cur;
+		}
+	}
+	return NULL;
+}
+
 struct line * queue_get(int fid) {
 	struct line *cur;
 	char *s, *synch;
@@ -60,18 +74,10 @@ struct line * queue_get(int fid) {
 	/* First, check for aborted sentences. */
 
 	if (log_mutex) fprintf(stderr, "  Checking queue for aborted jobs (fid %d)\n", fid);
-	for (cur = head; cur != NULL; cur = cur->next) {
-		if (cur->status == STATUS_ABORTED) {
-			cur->status = STATUS_RUNNING;
-
-			if (log_mutex) fprintf(stderr, "Unlocking queue mutex (%d)\n", fid);
-			pthread_mutex_unlock(&queue_mutex);
-
-			return cur;
-		}
-	}
+	cur = queue_take_aborted();
 	if (log_mutex) fprintf(stderr, "Unlocking queue mutex (%d)\n", fid);
 	pthread_mutex_unlock(&queue_mutex);
+	if (cur) return cur;
 
 	/* Otherwise, read a new one. */
 	if (log_mutex) fprintf(stderr, "Locking input mutex (%d)\n", fid);
@@ -129,12 +135,15 @@ struct line * queue_get(int fid) {
 	if (head == NULL) {
 		fprintf(stderr, "Reached end of file. Exiting.\n");
 		done(0);
-	} else
+	}
+	/* A client may have died while this one was reading */
+	cur = queue_take_aborted();
+	if (cur == NULL)
 		ptail = NULL; /* This serves as a signal that there is no more input */
 	if (log_mutex) fprintf(stderr, "Unlocking queue mutex (%d)\n", fid);
 	pthread_mutex_unlock(&queue_mutex);
 
-	return NULL;
+	return cur;
 }
 
 void queue_panic() {
@@ -364,6 +373,12 @@ void * new_client(void *arg) {
       n_clients--;
       pthread_mutex_unlock(&clients_mutex);
       fprintf(stderr, "Client dismissed (%d connected)\n", n_clients);
+
+      /* The others may have died since; nobody is left to notice then */
+      pthread_mutex_lock(&queue_mutex);
+      if (n_clients == 0 && head != NULL && !stay_alive)
+        queue_panic();
+      pthread_mutex_unlock(&queue_mutex);
       pthread_exit(NULL);
     }
 
-- 
2.43.0


From 2afbf1d114cce96b170b434ff1dbef9558a39607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 28/64] fix: sentserver kept aborted sentences back until the
 next line of input

Whoever waits for the results before sending more waited forever.
---
 training/utils/sentserver.cc | 37 ++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/training/utils/sentserver.cc b/training/utils/sentserver.cc
index f366261..4e974da 100644
--- a/training/utils/sentserver.cc
+++ b/training/utils/sentserver.cc
@@ -63,6 +63,31 @@ struct line * queue_take_aborted() {
 	return NULL;
 }
 
+/* Waits until there is something to read, or returns a sentence aborted
+   in the meantime. input_mutex must be held. */
+struct line * wait_for_input() {
+	struct line *cur;
+	struct timeval timeout;
+	fd_set set;
+	int ready;
+
+	for (;;) {
+		FD_ZERO(&set);
+		FD_SET(0, &set);
+		timeout.tv_sec = 1;
+		timeout.tv_usec = 0;
+		ready = select(1, &set, NULL, NULL, &timeout);
+		if (ready != 0)
+			return NULL;
+
+		pthread_mutex_lock(&queue_mutex);
+		cur = queue_take_aborted();
+		pthread_mutex_unlock(&queue_mutex);
+		if (cur)
+			return cur;
+	}
+}
+
 struct line * queue_get(int fid) {
 	struct line *cur;
 	char *s, *synch;
@@ -83,6 +108,12 @@ struct line * queue_get(int fid) {
 	if (log_mutex) fprintf(stderr, "Locking input mutex (%d)\n", fid);
 	if (log_mutex) fprintf(stderr, "  Reading input for new data (fid %d)\n", fid);
 	pthread_mutex_lock(&input_mutex);
+	cur = wait_for_input();
+	if (cur) {
+		if (log_mutex) fprintf(stderr, "Unlocking input mutex (%d)\n", fid);
+		pthread_mutex_unlock(&input_mutex);
+		return cur;
+	}
 	s = read_line(0,0);
 
 	while (s) {
@@ -116,6 +147,12 @@ struct line * queue_get(int fid) {
 			if (log_mutex) fprintf(stderr, "Locking input mutex (%d)\n", fid);
 			if (log_mutex) fprintf(stderr, "  Reading input for new data (fid %d)\n", fid);
 			pthread_mutex_lock(&input_mutex);
+			cur = wait_for_input();
+			if (cur) {
+				if (log_mutex) fprintf(stderr, "Unlocking input mutex (%d)\n", fid);
+				pthread_mutex_unlock(&input_mutex);
+				return cur;
+			}
 
 			s = read_line(0,0);
 		} else {
-- 
2.43.0


From 1cf17a194952859dff5c4727c8aac1d94593bc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 29/64] fix: sentserver was killed by writing to a client that
 had reset its connection

---
 training/utils/sentserver.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/training/utils/sentserver.cc b/training/utils/sentserver.cc
index 4e974da..12b4953 100644
--- a/training/utils/sentserver.cc
+++ b/training/utils/sentserver.cc
@@ -12,6 +12,7 @@
 #include <sched.h>
 #include <pthread.h>
 #include <errno.h>
+#include <signal.h>
 
 #include "sentserver.h"
 
@@ -387,7 +388,7 @@ void * new_client(void *arg) {
       /* fprintf(stderr, "Sending to client: %s", cur->s); */
       fprintf(stderr, "Sending data %d to client (fid %d)\n", cur->id, client->s);
       result = write(client->s, cur->s, strlen(cur->s));
-      if (result < strlen(cur->s)){
+      if (result < (int)strlen(cur->s)){
         perror("write()");
         sprintf(errorbuf, "Error code: %d\n", errno);
         fputs(errorbuf, stderr);
@@ -486,6 +487,9 @@ int main (int argc, char *argv[]) {
     }
   }
 
+  /* A dead client must not take the server with it */
+  signal(SIGPIPE, SIG_IGN);
+
   /* Initialize data structures */
   head = NULL;
   ptail = &head;
-- 
2.43.0


From 0e0e7e4fc7cac14963326a4596b024c6c51a0974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 30/64] fix: sentserver added an empty line to the last output
 of a client in multi-line mode

---
 training/utils/sentserver.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/training/utils/sentserver.cc b/training/utils/sentserver.cc
index 12b4953..3deb087 100644
--- a/training/utils/sentserver.cc
+++ b/training/utils/sentserver.cc
@@ -356,6 +356,9 @@ char * read_line(int fd, int multiline) {
     result = read(fd, s+i, 1);
   }
 
+  if (multiline && result == 0 && i > 0 && s[i-1] == '\n')
+    i--; /* connection closed right after the last line */
+
   if (result == 0 && i == 0) { /* end of file */
     free(s);
     return NULL;
-- 
2.43.0


From 1f8100f5463647ba030301cb879d5a4bdb64cd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:39 +0000
Subject: [PATCH 31/64] fix: CER is undefined where the empty reference or no
 reference is closer than deleting everything

---
 mteval/ns_cer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mteval/ns_cer.cc b/mteval/ns_cer.cc
index da6683b..88fe0e3 100644
--- a/mteval/ns_cer.cc
+++ b/mteval/ns_cer.cc
@@ -23,7 +23,7 @@ void CERMetric::ComputeSufficientStatistics(const std::vector<WordID>& hyp,
   for (size_t i = 0; i < refs.size(); ++i) {
     std::string ref_str(TD::GetString(refs[i]));
     float score = cdec::LevenshteinDistance(hyp_str, ref_str);
-    if (score < best_score) {
+    if (i == 0 || score < best_score) {
       out->fields[kEDITDISTANCE] = score;
       out->fields[kCHARCOUNT] = ref_str.size();
       best_score = score;
-- 
2.43.0


From aeff5332ea3a3209795f604980fbead586b849ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:50 +0000
Subject: [PATCH 32/64] fix: encoded sufficient statistics lost digits

---
 mteval/ns.cc     | 1 +
 mteval/scorer.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mteval/ns.cc b/mteval/ns.cc
index 1d37c43..97c3bfe 100644
--- a/mteval/ns.cc
+++ b/mteval/ns.cc
@@ -319,6 +319,7 @@ SufficientStats::SufficientStats(const string& encoded) {
 
 void SufficientStats::Encode(string* out) const {
   ostringstream os;
+  os.precision(9);  // enough to restore any float
   if (id_.size() > 0)
     os << id_;
   else
diff --git a/mteval/scorer.cc b/mteval/scorer.cc
index 71e05e9..960ed4f 100644
--- a/mteval/scorer.cc
+++ b/mteval/scorer.cc
@@ -581,6 +581,7 @@ ScoreP BLEUScore::GetOne() const {
 
 void BLEUScore::Encode(string* out) const {
   ostringstream os;
+  os.precision(9);  // enough to restore any float
   const int n = correct_ngram_hit_counts.size();
   os << n << ' ' << ref_len << ' ' << hyp_len;
   for (int i = 0; i < n; ++i)
-- 
2.43.0


From 34cc605688d787d1dfd3eb5100c2ae9edf0a0ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:50 +0000
Subject: [PATCH 33/64] fix: BLEU of nothing but empty hypotheses was not a
 number

---
 mteval/ns.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mteval/ns.cc b/mteval/ns.cc
index 97c3bfe..784f419 100644
--- a/mteval/ns.cc
+++ b/mteval/ns.cc
@@ -216,6 +216,10 @@ struct BleuMetric : public EvaluationMetric {
         ++count;
       }
     }
+    if (count == 0) {  // nothing but empty hypotheses
+      if (bp) *bp = 0;
+      return 0;
+    }
     log_bleu /= count;
     log_bleu_adj /= count;
     float lbp = 0.0;
-- 
2.43.0


From 2b8c1dfb77dc3491809626ff9fb1c9616e2ba9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:50 +0000
Subject: [PATCH 34/64] fix: reading references without a final newline, with
 empty or with long lines

---
 mteval/ns_docscorer.cc | 25 ++++++++++---------------
 mteval/scorer.cc       | 25 ++++++++++---------------
 2 files changed, 20 insertions(+), 30 deletions(-)

diff --git a/mteval/ns_docscorer.cc b/mteval/ns_docscorer.cc
index 242f134..39fff46 100644
--- a/mteval/ns_docscorer.cc
+++ b/mteval/ns_docscorer.cc
@@ -57,28 +57,23 @@ void DocumentScorer::Init(const EvaluationMetric* metric,
   assert(src_file.empty());
   std::vector<ReadFile> ifs(ref_files.begin(),ref_files.end());
   for (int i=0; i < ref_files.size(); ++i) ifs[i].Init(ref_files[i]);
-  char buf[64000];
+  string line_buf;
   bool expect_eof = false;
   int line=0;
   vector<WordID> tmp;
   vector<vector<WordID> > refs;
-  while (ifs[0].get()) {
+  while (!expect_eof) {
     refs.clear();
     for (int i=0; i < ref_files.size(); ++i) {
       istream &in=ifs[i].get();
-      if (in.eof()) break;
-      in.getline(buf, 64000);
-      if (strlen(buf) == 0) {
-        if (in.eof()) {
-          if (!expect_eof) {
-            assert(i == 0);
-            expect_eof = true;
-          }
-          break;
-        }
-      } else { // read a line from a reference file
+      if (!getline(in, line_buf)) {
+        assert(i == 0);
+        expect_eof = true;
+        break;
+      }
+      if (!line_buf.empty()) { // read a line from a reference file
         tmp.clear();
-        TD::ConvertSentence(buf, &tmp);
+        TD::ConvertSentence(line_buf, &tmp);
         unsigned last = 0;
         for (unsigned j = 0; j < tmp.size(); ++j) {
           if (tmp[j] == kDIV) {
@@ -88,9 +83,9 @@ void DocumentScorer::Init(const EvaluationMetric* metric,
         }
         refs.push_back(vector<WordID>(tmp.begin() + last, tmp.end()));
       }
-      assert(!expect_eof);
     }
     if (!expect_eof) {
+      if (refs.empty()) refs.resize(1);  // the reference is the empty sentence
       string src_line;
       //if (srcrf) {
       //  getline(srcrf.get(), src_line);
diff --git a/mteval/scorer.cc b/mteval/scorer.cc
index 960ed4f..5038a1c 100644
--- a/mteval/scorer.cc
+++ b/mteval/scorer.cc
@@ -641,26 +641,21 @@ void DocScorer::Init(
   std::vector<WordID> tmp;
   std::vector<ReadFile> ifs(ref_files.begin(),ref_files.end());
   for (int i=0; i < ref_files.size(); ++i) ifs[i].Init(ref_files[i]);
-  char buf[64000];
+  string line_buf;
   bool expect_eof = false;
   int line=0;
-  while (ifs[0].get()) {
+  while (!expect_eof) {
     vector<vector<WordID> > refs;
     for (int i=0; i < ref_files.size(); ++i) {
       istream &in=ifs[i].get();
-      if (in.eof()) break;
-      in.getline(buf, 64000);
-      if (strlen(buf) == 0) {
-        if (in.eof()) {
-          if (!expect_eof) {
-            assert(i == 0);
-            expect_eof = true;
-          }
-          break;
-        }
-      } else { // process reference
+      if (!getline(in, line_buf)) {
+        assert(i == 0);
+        expect_eof = true;
+        break;
+      }
+      if (!line_buf.empty()) { // process reference
         tmp.clear();
-        TD::ConvertSentence(buf, &tmp);
+        TD::ConvertSentence(line_buf, &tmp);
         unsigned last = 0;
         for (unsigned j = 0; j < tmp.size(); ++j) {
           if (tmp[j] == kDIV) {
@@ -670,9 +665,9 @@ void DocScorer::Init(
         }
         refs.push_back(vector<WordID>(tmp.begin() + last, tmp.end()));
       }
-      assert(!expect_eof);
     }
     if (!expect_eof) {
+      if (refs.empty()) refs.resize(1);  // the reference is the empty sentence
       string src_line;
       if (srcrf) {
         getline(srcrf.get(), src_line);
-- 
2.43.0


From 6a89b9c11dce3d7a0a64ab47f490264de0591715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:50 +0000
Subject: [PATCH 35/64] fix: fast_score read past the references of the last
 sentence

---
 mteval/fast_score.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mteval/fast_score.cc b/mteval/fast_score.cc
index a271ccc..fc7f624 100644
--- a/mteval/fast_score.cc
+++ b/mteval/fast_score.cc
@@ -55,11 +55,13 @@ int main(int argc, char** argv) {
   int lc = 0;
   string line;
   while(getline(in, line)) {
-    vector<WordID> sent;
-    TD::ConvertSentence(line, &sent);
-    SufficientStats t;
-    ds[lc]->Evaluate(sent, &t);
-    acc += t;
+    if (lc < ds.size()) {
+      vector<WordID> sent;
+      TD::ConvertSentence(line, &sent);
+      SufficientStats t;
+      ds[lc]->Evaluate(sent, &t);
+      acc += t;
+    }
     ++lc;
   }
   assert(lc > 0);
-- 
2.43.0


From 7d5fe8854e9f2cdab979b453dac0bc9abd722add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 36/64] fix: error surfaces left out empty first translations

---
 training/dpmert/ces.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/training/dpmert/ces.cc b/training/dpmert/ces.cc
index 157b2d1..3c67f68 100644
--- a/training/dpmert/ces.cc
+++ b/training/dpmert/ces.cc
@@ -56,7 +56,7 @@ void ComputeErrorSurface(const SegmentEvaluator& ss,
       seg.ConstructTranslation(&trans);
     //}
     //cerr << "Scoring: " << TD::GetString(trans) << endl;
-    if (trans == prev_trans) {
+    if (i > 0 && trans == prev_trans) {
       if (!minimize_segments) {
         ErrorSegment& out = (*env)[j];
         out.delta.fields.clear();
@@ -74,7 +74,7 @@ void ComputeErrorSurface(const SegmentEvaluator& ss,
       //string xx; delta.Encode(&xx); cerr << xx << endl;
       prev_trans.swap(trans);
       prev_score = score;
-      if ((!minimize_segments) || (!delta.IsAdditiveIdentity())) {
+      if ((!minimize_segments) || i == 0 || (!delta.IsAdditiveIdentity())) {
         ErrorSegment& out = (*env)[j];
         out.delta = delta;
         out.x = seg.x;
-- 
2.43.0


From 0580181e48434dce164aa328af3af47134f4b31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 37/64] fix: line search reported scores of steps it did not
 return

---
 training/dpmert/line_optimizer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/training/dpmert/line_optimizer.cc b/training/dpmert/line_optimizer.cc
index 9cf3350..9aebd1e 100644
--- a/training/dpmert/line_optimizer.cc
+++ b/training/dpmert/line_optimizer.cc
@@ -60,8 +60,8 @@ double LineOptimizer::LineOptimize(
 #ifdef SHOW_ERROR_SURFACES
       cerr << "x=" << seg.x << "\ts=" << sco << "\n";
 #endif
-      last_boundary = seg.x;
     }
+    last_boundary = seg.x;
     // cerr << "x-boundary=" << seg.x << "\n";
     //string x2; acc.Encode(&x2); cerr << "   ACC: " << x2 << endl;
     //string x1; seg.delta.Encode(&x1); cerr << " DELTA: " << x1 << endl;
-- 
2.43.0


From 7428b3496c932ea1c75ded41875375979f742b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 38/64] fix: serialised error surfaces were cut at 255 bytes of
 statistics

---
 training/dpmert/error_surface.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/training/dpmert/error_surface.cc b/training/dpmert/error_surface.cc
index 515b67f..b2acce8 100644
--- a/training/dpmert/error_surface.cc
+++ b/training/dpmert/error_surface.cc
@@ -16,7 +16,7 @@ void ErrorSurface::Serialize(std::string* out) const {
     string senc;
     cur.delta.Encode(&senc);
     assert(senc.size() < 1024);
-    unsigned char len = senc.size();
+    unsigned short len = senc.size();
     os.write((const char*)&cur.x, sizeof(cur.x));
     os.write((const char*)&len, sizeof(len));
     os.write((const char*)&senc[0], len);
@@ -31,7 +31,7 @@ void ErrorSurface::Deserialize(const std::string& in) {
   this->resize(segments);
   for (int i = 0; i < segments; ++i) {
     ErrorSegment& cur = (*this)[i];
-    unsigned char len;
+    unsigned short len;
     is.read((char*)&cur.x, sizeof(cur.x));
     is.read((char*)&len, sizeof(len));
     string senc(len, '\0'); assert(senc.size() == len);
-- 
2.43.0


From f5ca5f249a4346a7c09111a957992c202ad95a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 39/64] fix: mr_dpmert_reduce rounded steps to six digits

---
 training/dpmert/mr_dpmert_reduce.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/training/dpmert/mr_dpmert_reduce.cc b/training/dpmert/mr_dpmert_reduce.cc
index 31512a0..92838c9 100644
--- a/training/dpmert/mr_dpmert_reduce.cc
+++ b/training/dpmert/mr_dpmert_reduce.cc
@@ -39,6 +39,7 @@ int main(int argc, char** argv) {
   if (metric->IsErrorMetric())
     opt_type = LineOptimizer::MINIMIZE_SCORE;
 
+  cout.precision(17);  // steps between close boundaries need all their digits
   vector<ErrorSurface> esv;
   string last_key, line, key, val;
   while(getline(cin, line)) {
-- 
2.43.0


From b635ea5cf0c5bc2a42d87cbc3701f65fb1db01e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 40/64] fix: agenda lines dropped features with zero weight

---
 training/dpmert/mr_dpmert_generate_mapper_input.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/training/dpmert/mr_dpmert_generate_mapper_input.cc b/training/dpmert/mr_dpmert_generate_mapper_input.cc
index 3fa2f47..121e6cf 100644
--- a/training/dpmert/mr_dpmert_generate_mapper_input.cc
+++ b/training/dpmert/mr_dpmert_generate_mapper_input.cc
@@ -51,6 +51,8 @@ int main(int argc, char** argv) {
   vector<weight_t> w;
   Weights::InitFromFile(conf["weights"].as<string>(), &w, &features);
   Weights::InitSparseVector(w, &origin);
+  for (unsigned i = 0; i < features.size(); ++i)  // zero weights are part of the origin
+    origin.set_value(FD::Convert(features[i]), w[FD::Convert(features[i])]);
   const string forest_repository = conf["forest_repository"].as<string>();
   if (!DirectoryExists(forest_repository)) {
     cerr << "Forest repository directory " << forest_repository << " not found!\n";
-- 
2.43.0


From 7c89f9fcea9c97a4900e5e48a22354af9829638a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:28 +0000
Subject: [PATCH 41/64] fix: states of histories ending in an absent <unk> are
 minimal like all others

---
 klm/lm/model.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klm/lm/model.cc b/klm/lm/model.cc
index a5a16bf..d7212ec 100644
--- a/klm/lm/model.cc
+++ b/klm/lm/model.cc
@@ -121,7 +121,7 @@ template <class Search, class VocabularyT> void GenericModel<Search, VocabularyT
     if (!vocab_.SawUnk()) {
       assert(config.unknown_missing != THROW_UP);
       // Default probabilities for unknown.
-      search_.UnknownUnigram().backoff = 0.0;
+      search_.UnknownUnigram().backoff = kNoExtensionBackoff;
       search_.UnknownUnigram().prob = config.unknown_missing_logprob;
     }
     backing_.FinishFile(config, kModelType, kVersion, counts);
-- 
2.43.0


From dd3a4eb993db73bdbef54d650bf7ddc89261c069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:28 +0000
Subject: [PATCH 42/64] fix: trie marks every filled-in n-gram that is a
 context, also after the last one of the file

---
 klm/lm/search_trie.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/klm/lm/search_trie.cc b/klm/lm/search_trie.cc
index 7fc70f4..632be6a 100644
--- a/klm/lm/search_trie.cc
+++ b/klm/lm/search_trie.cc
@@ -103,8 +103,9 @@ class BackoffMessages {
       // We'll also use the same buffer to record messages to blanks that they extend.
       WordIndex *extend_out = reinterpret_cast<WordIndex*>(current_);
       const unsigned char order = (entry_size_ - sizeof(ProbPointer)) / sizeof(WordIndex);
-      for (reader.Rewind(); reader && (current_ != allocated_); ) {
-        switch (Compare(order, reader.Data(), current_)) {
+      for (reader.Rewind(); current_ != allocated_; ) {
+        // Messages after the last n-gram have nobody to receive them either.
+        switch (reader ? Compare(order, reader.Data(), current_) : 1) {
           case -1:
             ++reader;
             break;
-- 
2.43.0


From 31f491238809689e76dfb2c2cb13f6021407610f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:28 +0000
Subject: [PATCH 43/64] fix: rest costs of the last word when the model has no
 <unk>; enumerate words once

---
 klm/lm/search_hashed.cc | 3 ++-
 klm/lm/value_build.cc   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/klm/lm/search_hashed.cc b/klm/lm/search_hashed.cc
index 7e63e00..a763953 100644
--- a/klm/lm/search_hashed.cc
+++ b/klm/lm/search_hashed.cc
@@ -264,7 +264,8 @@ template <> void HashedSearch<RestValue>::DispatchBuild(util::FilePiece &f, cons
 }
 
 template <class Value> template <class Build> void HashedSearch<Value>::ApplyBuild(util::FilePiece &f, const std::vector<uint64_t> &counts, const ProbingVocabulary &vocab, PositiveProbWarn &warn, const Build &build) {
-  for (WordIndex i = 0; i < counts[0]; ++i) {
+  // The bound includes <unk> even if the file does not have it.
+  for (WordIndex i = 0; i < vocab.Bound(); ++i) {
     build.SetRest(&i, (unsigned int)1, unigram_.Raw()[i]);
   }
 
diff --git a/klm/lm/value_build.cc b/klm/lm/value_build.cc
index 3ec3dce..7ad7218 100644
--- a/klm/lm/value_build.cc
+++ b/klm/lm/value_build.cc
@@ -11,6 +11,7 @@ template <class Model> LowerRestBuild<Model>::LowerRestBuild(const Config &confi
   Config for_lower = config;
   for_lower.write_mmap = NULL;
   for_lower.rest_lower_files.clear();
+  for_lower.enumerate_vocab = NULL;  // Words of the main model only.
 
   // Unigram models aren't supported, so this is a custom loader.  
   // TODO: optimize the unigram loading?  
@@ -20,7 +21,7 @@ template <class Model> LowerRestBuild<Model>::LowerRestBuild(const Config &confi
     ReadARPACounts(uni, number);
     UTIL_THROW_IF(number.size() != 1, FormatLoadException, "Expected the unigram model to have order 1, not " << number.size());
     ReadNGramHeader(uni, 1);
-    unigrams_.resize(number[0]);
+    unigrams_.resize(vocab.Bound());
     unigrams_[0] = config.unknown_missing_logprob;
     PositiveProbWarn warn;
     for (uint64_t i = 0; i < number[0]; ++i) {
-- 
2.43.0


From 36f0480507c67c431c99fbc7451df8e53533992f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:37 +0000
Subject: [PATCH 44/64] fix: lmplz: compare actual counts with the pruning
 thresholds in the last n-grams too

---
 klm/lm/builder/adjust_counts.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/klm/lm/builder/adjust_counts.cc b/klm/lm/builder/adjust_counts.cc
index 803c557..f3138e4 100644
--- a/klm/lm/builder/adjust_counts.cc
+++ b/klm/lm/builder/adjust_counts.cc
@@ -269,7 +269,9 @@ void AdjustCounts::Run(const util::stream::ChainPositions &positions) {
 
   // Output everything valid.
   for (NGramStream *s = streams.begin(); s <= lower_valid; ++s) {
-    if((*s)->Count() <= prune_thresholds_[(*s)->Order() - 1])
+    // As above, compare the actual count (not the adjusted one).
+    uint64_t order = (*s)->Order();
+    if(order > 1 && prune_thresholds_[order - 1] && lower_counts[order - 1] <= prune_thresholds_[order - 1])
       (*s)->Mark();
     stats.Add(s - streams.begin(), (*s)->UnmarkedCount(), (*s)->IsMarked());
     ++*s;
-- 
2.43.0


From 3d619a67bab75489605ea09a8f7242e80371b090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:25 +0000
Subject: [PATCH 45/64] fix: read weights files of fewer than five characters,
 and weights from standard input

---
 utils/weights.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/weights.cc b/utils/weights.cc
index 7d5d96d..3c736d5 100644
--- a/utils/weights.cc
+++ b/utils/weights.cc
@@ -19,14 +19,14 @@ void Weights::InitFromFile(const string& filename,
   assert(in);
   
   bool read_text = true;
-  if (1) {
+  if (!in_file.is_std()) {  // standard input cannot be read twice
     ReadFile hdrrf(filename);
     istream& hi = *hdrrf.stream();
     assert(hi);
     char buf[10];
     hi.read(buf, 5);
-    assert(hi.good());
-    if (strncmp(buf, "_PHWf", 5) == 0) {
+    // text files may be shorter than the header (or empty)
+    if (hi.gcount() == 5 && strncmp(buf, "_PHWf", 5) == 0) {
       read_text = false;
     }
   }
-- 
2.43.0


From e3d68d9959824cf56f7decda749f412a3efc29c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:25 +0000
Subject: [PATCH 46/64] fix: weight strings: no weights to show, and features
 new to the vector

---
 utils/weights.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/utils/weights.cc b/utils/weights.cc
index 3c736d5..dc1cc00 100644
--- a/utils/weights.cc
+++ b/utils/weights.cc
@@ -171,7 +171,8 @@ string Weights::GetString(const vector<weight_t>& w,
         }
         os << ' ' << FD::Convert(i) << '=' << val;
     }
-    return os.str().substr(1);
+    const string str = os.str();
+    return str.empty() ? str : str.substr(1);
 }
 
 void Weights::UpdateFromString(string& w_string,
@@ -179,7 +180,9 @@ void Weights::UpdateFromString(string& w_string,
     vector<string> tok = SplitOnWhitespace(w_string);
     for (vector<string>::iterator i = tok.begin(); i != tok.end(); i++) {
         int delim = i->find('=');
-        int fid = FD::Convert(i->substr(0, delim));
+        const unsigned fid = FD::Convert(i->substr(0, delim));
+        if (w.size() <= fid)
+            w.resize(fid + 1);
         w[fid] = strtod(i->substr(delim + 1).c_str(), NULL);
     }
 }
-- 
2.43.0


From 18469b05c261866eb51ed984935cbb9cb9b41089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:55 +0000
Subject: [PATCH 47/64] fix: do not read the last line of a weights file twice
 when it has no line end

---
 utils/weights.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/utils/weights.cc b/utils/weights.cc
index dc1cc00..bac3532 100644
--- a/utils/weights.cc
+++ b/utils/weights.cc
@@ -36,8 +36,7 @@ void Weights::InitFromFile(const string& filename,
     bool fl = false;
     string buf;
     double val = 0;
-    while (in) {
-      getline(in, buf);
+    while (getline(in, buf)) {
       if (buf.size() == 0) continue;
       if (buf[0] == '#') continue;
       if (buf[0] == ' ') {
-- 
2.43.0


From a23159d7f2d1e156848db44495706d2203f9abe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:55 +0000
Subject: [PATCH 48/64] fix: extractor: the sampler may not step back below the
 range of the phrase

---
 extractor/backoff_sampler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extractor/backoff_sampler.cc b/extractor/backoff_sampler.cc
index 891276c..7fb4759 100644
--- a/extractor/backoff_sampler.cc
+++ b/extractor/backoff_sampler.cc
@@ -30,7 +30,7 @@ PhraseLocation BackoffSampler::Sample(
       for (double backoff_step = 1; backoff_step < step; ++backoff_step) {
         double j = i - backoff_step;
         sample = round(j);
-        if (sample >= 0) {
+        if (sample >= low) {
           position = GetPosition(location, sample);
           sentence_id = source_data_array->GetSentenceId(position);
           if (sample > last && !blacklisted_sentence_ids.count(sentence_id)) {
-- 
2.43.0


From 0da6441744e973571e44ae9ff6fd1e5aa3bd81f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:55 +0000
Subject: [PATCH 49/64] fix: extractor: the last word of the corpus does not
 start a longer frequent pattern

---
 extractor/precomputation.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extractor/precomputation.cc b/extractor/precomputation.cc
index 3e58e2a..0cfdfd3 100644
--- a/extractor/precomputation.cc
+++ b/extractor/precomputation.cc
@@ -84,7 +84,7 @@ vector<vector<int>> Precomputation::FindMostFrequentPatterns(
     for (int len = lcp[i]; len < max_frequent_phrase_len; ++len) {
       int frequency = i - run_start[len];
       int start = suffix_array->GetSuffix(run_start[len]);
-      if (frequency >= min_frequency && start + len <= data.size()) {
+      if (frequency >= min_frequency && start + len < data.size()) {
         heap.push(make_pair(frequency, make_pair(start, len + 1)));
       }
       run_start[len] = i;
-- 
2.43.0


From 5dfc89e813709f71da981d5a818fcaf096757ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:55 +0000
Subject: [PATCH 50/64] fix: extractor: remove the whole third phrase from the
 key of a ternary collocation

---
 extractor/precomputation.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extractor/precomputation.cc b/extractor/precomputation.cc
index 0cfdfd3..27dea58 100644
--- a/extractor/precomputation.cc
+++ b/extractor/precomputation.cc
@@ -160,7 +160,7 @@ void Precomputation::UpdateIndex(
                 && (is_super1 || is_super3)) {
               AppendSubpattern(pattern, annotations[k]);
               AppendCollocation(index[pattern], start1, start2, start3);
-              pattern.erase(pattern.end() - size3);
+              pattern.erase(pattern.end() - size3, pattern.end());
             }
           }
         }
-- 
2.43.0


From 3d0b508bab51cda29ba1ad3945dfc59012a2c6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:55 +0000
Subject: [PATCH 51/64] fix: extractor: no nonterminals beyond the ends of the
 sentence

---
 extractor/rule_extractor.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/extractor/rule_extractor.cc b/extractor/rule_extractor.cc
index d918117..a3975f7 100644
--- a/extractor/rule_extractor.cc
+++ b/extractor/rule_extractor.cc
@@ -237,6 +237,12 @@ void RuleExtractor::AddNonterminalExtremities(
     int extend_left, int extend_right) const {
   int source_x_low = source_back_low, source_x_high = source_back_high;
 
+  // Check if the sentence has words left for the new nonterminals.
+  if (source_back_low < extend_left ||
+      source_back_high + extend_right > int(source_low.size())) {
+    return;
+  }
+
   // Check if the extended source phrase will remain tight.
   if (require_tight_phrases) {
     if (source_low[source_back_low - extend_left] == -1 ||
-- 
2.43.0


From 9caf6fc33d4dcc7e070521764caa97e21809bfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:55 +0000
Subject: [PATCH 52/64] fix: extractor: order of the gaps on the target side
 with three gaps

---
 extractor/rule_extractor_helper.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/extractor/rule_extractor_helper.cc b/extractor/rule_extractor_helper.cc
index d7e332d..6b7e553 100644
--- a/extractor/rule_extractor_helper.cc
+++ b/extractor/rule_extractor_helper.cc
@@ -331,15 +331,16 @@ bool RuleExtractorHelper::GetGaps(
 
 vector<int> RuleExtractorHelper::GetGapOrder(
     const vector<pair<int, int>>& gaps) const {
+  // gap_order[r] is the index of the gap which comes r-th on the target side.
   vector<int> gap_order(gaps.size());
-  for (size_t i = 0; i < gap_order.size(); ++i) {
-    for (size_t j = 0; j < i; ++j) {
-      if (gaps[gap_order[j]] < gaps[i]) {
-        ++gap_order[i];
-      } else {
-        ++gap_order[j];
+  for (size_t i = 0; i < gaps.size(); ++i) {
+    int rank = 0;
+    for (size_t j = 0; j < gaps.size(); ++j) {
+      if (gaps[j] < gaps[i] || (j < i && gaps[j] == gaps[i])) {
+        ++rank;
       }
     }
+    gap_order[rank] = i;
   }
   return gap_order;
 }
-- 
2.43.0


From 8a79949ce73e4d107489561ecfc3e38d905dfa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:47 +0000
Subject: [PATCH 53/64] fix: tree2string: rules match only trees with the same
 brackets

The grammar trie was keyed by the symbols met on a depth-first walk, without
the number of children, so that (VP [V] (NP [D] [N] [PP])) also matched
(VP (V a) (NP (D b) (N c)) (PP d)).
---
 decoder/tree2string_translator.cc | 28 +++++++++++++++++++---------
 decoder/tree_fragment.h           |  5 +++++
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/decoder/tree2string_translator.cc b/decoder/tree2string_translator.cc
index cdd83ff..5b667b0 100644
--- a/decoder/tree2string_translator.cc
+++ b/decoder/tree2string_translator.cc
@@ -19,10 +19,19 @@
 using namespace std;
 
 struct Tree2StringGrammarNode {
-  map<unsigned, Tree2StringGrammarNode> next;
+  map<uint64_t, Tree2StringGrammarNode> next;
   vector<TRulePtr> rules;
 };
 
+// key of the symbol the iterator is at. The number of children is part of the
+// key of a LHS symbol: trees that differ only in their brackets have the same
+// sequence of symbols
+static uint64_t GrammarKey(const cdec::TreeFragment::iterator& it) {
+  uint64_t key = *it;
+  if (cdec::IsLHS(*it)) key |= static_cast<uint64_t>(it.arity()) << 32;
+  return key;
+}
+
 // this needs to be rewritten so it is fast and checks errors well
 // use a lexer probably
 static void ReadTree2StringGrammar(istream* in, Tree2StringGrammarNode* root, bool has_multiple_states) {
@@ -50,9 +59,10 @@ static void ReadTree2StringGrammar(istream* in, Tree2StringGrammarNode* root, bo
     // build source RHS for SCFG projection
     vector<int> frhs;
     // we traverse the rule_src in left to right, DFS order
-    for (auto sym : rule_src) {
+    for (auto src_it = rule_src.begin(); src_it != rule_src.end(); ++src_it) {
+      const unsigned sym = *src_it;
       //cerr << TD::Convert(sym & cdec::ALL_MASK) << endl;
-      cur = &cur->next[sym];
+      cur = &cur->next[GrammarKey(src_it)];
       if (cdec::IsFrontier(sym)) {  // frontier symbols -> variables
         int nt = (sym & cdec::ALL_MASK);
         frhs.push_back(-nt);
@@ -193,10 +203,10 @@ struct Tree2StringTranslatorImpl {
       cur = &it->second;
       bool failed = false;
       vector<int> trg;
-      for (auto sym : src) {
-        it = cur->next.find(sym);
+      for (auto src_it = src.begin(); src_it != src.end(); ++src_it) {
+        it = cur->next.find(GrammarKey(src_it));
         if (it == cur->next.end()) { failed = true; break; }
-        if (cdec::IsFrontier(sym)) trg.push_back(-trg.size());
+        if (cdec::IsFrontier(*src_it)) trg.push_back(-trg.size());
         cur = &it->second;
       }
       if (failed) continue;
@@ -264,8 +274,8 @@ struct Tree2StringTranslatorImpl {
       // the following reduces ambiguity quite a lot
       if (abstract_rule && DoesAbstractPassThroughRuleExist(transducer_state, rule_src)) continue; 
       cur = &cur->next[transducer_state];
-      for (auto sym : rule_src)
-        cur = &cur->next[sym];
+      for (auto src_it = rule_src.begin(); src_it != rule_src.end(); ++src_it)
+        cur = &cur->next[GrammarKey(src_it)];
       TRulePtr rule(new TRule(rhse, rhsf, lhs));
       rule->a_.push_back(AlignmentPoint(0, 0));
       rule->ComputeArity();
@@ -358,7 +368,7 @@ struct Tree2StringTranslatorImpl {
       } else { // more input tree to match
         unsigned sym = *s.in_iter;
         if (cdec::IsLHS(sym)) {
-          auto nit = s.node->next.find(sym);
+          auto nit = s.node->next.find(GrammarKey(s.in_iter));
           if (nit != s.node->next.end()) {
             //cerr << "MATCHED LHS: " << TD::Convert(sym & cdec::ALL_MASK) << endl;
             ParserState news(++s.in_iter, &nit->second, s);
diff --git a/decoder/tree_fragment.h b/decoder/tree_fragment.h
index e19b79f..c420872 100644
--- a/decoder/tree_fragment.h
+++ b/decoder/tree_fragment.h
@@ -124,6 +124,11 @@ class DepthFirstIterator : public std::iterator<std::forward_iterator_tag, unsig
     return (tf_ != other.tf_) || (q_ != other.q_);
   }
   unsigned node_idx() const { return q_.front().node; }
+  // number of children of the node whose LHS symbol was just read
+  unsigned arity() const {
+    assert(IsLHS(sym));
+    return tf_->nodes[q_.back().node].rhs.size();
+  }
   const DepthFirstIterator& operator++() {
     TFIState& s = q_.back();
     if (s.state == 0) {
-- 
2.43.0


From 298ba794f1c04d7267c02fcba966c601f7ab6dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:05 +0000
Subject: [PATCH 54/64] fix: candidate pools recognise a candidate they already
 hold

The hash used bits the comparison rounds away, the rounding kept one
low-order bit, and both depended on the order in which the features are
stored, so a candidate read back from a repository was kept twice.
---
 training/utils/candidate_set.cc | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/training/utils/candidate_set.cc b/training/utils/candidate_set.cc
index 36f5b27..acb4948 100644
--- a/training/utils/candidate_set.cc
+++ b/training/utils/candidate_set.cc
@@ -35,18 +35,22 @@ struct ApproxVectorHasher {
     if ((r << 1) > MASK)
       t.i += MASK - r + 1;
     else
-      t.i &= (1ull - MASK);
+      t.i &= ~MASK;
     return t.f;
   }
   size_t operator()(const SparseVector<double>& x) const {
+    // must agree with ApproxVectorEquals: same values for the same features,
+    // whatever the order they are stored in
     size_t h = 0x573915839;
     for (SparseVector<double>::const_iterator it = x.begin(); it != x.end(); ++it) {
       UType t;
-      t.f = it->second;
+      t.f = round(it->second);
       if (t.f) {
         size_t z = (t.i >> 32);
-        boost::hash_combine(h, it->first);
-        boost::hash_combine(h, z);
+        size_t hf = 0;
+        boost::hash_combine(hf, it->first);
+        boost::hash_combine(hf, z);
+        h += hf;
       }
     }
     return h;
@@ -55,15 +59,13 @@ struct ApproxVectorHasher {
 
 struct ApproxVectorEquals {
   bool operator()(const SparseVector<double>& a, const SparseVector<double>& b) const {
-    SparseVector<double>::const_iterator bit = b.begin();
-    for (SparseVector<double>::const_iterator ait = a.begin(); ait != a.end(); ++ait) {
-      if (bit == b.end() ||
-          ait->first != bit->first ||
-          ApproxVectorHasher::round(ait->second) != ApproxVectorHasher::round(bit->second))
+    return Covers(a, b) && Covers(b, a);
+  }
+ private:
+  static bool Covers(const SparseVector<double>& a, const SparseVector<double>& b) {
+    for (SparseVector<double>::const_iterator it = a.begin(); it != a.end(); ++it)
+      if (ApproxVectorHasher::round(it->second) != ApproxVectorHasher::round(b.value(it->first)))
         return false;
-      ++bit;
-    }
-    if (bit != b.end()) return false;
     return true;
   }
 };
-- 
2.43.0


From db4bcef9f64dd64c9ad9b35321e96750ffd4f895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:05 +0000
Subject: [PATCH 55/64] fix: candidate pools are written with all digits of the
 features

---
 training/utils/candidate_set.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/training/utils/candidate_set.cc b/training/utils/candidate_set.cc
index acb4948..a08ed13 100644
--- a/training/utils/candidate_set.cc
+++ b/training/utils/candidate_set.cc
@@ -115,7 +115,7 @@ static void ParseSparseVector(string& line, size_t cur, SparseVector<double>* ou
 void CandidateSet::WriteToFile(const string& file) const {
   WriteFile wf(file);
   ostream& out = *wf.stream();
-  out.precision(10);
+  out.precision(17);  // enough to restore any double
   string ss;
   for (unsigned i = 0; i < cs.size(); ++i) {
     out << TD::GetString(cs[i].ewords) << endl;
-- 
2.43.0


From a5032870bbe5ea82bc07b6ef4ea99cd87a028c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:05 +0000
Subject: [PATCH 56/64] fix: read back candidates that have no features

---
 training/utils/candidate_set.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/training/utils/candidate_set.cc b/training/utils/candidate_set.cc
index a08ed13..c3ae133 100644
--- a/training/utils/candidate_set.cc
+++ b/training/utils/candidate_set.cc
@@ -88,6 +88,7 @@ struct CandidateHasher {
 };
 
 static void ParseSparseVector(string& line, size_t cur, SparseVector<double>* out) {
+  if (cur >= line.size()) return;  // no features
   SparseVector<double>& x = *out;
   size_t last_start = cur;
   size_t last_comma = string::npos;
-- 
2.43.0


From e5283cae2e5e00f86beaee9a477f9be70294e79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:05 +0000
Subject: [PATCH 57/64] fix: rampion and minrisk keep one repository file per
 sentence

The name of the file was formed before the number of the sentence was read.
---
 training/minrisk/minrisk_optimize.cc | 2 +-
 training/rampion/rampion_cccp.cc     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/training/minrisk/minrisk_optimize.cc b/training/minrisk/minrisk_optimize.cc
index f90c711..9a925a1 100644
--- a/training/minrisk/minrisk_optimize.cc
+++ b/training/minrisk/minrisk_optimize.cc
@@ -164,6 +164,7 @@ int main(int argc, char** argv) {
   while(getline(in, line)) {
     istringstream is(line);
     int sent_id = 0;
+    is >> file >> sent_id;
     kis.resize(kis.size() + 1);
     training::CandidateSet& curkbest = kis.back();
     string kbest_file;
@@ -174,7 +175,6 @@ int main(int argc, char** argv) {
       if (FileExists(kbest_file))
         curkbest.ReadFromFile(kbest_file);
     }
-    is >> file >> sent_id;
     ReadFile rf(file);
     if (kis.size() % 5 == 0) { cerr << '.'; }
     if (kis.size() % 200 == 0) { cerr << " [" << kis.size() << "]\n"; }
diff --git a/training/rampion/rampion_cccp.cc b/training/rampion/rampion_cccp.cc
index 1c45bac..dd67bef 100644
--- a/training/rampion/rampion_cccp.cc
+++ b/training/rampion/rampion_cccp.cc
@@ -122,6 +122,7 @@ int main(int argc, char** argv) {
   while(getline(in, line)) {
     istringstream is(line);
     int sent_id;
+    is >> file >> sent_id;
     kis.resize(kis.size() + 1);
     training::CandidateSet& curkbest = kis.back();
     string kbest_file;
@@ -132,7 +133,6 @@ int main(int argc, char** argv) {
       if (FileExists(kbest_file))
         curkbest.ReadFromFile(kbest_file);
     }
-    is >> file >> sent_id;
     ReadFile rf(file);
     if (kis.size() % 5 == 0) { cerr << '.'; }
     if (kis.size() % 200 == 0) { cerr << " [" << kis.size() << "]\n"; }
-- 
2.43.0


From e2ec532ba0e7e15f29755db808af118d037a99fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:05 +0000
Subject: [PATCH 58/64] fix: mr_pro_map does not hang on a pool of one
 candidate

---
 training/pro/mr_pro_map.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/training/pro/mr_pro_map.cc b/training/pro/mr_pro_map.cc
index b142fd0..4346b5a 100644
--- a/training/pro/mr_pro_map.cc
+++ b/training/pro/mr_pro_map.cc
@@ -208,7 +208,8 @@ int main(int argc, char** argv) {
     J_i.AddKBestCandidates(hg, kbest_size, ds[sent_id]);
     J_i.WriteToFile(kbest_file);
 
-    Sample(gamma, xi, J_i, metric, &v);
+    if (J_i.size() > 1)  // no pairs otherwise
+      Sample(gamma, xi, J_i, metric, &v);
     for (unsigned i = 0; i < v.size(); ++i) {
       const TrainingInstance& vi = v[i];
       cout << vi.y << "\t" << vi.x << endl;
-- 
2.43.0


From 730774fc8bcad539b34f5a45f2bebebe7f532cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:05 +0000
Subject: [PATCH 59/64] fix: mbr_kbest treats every error metric as a loss

---
 mteval/mbr_kbest.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mteval/mbr_kbest.cc b/mteval/mbr_kbest.cc
index eb36e00..7e5db35 100644
--- a/mteval/mbr_kbest.cc
+++ b/mteval/mbr_kbest.cc
@@ -108,7 +108,7 @@ int main(int argc, char** argv) {
   const string smetric = conf["evaluation_metric"].as<string>();
   EvaluationMetric* metric = EvaluationMetric::Instance(smetric);
 
-  const bool is_loss = (UppercaseString(smetric) == "TER");
+  const bool is_loss = metric->IsErrorMetric();
   const bool output_list = conf.count("output_list") > 0;
   vector<string> file;
   if (conf.count("input") == 0)
-- 
2.43.0


From 9f743f2750b76c579c428f7d6c248b316cb9b033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:05 +0000
Subject: [PATCH 60/64] fix: mbr_kbest keeps the first item of every list under
 its own sentence

A list of one item was printed under the previous sentence's number and an
empty first hypothesis was lost.
---
 mteval/mbr_kbest.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mteval/mbr_kbest.cc b/mteval/mbr_kbest.cc
index 7e5db35..624a604 100644
--- a/mteval/mbr_kbest.cc
+++ b/mteval/mbr_kbest.cc
@@ -59,14 +59,15 @@ bool ReadKBestList(const vector<double>& mbr_scale,
   static string cache_id;
   pair<vector<WordID>, prob_t> tmp_pair;
   static vector<pair<vector<WordID>, prob_t> > cache_pair(rfs.size());
+  static vector<bool> cached(rfs.size(), false);
   list->clear();
   string cur_id;
-  if (cache_pair[0].first.size() > 0) {
-    for (unsigned i = 0; i < cache_pair.size(); ++i)
-      list->push_back(cache_pair[i]);
+  for (unsigned i = 0; i < cache_pair.size(); ++i) {
+    if (!cached[i]) continue;
+    list->push_back(cache_pair[i]);
     cur_id = cache_id;
-    cache_pair.clear();
-    cache_pair.resize(rfs.size());
+    *sent_id = cur_id;
+    cached[i] = false;
   }
   string line;
   string tstr;
@@ -90,6 +91,7 @@ bool ReadKBestList(const vector<double>& mbr_scale,
         tmp_pair.first.clear();
       } else {
         swap(cache_pair[fi], tmp_pair);
+        cached[fi] = true;
         break;
       }
     }
-- 
2.43.0


From 1a39a08449ed54f9a21fcb62211e983f12dcc65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:55 +0000
Subject: [PATCH 61/64] fix: fast_align: do not read past the Viterbi table
 when writing parameters, honour -V

---
 word-aligner/fast_align.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/word-aligner/fast_align.cc b/word-aligner/fast_align.cc
index 73b7239..cd11712 100644
--- a/word-aligner/fast_align.cc
+++ b/word-aligner/fast_align.cc
@@ -190,8 +190,10 @@ int main(int argc, char** argv) {
                   cout << (max_index - 1) << '-' << j;
               }
             }
-            if (s2t_viterbi.size() <= static_cast<unsigned>(max_i)) s2t_viterbi.resize(max_i + 1);
-            s2t_viterbi[max_i][f_j] = 1.0;
+            if (add_viterbi) {
+              if (s2t_viterbi.size() <= static_cast<unsigned>(max_i)) s2t_viterbi.resize(max_i + 1);
+              s2t_viterbi[max_i][f_j] = 1.0;
+            }
           }
         } else {
           if (use_null) {
@@ -309,6 +311,8 @@ int main(int argc, char** argv) {
 
   if (output_parameters) {
     WriteFile params_out(conf["output_parameters"].as<string>());
+    // source words without any Viterbi link have empty entries
+    if (s2t_viterbi.size() < s2t.ttable.size()) s2t_viterbi.resize(s2t.ttable.size());
     for (unsigned eind = 1; eind < s2t.ttable.size(); ++eind) {
       const auto& cpd = s2t.ttable[eind];
       const TTable::Word2Double& vit = s2t_viterbi[eind];
-- 
2.43.0


From 8b27c7a408f70f98af684c09efee51683e14c833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:55 +0000
Subject: [PATCH 62/64] fix: diagonal aligner: lengths were swapped in the
 derivative of log Z

---
 word-aligner/da.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/word-aligner/da.h b/word-aligner/da.h
index c979b64..94ccacc 100644
--- a/word-aligner/da.h
+++ b/word-aligner/da.h
@@ -41,7 +41,7 @@ struct DiagonalAlignment {
   }
 
   static double ComputeDLogZ(const unsigned i, const unsigned m, const unsigned n, const double alpha) {
-    const double z = ComputeZ(i, n, m, alpha);
+    const double z = ComputeZ(i, m, n, alpha);
     const double split = double(i) * n / m;
     const unsigned floor = split;
     const unsigned ceil = floor + 1;
-- 
2.43.0


From 0b5debfd2562638747bef8390645ace9fb4d9a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:55 +0000
Subject: [PATCH 63/64] fix: fast_align: diagonal feature of the posteriors
 counts target positions from 1, as the model does

---
 word-aligner/fast_align.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/word-aligner/fast_align.cc b/word-aligner/fast_align.cc
index cd11712..000178b 100644
--- a/word-aligner/fast_align.cc
+++ b/word-aligner/fast_align.cc
@@ -204,7 +204,7 @@ int main(int argc, char** argv) {
           for (unsigned i = 1; i <= src.size(); ++i) {
             const double p = probs[i] / sum;
             s2t.Increment(src[i-1], f_j, p);
-            emp_feat += DiagonalAlignment::Feature(j, i, trg.size(), src.size()) * p;
+            emp_feat += DiagonalAlignment::Feature(j + 1, i, trg.size(), src.size()) * p;
           }
         }
         likelihood += log(sum);
-- 
2.43.0


From 9b373ad5d7410e110ca9fc35aaa8a732b2acfab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:55 +0000
Subject: [PATCH 64/64] fix: fast_align: --beam_threshold 0 keeps the best
 parameter of every source word

---
 word-aligner/fast_align.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/word-aligner/fast_align.cc b/word-aligner/fast_align.cc
index 000178b..9916d16 100644
--- a/word-aligner/fast_align.cc
+++ b/word-aligner/fast_align.cc
@@ -322,7 +322,7 @@ int main(int argc, char** argv) {
         if (fi.second > max_p) max_p = fi.second;
       const double threshold = max_p * BEAM_THRESHOLD;
       for (auto& fi : cpd) {
-        if (fi.second > threshold || (vit.find(fi.first) != vit.end())) {
+        if ((fi.second > 0 && fi.second >= threshold) || (vit.find(fi.first) != vit.end())) {
           *params_out << esym << ' ' << TD::Convert(fi.first) << ' ' << log(fi.second) << endl;
         }
       } 
-- 
2.43.0

