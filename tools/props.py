#!/usr/bin/env python3
"""Source of properties.jsonl (run to regenerate it)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Chart-parsed forests hold exactly the derivations the SCFG licenses",
 "For a sentence or word lattice, the translation forest built by the SCFG decoder contains exactly the derivations licensed by the loaded grammars, the glue grammar and the pass-through rules under the span limit: none missing, none invented, none duplicated. Each derivation carries the feature values of its rules and of the lattice arcs it consumes, and decoding fails exactly when no such derivation exists.",
 ["inputs", "configurations"],
 "every grammar (including ambiguous ones, unary rules, several categories, repeated rules and gap orders), every input sentence or lattice, every span limit, with and without glue and pass-through rules",
 "The system tests decode a dozen fixed inputs and compare aggregate numbers; the space of grammars, lattices and span limits is unbounded and a lost derivation that is not the best one is invisible to them.",
 ["decoder/bottom_up_parser.cc", "decoder/scfg_translator.cc", "decoder/grammar.cc", "decoder/lattice.cc"],
 [("active/passive chart", "decoder/bottom_up_parser.cc PassiveChart::Parse, ActiveChart::AdvanceDotsForAllItemsInCell"),
  ("glue and pass-through grammars", "decoder/scfg_translator.cc GlueGrammar, PassThroughGrammar")],
 "forest handed to DecoderObserver::NotifyTranslationForest")

prop("C02", "Viterbi and k-best extraction return the true best derivations in order",
 "For any acyclic translation forest, the reported best translation is the yield of a derivation of maximum model score, and that score is the weights' dot product with the reported features. The k-best list is the k highest scoring distinct derivations (or, in unique mode, the k best distinct yields each with its best score) in non-increasing score order, with each item's score, features and yield belonging to one derivation of the forest, and it is shorter than k only if the forest is exhausted.",
 ["inputs"],
 "every acyclic hypergraph (shared sub-derivations, several tails, the same node used twice by an edge, ties), every k, with and without the uniqueness filter",
 "hg_test checks a few hand-made forests; lazy enumeration errors need particular heap orders, sharing patterns and k.",
 ["decoder/kbest.h", "decoder/viterbi.h", "decoder/viterbi.cc", "decoder/hg.cc"],
 [("lazy k-best", "decoder/kbest.h KBestDerivations::LazyKthBest, LazyNext"),
  ("Viterbi semiring pass", "decoder/viterbi.h Viterbi"),
  ("reweighting", "decoder/hg.h Hypergraph::Reweight")])

prop("C03", "Inside, outside and posterior quantities equal sums over derivations",
 "For any acyclic forest the inside score of a node is the sum over its sub-derivations of their products of edge weights, the outside score is the sum over its contexts, and edge posteriors, expected feature counts and derivation counts derived from them equal the corresponding sums over complete derivations. Normalising the forest so that edge weights form local distributions preserves every derivation's relative weight.",
 ["inputs"],
 "every acyclic hypergraph with arbitrary edge weights (shared nodes, an edge using the same node twice, nodes off every goal path) and every semiring the library instantiates over it",
 "The unit tests use small fixed forests in which no edge uses a node twice and no shared context exists.",
 ["decoder/inside_outside.h", "decoder/hg.cc", "decoder/viterbi.h"],
 [("inside/outside recursions", "decoder/inside_outside.h Inside, Outside, InsideOutside"),
  ("edge posteriors", "decoder/hg.cc Hypergraph::ComputeEdgePosteriors"),
  ("weight pushing", "decoder/hg.cc Hypergraph::PushWeightsToGoal, PushWeightsToSource")])

prop("C04", "Forest pruning keeps the best derivations and only real ones",
 "Density and beam pruning remove only edges whose best (max-marginal) complete derivation is worse than every retained threshold, always keep the best derivation, and leave a forest whose derivations are a subset of the original ones with unchanged scores, features and yields. Edges asked to be preserved survive together with what they are built from, and every remaining node and edge is still usable in a complete derivation.",
 ["inputs", "configurations"],
 "every acyclic weighted forest, every density and beam setting, with and without an edge set to preserve",
 "System tests compare only the number of paths after one density setting on one sentence.",
 ["decoder/hg.cc", "decoder/hg.h", "decoder/inside_outside.h"],
 [("max-marginal pruning", "decoder/hg.cc Hypergraph::PruneInsideOutside, DensityPruneInsideOutside, BeamPruneInsideOutside, MarginPrune"),
  ("edge removal and renumbering", "decoder/hg.cc Hypergraph::PruneEdges, TopologicallySortNodesAndEdges")])

prop("C05", "Constraining to a reference keeps exactly the derivations that yield it",
 "Intersecting a translation forest with a reference (a sentence or a lattice) succeeds exactly when some derivation yields a path of the reference, and the resulting forest contains exactly those derivations of the original forest, each once per matching reference path, with its original features. Alignments read from the constrained forest link exactly the positions the derivations' rules align.",
 ["inputs"],
 "every forest the translators can build and every reference sentence or lattice, reachable or not",
 "The tests intersect one hand-made forest with one reference; reachability and completeness range over all pairs.",
 ["decoder/hg_intersect.cc", "decoder/aligner.cc", "decoder/bottom_up_parser.cc"],
 [("parse of the target with forest-derived grammar", "decoder/hg_intersect.cc HG::Intersect"),
  ("fast path for linear chains", "decoder/hg_intersect.cc FastLinearIntersect")],
 "forest handed to DecoderObserver::NotifyAlignmentForest")

prop("C06", "Rescoring with stateful models is exact; cube pruning is a faithful subset",
 "Applying models with non-local state (an n-gram language model among them) to a forest by full intersection yields exactly the original derivations, each with features equal to scoring its complete yield directly. Cube pruning yields a subset of those derivations with the same features and scores, is identical to full intersection when the pop limit is not binding, and never loses the forest altogether.",
 ["inputs", "configurations"],
 "every forest, every language model and other stateful features, every rescoring strategy (full, cube pruning variants, incremental) and every pop limit",
 "The system tests compare the 1-best of a few sentences under one algorithm; states recombined wrongly change scores only for particular contexts.",
 ["decoder/apply_models.cc", "decoder/ffset.cc", "decoder/ff_klm.cc", "decoder/ff_lm.cc"],
 [("full intersection", "decoder/apply_models.cc NoPruningRescorer"),
  ("cube pruning", "decoder/apply_models.cc CubePruningRescorer"),
  ("boundary states", "decoder/ff_klm.cc KLanguageModelImpl::LookupWords, FinalTraversalCost")])

prop("C07", "Forest files and forest transformations preserve the derivations",
 "Writing a forest to its binary form and reading it back yields the same derivations with the same rules, spans, features and weights, and files in the lattice (PLF) form read back as the same lattice. Merging two forests yields every derivation of either, combined only at shared nodes and without duplicates; removing empty words changes no derivation's remaining yield or features; and topological reordering changes no derivation.",
 ["inputs"],
 "every acyclic forest and every pair of forests the decoder can produce, every lattice",
 "The unit tests round-trip two stored forests and never compare derivation sets.",
 ["decoder/hg_io.cc", "decoder/hg_union.cc", "decoder/hg_remove_eps.cc", "decoder/hg.cc", "decoder/lattice.cc"],
 [("binary archive", "decoder/hg_io.cc HypergraphIO::WriteToBinary, ReadFromBinary"),
  ("PLF", "decoder/hg_io.cc HypergraphIO::PLFtoLattice, AsPLF"),
  ("union", "decoder/hg_union.cc HG::Union"), ("epsilon removal", "decoder/hg_remove_eps.cc RemoveEpsilons")])

prop("C08", "Phrase-based forests contain every permitted segmentation and reordering",
 "For an input sentence or lattice, the phrase-based translator's forest holds exactly the derivations obtained by covering the input once with phrase-table entries (and pass-through words when enabled) in an order in which every phrase starts within the distortion limit of the first uncovered word. Its yields are the phrase translations in application order with their scores, and translation fails exactly when no complete coverage exists.",
 ["inputs", "configurations"],
 "every phrase table, input sentence or lattice and distortion limit, with and without pass-through",
 "The phrase-based translator has no test of its own in the stable suite.",
 ["decoder/phrasebased_translator.cc", "decoder/phrasetable_fst.cc"],
 [("coverage search", "decoder/phrasebased_translator.cc PhraseBasedTranslatorImpl::Translate, EnqueuePossibleContinuations"),
  ("phrase trie", "decoder/phrasetable_fst.cc TextFSTNode")])

prop("C09", "Alignment symmetrisation and conversion follow their definitions",
 "For every pair of word alignments, the alignment tool's union, intersection, grow-diag and grow-diag-final variants produce exactly the links their published definitions specify: the result lies between intersection and union, and each grown link is licensed by the growth rule. Inversion transposes, conversion preserves every link, and the reported agreement counts equal those of the link sets.",
 ["inputs"],
 "every pair of alignment matrices of every size, every command, streams with any mixture of line sizes and empty lines",
 "No stable test runs the alignment tool; growth order effects appear only in specific link configurations.",
 ["utils/atools.cc", "utils/alignment_io.cc", "utils/array2d.h"],
 [("set operations", "utils/atools.cc IntersectCommand, UnionCommand, InvertCommand"),
  ("grow-diag", "utils/atools.cc RefineCommand, DiagGrowthCommand, GrowDiagFinal"),
  ("Pharaoh format", "utils/alignment_io.cc ReadPharaohAlignmentGrid")])

prop("C10", "The sentence server hands out every line, in-order results, despite client loss",
 "For every interleaving of clients connecting, answering and disconnecting, the sentence server outputs one reply per input line in input order. A line whose client disconnects before replying is handed to another client while any client is available, no line is lost, skipped or answered twice in the output, and when clients run out the unfinished lines are reported rather than silently dropped.",
 ["schedules", "fault_sequences"],
 "every number of clients, every schedule of requests, replies and disconnections, and every input stream including empty input",
 "The sentence server has no automated test; the faults and interleavings are scheduler dependent.",
 ["training/utils/sentserver.cc", "training/utils/sentclient.cc"],
 [("job queue", "training/utils/sentserver.cc queue_get, queue_finish, queue_abort, queue_print, queue_panic"),
  ("client sessions", "training/utils/sentserver.cc done, main accept loop")],
 "stdout of the server and the lines each client receives")

prop("C11", "Sparse vectors and small vectors behave as maps and sequences",
 "After any sequence of operations a sparse feature vector equals the finite map those operations define (values by key, absent keys zero; addition, subtraction, scaling, dot products, norms, iteration and equality accordingly), and a small vector equals the corresponding sequence. This is independent of whether the contents are stored inline or on the heap and of copying, assigning, swapping or serialising on the way.",
 ["histories"],
 "every history of public operations on several vectors, including self-assignment and growth and shrinkage across the inline limit",
 "The unit tests run a handful of fixed histories, few of which cross the representation boundary in both directions.",
 ["utils/fast_sparse_vector.h", "utils/small_vector.h", "utils/sparse_vector.h"],
 [("inline/map switch", "utils/fast_sparse_vector.h FastSparseVector::get_or_create_bin, swap_local_rbmap"),
  ("inline/heap switch", "utils/small_vector.h SmallVector::copy_vals_to_ptr, ptr_to_small, resize, operator=")])

prop("C12", "Words, features and weights keep their identity",
 "Interning gives equal strings equal ids and different strings different ids for the whole run, converts back to the same string, and never renumbers an earlier one. Writing a weight vector and reading it back restores every weight under the same feature name, and a frozen feature table adds no feature.",
 ["histories", "inputs"],
 "every history of conversions, freezes, weight initialisations from files or strings, and writes, over arbitrary feature names the text format can hold (no blanks or '=') and values",
 "dict_test and weights_test load one small file each.",
 ["utils/dict.h", "utils/fdict.cc", "utils/tdict.cc", "utils/weights.cc"],
 [("interning", "utils/dict.h Dict::Convert"), ("weights file", "utils/weights.cc Weights::InitFromFile, WriteToFile")])

prop("C13", "Corpus scores are exact functions of summed sentence statistics",
 "For every hypothesis and reference set, the BLEU sufficient statistics are the clipped n-gram matches, n-gram totals and lengths its definition gives, statistics add component-wise over sentences in any order, and the corpus score depends only on the sum. Encoding and decoding statistics and scoring through the command line give the same result as scoring directly.",
 ["inputs"],
 "every hypothesis, every non-empty set of references, every corpus split and every BLEU variant",
 "scorer_test compares a few totals on one fixed test set.",
 ["mteval/ns.cc", "mteval/ns.h", "mteval/scorer.cc", "mteval/ns_docscorer.cc", "mteval/fast_score.cc"],
 [("n-gram clipping", "mteval/ns.cc BleuSegmentEvaluator::ComputeNgramStats, CountRef"),
  ("brevity reference choice", "mteval/ns.cc BleuSegmentEvaluator::Evaluate"),
  ("aggregation", "mteval/ns.h SufficientStats")])

prop("C14", "Edit-distance metrics report true edit distances",
 "The word and character error metrics report the minimum number of insertions, deletions and substitutions to a closest reference, with the counts adding up to the transformation. Translation edit rate never exceeds word edit distance, equals it when no block shift helps, is zero exactly for a hypothesis equal to a reference, and its edit counts describe a real transformation.",
 ["inputs"],
 "every pair of token sequences and every set of references",
 "scorer_test checks two sentence pairs.",
 ["mteval/ns_wer.cc", "mteval/ns_cer.cc", "mteval/levenshtein.h", "mteval/ter.cc", "mteval/ns_ter.cc", "mteval/ns_ter_impl.cc", "mteval/wer.cc"],
 [("edit distance", "mteval/levenshtein.h LevenshteinDistance"), ("TER shifts", "mteval/ns_ter_impl.cc")])

prop("C15", "Line search finds the best step size for the training metric",
 "For every set of forests or lists, origin and direction, the computed upper envelope gives at every step size the model-best derivation, the per-sentence error surface gives its exact statistics, and the line search returns a step size whose corpus score under the metric is the best attained by any interval wider than its tolerance. The reported score is the true corpus score at the returned step.",
 ["inputs"],
 "every forest, origin, direction and reference set, for both maximised and minimised metrics",
 "lo_test optimises a few fixed forests and checks one value.",
 ["training/dpmert/mert_geometry.cc", "training/dpmert/ces.cc", "training/dpmert/line_optimizer.cc", "training/dpmert/error_surface.cc"],
 [("convex hull semiring", "training/dpmert/mert_geometry.cc ConvexHull"),
  ("error surface", "training/dpmert/ces.cc ComputeErrorSurface"),
  ("sweep", "training/dpmert/line_optimizer.cc LineOptimizer::LineOptimize")])

prop("C16", "Suffix-array lookups find exactly the occurrences of a pattern",
 "For every indexed corpus, the suffix array orders all suffixes, looking up a contiguous phrase returns exactly its occurrences, and looking up a phrase with gaps returns exactly the placements of its parts that lie within one sentence and satisfy the span and gap limits, whether found by extension or read from the precomputed collocations.",
 ["inputs", "configurations"],
 "every corpus (repetitive ones in particular), every pattern with up to two gaps, every span, gap and precomputation setting",
 "The extractor unit tests use one 14-word corpus and mocks.",
 ["extractor/suffix_array.cc", "extractor/matchings_finder.cc", "extractor/fast_intersector.cc", "extractor/precomputation.cc"],
 [("prefix doubling sort", "extractor/suffix_array.cc SuffixArray::PrefixDoublingSort, TernaryQuicksort"),
  ("binary search", "extractor/suffix_array.cc SuffixArray::Lookup"),
  ("gap extension", "extractor/fast_intersector.cc ExtendPrefixPhraseLocation, ExtendSuffixPhraseLocation"),
  ("collocations", "extractor/precomputation.cc")])

prop("C17", "Extracted grammar rules are the alignment-consistent phrase pairs",
 "For every aligned parallel corpus and input sentence, the grammar extractor emits exactly the rules obtained from the occurrences, in the corpus, of the source patterns of the input within the limits: the target side is consistent with the word alignment, words linked into it from outside are covered by the smallest nonterminals at the ends of the rule, and unaligned words are placed in every way the tightness setting allows. The counts, conditional and lexical scores attached to each rule equal those computed from the corpus.",
 ["inputs", "configurations"],
 "every small parallel corpus, alignment and input sentence, and every setting of the span, symbol, gap and tightness limits",
 "The rule-extractor tests exercise helper functions with mocked neighbours on a few hand-made cases.",
 ["extractor/rule_extractor.cc", "extractor/rule_extractor_helper.cc", "extractor/rule_factory.cc", "extractor/target_phrase_extractor.cc", "extractor/features/feature.h"],
 [("consistency check", "extractor/rule_extractor_helper.cc FindFixPoint, CheckTightPhrases"),
  ("target spans", "extractor/target_phrase_extractor.cc"), ("source enumeration", "extractor/rule_factory.cc HieroCachingRuleFactory::GetGrammar")])

prop("C18", "Extraction is the same for every thread count and for compiled data",
 "The grammars (sets of scored rules) written for a list of sentences are the same whatever the number of threads, whatever other sentences are extracted in the same run, and whether the data structures are built in memory or compiled to disk and loaded again; results are written in input order.",
 ["schedules", "configurations"],
 "every corpus, list of input sentences, thread count and schedule, and both data paths",
 "No stable test runs the extractor programs end to end.",
 ["extractor/extract.cc", "extractor/run_extractor.cc", "extractor/sacompile.cc", "extractor/rule_factory.cc"],
 [("worker loop and output", "extractor/extract.cc main"), ("serialised structures", "extractor/sacompile.cc main")])

prop("C19", "Language-model queries follow back-off semantics in every model format",
 "For every n-gram model file, scoring a word after a history returns the back-off probability and the matched n-gram length the file defines, identically for every in-memory and binary model format (up to the announced quantisation), from a full history and from the state returned by the previous query. Sentence totals equal the sum of their word scores, and histories that are indistinguishable to the model yield equal states.",
 ["inputs", "configurations", "histories"],
 "every valid model (any order, missing back-offs, with or without unknown word, blanks between orders), every word sequence, every model format",
 "model_test checks fixed queries against one stored model.",
 ["klm/lm/model.cc", "klm/lm/search_hashed.cc", "klm/lm/search_trie.cc", "klm/lm/state.hh", "klm/lm/vocab.cc", "klm/lm/read_arpa.cc"],
 [("scoring", "klm/lm/model.cc GenericModel::FullScore, ScoreExceptBackoff, GetState"),
  ("hash search", "klm/lm/search_hashed.cc"), ("trie search", "klm/lm/search_trie.cc, klm/lm/trie.cc")])

prop("C20", "Chart language-model scoring does not depend on the bracketing",
 "For every target string and every way of building it bottom-up from words and sub-strings (including sentence boundaries), the total chart score equals the left-to-right score of the whole string, and the resulting left and right states are equal for equal strings. A state marked full is never changed by further context.",
 ["inputs", "programs"],
 "every model, every string and every binary or flat bracketing of it, with partial states extended on either side",
 "left_test samples a few random trees over one model.",
 ["klm/lm/left.hh", "klm/lm/partial.hh", "klm/lm/model.cc"],
 [("rule scorer", "klm/lm/left.hh RuleScore"), ("left extension", "klm/lm/model.cc GenericModel::ExtendLeft"),
  ("partial application", "klm/lm/partial.hh Subsume, ExtendLoop")])

prop("C21", "Language-model estimation counts and smooths exactly",
 "For every corpus the estimator's counts equal the numbers of occurrences of each n-gram and its adjusted counts the modified Kneser-Ney continuation counts, independent of memory and block sizes. The printed model contains exactly the n-grams of the corpus (after pruning) and gives, for every history, probabilities that sum to one over the vocabulary.",
 ["inputs", "configurations"],
 "every non-degenerate corpus, order, memory and sort-block setting and pruning threshold",
 "adjust_counts_test and corpus_count_test feed one short text each and no stable test runs the estimator end to end.",
 ["klm/lm/builder/corpus_count.cc", "klm/lm/builder/adjust_counts.cc", "klm/lm/builder/initial_probabilities.cc", "klm/lm/builder/interpolate.cc", "klm/lm/builder/pipeline.cc"],
 [("counting", "klm/lm/builder/corpus_count.cc"), ("adjusted counts", "klm/lm/builder/adjust_counts.cc"),
  ("back-off and interpolation", "klm/lm/builder/interpolate.cc")])

prop("C22", "Block pipelines deliver every record once, in order, under any schedule",
 "Records written to a producer-consumer queue or a chain of block-processing stages reach each following stage exactly once, in order and unmodified by other stages, for every thread schedule and every block geometry. End of input reaches every stage exactly once, no stage deadlocks, and disk-backed sorting returns a sorted permutation (with equal keys combined when asked).",
 ["schedules", "inputs", "configurations"],
 "every schedule of the stages, every number of blocks and block size, every record count including zero, every memory setting of the sort",
 "stream_test, sort_test and pcqueue_test run one geometry each under whatever schedule the machine happens to choose.",
 ["klm/util/pcqueue.hh", "klm/util/stream/chain.cc", "klm/util/stream/chain.hh", "klm/util/stream/sort.hh", "klm/util/stream/stream.hh"],
 [("bounded queue", "klm/util/pcqueue.hh PCQueue::Produce, Consume"), ("links and recycling", "klm/util/stream/chain.cc Link, Chain"),
  ("merge sort", "klm/util/stream/sort.hh Sort, OwningMergingReader")])

prop("C23", "Tree-to-string, compound-splitting and finite-state translation produce exactly the derivations of the input",
 "A tree-to-string rule applies to a subtree exactly when its source side coincides with the top of the subtree - labels, words and brackets - and its variables stand for whole subtrees of their label. The forest returned holds each combination of such rules (grammar files, grammars of the sentence, copying rules) once, with their features and spans, and translation fails exactly when there is none. Compound splitting yields every segmentation into parts of at least three characters, with and without linking elements; finite-state translation yields every segmentation of the input into phrases. Nothing carries over from one input to the next.",
 ["inputs", "configurations", "histories of inputs in one session"],
 "every grammar, every source tree, word or sentence, with and without copying rules, every sequence of inputs",
 "no stable test runs any of the three translators; grammar_test and parser_test cover the synchronous grammar only.",
 ["decoder/tree2string_translator.cc", "decoder/tree_fragment.h", "decoder/tree_fragment.cc", "decoder/csplit.cc", "decoder/fst_translator.cc", "decoder/earley_composer.cc", "decoder/phrasetable_fst.cc"],
 [("matching", "decoder/tree2string_translator.cc Tree2StringTranslatorImpl::Translate"), ("copying rules", "decoder/tree2string_translator.cc CreatePassThroughRules"),
  ("splitting", "decoder/csplit.cc BuildTrellis"), ("composition", "decoder/earley_composer.cc")])

prop("C24", "Tuning works from every distinct candidate exactly once",
 "The pool of candidate translations that tuning accumulates holds, for each sentence, every distinct candidate (words and feature values) of the k-best lists added to it so far exactly once, with its own features and metric statistics, also after it was stored and read back; sentences do not share candidates. Training pairs are differences of two candidates of one sentence, labelled by which one scores better, the largest differences in score kept first. Expected loss, entropy, their gradients and the cost-augmented (ramp loss) updates equal the sums and maxima over the pool their definitions give, and minimum-risk reranking outputs for each sentence's list an item of least expected loss.",
 ["inputs", "histories of iterations", "configurations"],
 "every sequence of forests, weights and k-best sizes added to, stored in and read back from a pool; every metric; every k-best list given to the reranker",
 "no stable test runs a tuning program, the candidate pool or the reranker.",
 ["training/utils/candidate_set.cc", "training/utils/candidate_set.h", "training/utils/risk.cc", "training/utils/entropy.cc", "training/pro/mr_pro_map.cc", "training/rampion/rampion_cccp.cc", "training/minrisk/minrisk_optimize.cc", "mteval/mbr_kbest.cc"],
 [("pools", "training/utils/candidate_set.cc CandidateSet::AddKBestCandidates, Dedup, ReadFromFile, WriteToFile"), ("training pairs", "training/pro/mr_pro_map.cc Sample"),
  ("expected loss and entropy", "training/utils/risk.cc, entropy.cc"), ("ramp loss updates", "training/rampion/rampion_cccp.cc CostAugmentedSearch, main"), ("reranking", "mteval/mbr_kbest.cc")])

prop("C25", "Word alignment models are exact expectation-maximisation estimates and the reported alignments are the most probable ones",
 "The word aligner's translation table after each iteration equals the estimate that expectation maximisation from uniform tables gives for the parallel corpus, in either direction, with or without a null word, for the uniform and the diagonal-favouring alignment distribution (normalised over the source positions) and for the maximum likelihood and the mean-field (variational Bayes) estimate; the reported null and distance statistics are those of the posteriors, the likelihood of maximum likelihood training never falls, and tension optimisation moves the tension by the difference between the model's and the posteriors' expected distance. Every printed alignment links each target word at most once, to a most probable source position, none when that is the null word; sentence scores are the Poisson length probability times the probability of the words. Written parameters are those within the beam of the best of their source word (and those the best training alignments use, unless switched off), with their probabilities, and force alignment with them equals aligning with that table.",
 ["inputs", "configurations"],
 "every parallel corpus, number of iterations, direction, alignment distribution, prior, beam, test set",
 "no stable test runs the aligner.",
 ["word-aligner/fast_align.cc", "word-aligner/da.h", "word-aligner/ttables.h", "word-aligner/ttables.cc", "utils/corpus_tools.cc"],
 [("training, alignment, scoring, parameters", "word-aligner/fast_align.cc main"), ("diagonal distribution", "word-aligner/da.h DiagonalAlignment"), ("table", "word-aligner/ttables.h TTable"), ("reading tables", "word-aligner/ttables.cc DeserializeLogProbsFromText")])

json_path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
if __name__ == "__main__":
    with open(json_path, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
