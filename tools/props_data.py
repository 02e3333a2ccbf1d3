prop("E01", "Extracted spans are consistent with the word alignment",
     "When grammar rules are extracted from an aligned sentence pair, the source span, target span and every gap of each extracted rule form phrase pairs that no alignment link enters or leaves, and they respect the configured limits on span, symbols and tightness. The computation reads only positions inside the sentence pair.",
     "all sentence pairs, alignments, matched source patterns and extraction limits within the integer ranges of the format", 
     "the unit tests fix one seven-word sentence pair and mock the rest; consistency is a claim over every set of links and every pattern occurrence",
     ["extractor/rule_extractor_helper.cc", "extractor/rule_extractor.cc"],
     [("closure of a source span to a consistent pair", "extractor/rule_extractor_helper.cc:FindFixPoint"), ("projection through the links", "extractor/rule_extractor_helper.cc:FindProjection"),
      ("gap checks", "extractor/rule_extractor_helper.cc:GetGaps"), ("outer nonterminals", "extractor/rule_extractor.cc:AddNonterminalExtremities")],
     level_note="Proof for FindFixPoint, FindProjection, GetLinksSpans, GetGaps, CheckAlignedTerminals, CheckTightPhrases, GetSourceIndexes, AddExtracts, AddNonterminalExtremities: every obligation discharged for all inputs. ExtractAlignments as a whole is a bounded stand-in (random sentence pairs against a brute-force oracle). Trusted: clang front end, obligation generator, library contracts for std containers, contracts of the DataArray and Alignment accessors.")
prop("E02", "Rules are assembled faithfully from the spans they cover",
     "The phrases of an extracted rule list exactly the words of their spans in order, with one nonterminal in place of each gap, numbered so that source and target nonterminals correspond; target phrases enumerate every admissible placement of unaligned edge words once, and the rule's alignment is exactly the set of links between its terminals. Word identifiers and words stay in one-to-one correspondence.",
     "all target spans, gap lists in any order and number, alignments, and vocabularies", 
     "tests check three hand-picked phrases with at most two gaps; order, numbering and the link set are claims about every combination",
     ["extractor/target_phrase_extractor.cc", "extractor/phrase_builder.cc", "extractor/phrase.cc", "extractor/vocabulary.cc", "extractor/rule_extractor_helper.cc"],
     [("enumeration of chunk boundaries", "extractor/target_phrase_extractor.cc:GeneratePhrases"), ("renumbering of nonterminals", "extractor/phrase_builder.cc:Extend"), ("gap order", "extractor/rule_extractor_helper.cc:GetGapOrder"), ("word ids", "extractor/vocabulary.cc:GetTerminalIndex")],
     level_note="Proof of every obligation of GetGapOrder, Phrase accessors, Vocabulary, PhraseBuilder::Build/Extend, GeneratePhrases and ExtractPhrases. Trusted: clang front end, obligation generator, std container contracts, strings as an uninterpreted sort, the accessor contracts of DataArray and Alignment.")
prop("M01", "Evaluation statistics count what the metric defines and add up over a corpus",
     "For every hypothesis and set of references, each metric's sufficient statistics are exactly the counts its definition names: BLEU's n-gram matches clipped by the largest count in any one reference, n-gram totals and lengths; WER and CER the edit distance and length of a closest reference; AER the matched, predicted and reference links. Statistics of segments add, subtract and scale field by field, so corpus statistics are the sum of segment statistics whatever was evaluated before.",
     "all hypotheses, reference sets and histories of evaluations",
     "unit tests compare a few fixed sentences; clipping, closest references and history independence are claims over all of them",
     ["mteval/ns.h", "mteval/ns.cc", "mteval/ns_wer.cc", "mteval/ns_cer.cc", "mteval/levenshtein.h", "mteval/aer_scorer.cc", "mteval/scorer.cc", "mteval/wer.cc"],
     [("edit distance", "mteval/levenshtein.h:LevenshteinDistance"), ("closest reference", "mteval/ns_wer.cc:ComputeSufficientStatistics"), ("clipped n-gram matches", "mteval/ns.cc:ComputeNgramStats"), ("statistics arithmetic", "mteval/ns.h:SufficientStats"), ("alignment links", "mteval/aer_scorer.cc:ScoreCandidate")],
     level_note="Proof of every obligation of LevenshteinDistance, WER and CER statistics, SufficientStats arithmetic, AER counts. BLEU statistics and scores and the scorers of scorer.cc/wer.cc are a bounded stand-in (random segments against direct counts). Trusted: clang front end, obligation generator, std container contracts, floats as reals, TD::GetString and the alignment reader as contracts.")
prop("D02", "Inside, outside and posterior scores sum over exactly the derivations",
     "For every acyclic hypergraph in topological order, the inside score of a node is the sum over its derivations of the product of edge weights, the outside score the sum over its contexts below the goal, and edge posteriors, expectations, path counts and best-path scores are the corresponding sums or maxima over derivations through each edge, also when a node occurs several times among an edge's tails and whatever the result vectors held before.",
     "all hypergraphs, edge weights and value functions",
     "unit tests check a handful of hypergraphs to a tolerance; the recursions must be right for every shape and arity",
     ["decoder/inside_outside.h", "decoder/hg.cc"],
     [("inside recursion", "decoder/inside_outside.h:Inside"), ("outside recursion", "decoder/inside_outside.h:Outside"), ("expectations", "decoder/inside_outside.h:expect"), ("edge marginals", "decoder/inside_outside.h:compute_edge_marginals")],
     level_note="Proof of every obligation of Inside, Outside, InsideOutsides::expect and compute_edge_marginals, instantiated over real weights and related to the recursive definition of the sum over derivations. ComputeEdgePosteriors, ComputeBestPathThroughEdges, NumberOfPaths and the boolean semiring are a bounded stand-in against enumeration. Trusted: clang front end, obligation generator, std container contracts, SmallVector as a sequence, floats as reals.")
prop("E03", "Corpus index lookups return exactly the occurrences",
     "For every training corpus, the suffix array lists all positions once in lexicographic order, longest common prefixes are exact, and looking up a contiguous source phrase word by word yields exactly the corpus positions where it occurs. A gappy phrase is found exactly at the tuples of positions within one sentence that respect the minimum gap size and the maximum rule span, whether it is answered from the precomputed collocation index or by extending its prefix or suffix; every list in that index is complete.",
     "all corpora, phrases with up to two gaps, span and gap limits, and precomputation settings",
     "unit tests index one or two sentences and mock the collaborators; completeness of a lookup is a claim over all corpora and phrases",
     ["extractor/suffix_array.cc", "extractor/data_array.cc", "extractor/matchings_finder.cc", "extractor/fast_intersector.cc", "extractor/precomputation.cc", "extractor/phrase_location.cc"],
     [("binary search for a phrase range", "extractor/suffix_array.cc:LookupRangeStart"), ("bucket ranges of single words", "extractor/suffix_array.cc:InitialBucketSort"), ("positions to sentences", "extractor/data_array.cc:GetSentenceId"), ("gap window", "extractor/fast_intersector.cc:GetSearchRange")],
     level_note="Proof of every obligation of the DataArray accessors, SuffixArray::Lookup, LookupRangeStart, InitialBucketSort, GetSuffix, GetSize, MatchingsFinder::Find, FastIntersector::EstimateNumOperations, GetSearchRange, ExtendPhraseLocation, PhraseLocation and the append helpers of Precomputation. Prefix doubling, LCP construction, the two Extend*PhraseLocation searches and UpdateIndex are a bounded stand-in (random corpora against enumeration). Trusted: clang front end, obligation generator, std container contracts, the sortedness of the suffix array assumed by LookupRangeStart (established by the bounded part).")
prop("U03", "Log-domain and expectation arithmetic agree with ordinary numbers",
     "A LogVal stands for the number it was made from: sums, differences, products, quotients, negation, absolute value, reciprocal, powers and roots of LogVals are, up to rounding, the same operations on those numbers, also with negative operands and zero. Equality, order and hash depend only on the number. Products and sums of expectation pairs follow the first-order expectation semiring.",
     "all finite values, signs and operation sequences",
     "unit tests check a dozen constants; the branches of addition, the signs and the order must be right for every pair of operands",
     ["utils/logval.h", "utils/exp_semiring.h"],
     [("addition of logs", "utils/logval.h:operator+="), ("order of signed values", "utils/logval.h:lt"), ("equality of zeros", "utils/logval.h:operator=="), ("product of pairs", "utils/exp_semiring.h:operator*=")],
     level_note="Proof over the reals, with the exponential's laws as axioms, for every operator of LogVal<double> on nonzero operands (order, equality, abs and negation also on zeros) and for PRPair. Products and quotients with zero, sums onto zero, exact cancellation, powers, hash and star are a bounded stand-in against double arithmetic. Trusted: clang front end, obligation generator, floats as reals, laws of exp/log/log1p.")
prop("D01", "Building, sorting, pruning and merging forests keeps exactly the intended edges",
     "A hypergraph's node and edge lists always agree with each other: ids are positions, every edge is listed once at its head and at each tail. Sorting towards a goal, with or without removed edges, yields exactly the nodes and edges the goal can use, in topological order; pruning, edge and node subsets, the best-derivation forest and beam pruning keep exactly the edges their definition selects, with unchanged rules, features and spans. Merging two forests yields exactly the derivations of either.",
     "all acyclic hypergraphs, masks, goals, beam widths and pairs of forests",
     "tests touch a few fixed forests and compare model scores; which edges survive must be right for every shape and mask",
     ["decoder/hg.h", "decoder/hg.cc", "decoder/hg_union.cc"],
     [("edges known at both ends", "decoder/hg.h:AddEdge"), ("subset masks", "decoder/hg.cc:CreateEdgeSubset"), ("topological order", "decoder/hg.cc:TopologicallySortNodesAndEdges"), ("merging", "decoder/hg_union.cc:Union")],
     level_note="Proof of every obligation of AddEdge, AddNode, ConnectEdgeToHeadNode, index_tails, ResizeNodes, set_ids, swap, TightenEdgeMask, CreateEdgeSubset (its masks), the reindexing helpers and copy_reindex. TopologicallySortNodesAndEdges, PruneEdges, node subsets, Viterbi forests, beam pruning and both Unions are a bounded stand-in (random forests against enumeration of derivations). Trusted: clang front end, obligation generator, std container contracts, SmallVector as a sequence.")
prop("D03", "Best and k-best derivations are exact",
     "For every acyclic forest and non-negative edge weights, the Viterbi score is the largest product of edge weights over the derivations of the goal, and the sentence, length, tree, edges and features returned with it belong to one such derivation. A k-best list has the k best derivations in order of score, each once, with its own score, features and yield; with the uniqueness filter it has the best distinct sentences, each with its best score. Strings are built by putting antecedents in place of their variables.",
     "all forests, weights, rules with reordered variables, and k",
     "tests look at fixed forests with k of at most 10; order, completeness and uniqueness are claims over all forests",
     ["decoder/viterbi.h", "decoder/kbest.h", "decoder/trule.h"],
     [("best derivation", "decoder/viterbi.h:Viterbi"), ("lazy enumeration", "decoder/kbest.h:LazyKthBest"), ("substitution", "decoder/trule.h:ESubstitute")],
     level_note="Proof of every obligation of Viterbi (over real weights and an arbitrary traversal), ESubstitute, FSubstitute, PathLengthTraversal and ELengthTraversal. KBestDerivations, the path, feature and tree traversals are a bounded stand-in (random forests against enumeration). Trusted: clang front end, obligation generator, std container contracts, SmallVector as a sequence, floats as reals, a vector whose element addresses are stored is not reallocated meanwhile.")
prop("U01", "Sparse feature vectors behave as finite maps from keys to numbers",
     "A sparse vector is a finite map from feature keys to numbers, however many entries it has: reading, setting, adding to, erasing and finding a key, iterating, clearing, copying, assigning and swapping give what the map gives, when entries are stored in place and when they have moved to a hash map, at every change from one to the other. Sums, differences, scaling, dot products, norms and conversion to dense vectors are computed entry by entry with missing entries zero; two vectors are equal exactly if they hold the same entries. Copies are independent of their originals.",
     "all keys, values, sizes and sequences of operations",
     "the unit tests run a few fixed sequences; the change of representation and the state it leaves behind must be right after every history",
     ["utils/fast_sparse_vector.h"],
     [("change of representation", "utils/fast_sparse_vector.h:swap_local_rbmap"), ("entry access", "utils/fast_sparse_vector.h:get_or_create_bin"), ("removal", "utils/fast_sparse_vector.h:erase"), ("vector arithmetic", "utils/fast_sparse_vector.h:operator+=")],
     level_note="Proof for FastSparseVector<double>, over both representations, of value, get_or_create_bin, swap_local_rbmap, erase, clear, *=, /=, size, constructors and assignment, and entry by entry of +=, -=, plus_eq_v_times_s, erase_zeros, ==, + and -. find, iterators, range construction, swap, norms, dot, init_vector and serialization are a bounded stand-in (random histories against std::map). Trusted: clang front end, obligation generator, PairIntT as the pair it stands for, the hash map, the vector's own iterators in the arithmetic, floats as reals.")
prop("U02", "Small vectors behave as ordinary vectors in both representations",
     "A small vector holds the same elements as an ordinary vector after every sequence of pushing (also of its own elements), popping, resizing, erasing, compacting, clearing, copying, assigning, swapping and serializing, whether its elements are stored in place or on the heap and across each change between the two. It never reads or writes outside the block it owns, frees each block once, and copies are independent of their originals. Vectors are equal exactly if their elements are, and equal vectors hash equally.",
     "all element values, sizes within the capacity limit, and sequences of operations",
     "the unit tests run a few fixed sequences; capacity, representation and ownership must be right after every history",
     ["utils/small_vector.h"],
     [("move to the heap", "utils/small_vector.h:copy_vals_to_ptr"), ("growth", "utils/small_vector.h:ensure_capacity"), ("resize", "utils/small_vector.h:resize"), ("assignment", "utils/small_vector.h:operator=")],
     level_note="Proof for SmallVector<int,2> with up to 20000 elements (explicit heap, ownership and frames) of constructors, assignment, push_back, pop_back, resize, compact, clear, ensure_capacity, the representation changes, element access, size and ==. erase, range construction, swap, hash and serialization are a bounded stand-in (random histories against std::vector under the address sanitizer). Trusted: clang front end, obligation generator, memory blocks as arrays.")
prop("M03", "The line search of dpmert sees every derivation and finds the best interval",
     "For a forest, a point and a direction in weight space, the convex hull computed for the goal gives at every step length along the direction the largest model score of any derivation, and the translation and edges recovered from the segment there belong to such a derivation. The hull operations behave as the maximum and the sum of the functions they stand for, with their neutral elements. The error surface accumulates at every step length to the metric statistics of the translation chosen there, from the leftmost segment on and also for empty translations; surfaces decode to what was encoded. The line optimizer returns a step length inside an interval whose corpus score is the best over all intervals wider than its tolerance, and that score.",
     "all forests, weights, directions, step lengths and references",
     "lo_test looks at a few fixed forests and the number of segments; the maximum over exponentially many derivations has to be right at every point of the line",
     ["training/dpmert/mert_geometry.cc", "training/dpmert/mert_geometry.h", "training/dpmert/ces.cc", "training/dpmert/line_optimizer.cc", "training/dpmert/error_surface.cc"],
     [("upper envelope", "training/dpmert/mert_geometry.cc:ConvexHull::Sort"), ("sum of two hulls", "training/dpmert/mert_geometry.cc:ConvexHull::operator*="), ("union of two hulls", "training/dpmert/mert_geometry.cc:ConvexHull::operator+="), ("error surface", "training/dpmert/ces.cc:ComputeErrorSurface"), ("best interval", "training/dpmert/line_optimizer.cc:LineOptimize")],
     level_note="Proof over the reals of every obligation of Sort (an upper envelope with the same maximum at an arbitrary point), operator+=, operator*= (maximum and sum at an arbitrary finite point, still an envelope, neutral and annihilating elements), IsMultiplicativeIdentity, IsEdgeEnvelope, ConvexHull(int) and SlopeCompare. The weight function, recovered translations and edges, ComputeErrorSurface, LineOptimize, directions and the surface encoding are a bounded stand-in (random forests against enumeration). Trusted: clang front end, obligation generator, std::sort and shared_ptr (points not shared between hulls being sorted), floats as reals with finite quotients.")
