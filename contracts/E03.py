from ext_common import *
IS = z3.IntSort()
VI = vec_sort(IS)
SA = "extractor::SuffixArray::"
# occurrences of symbol w among the first n; symbols below w among the first n
cnt = RecFn("sa_cnt", [VI, IS, IS], IS, lambda g, n, w: z3.If(n <= 0, 0, cnt(g, n - 1, w) + z3.If(vat(g, n - 1) == w, 1, 0)))
below = RecFn("sa_below", [VI, IS, IS], IS, lambda g, n, w: z3.If(n <= 0, 0, below(g, n - 1, w) + z3.If(vat(g, n - 1) < w, 1, 0)))
GNW = [("g", VI), ("n", IS), ("w", IS)]
def LEM(u):
    return [Lemma("cnt_range", GNW, ["0<=n"], ["0<=sa_cnt(g,n,w)", "sa_cnt(g,n,w)<=n"], induct="n", pats=["sa_cnt(g,n,w)"]),
    Lemma("below_range", GNW, ["0<=n"], ["0<=sa_below(g,n,w)", "sa_below(g,n,w)+sa_cnt(g,n,w)<=n"], induct="n", pats=["sa_below(g,n,w)"]),
    Lemma("below_step", GNW + [("v", IS)], ["0<=n", "v==w+1"], ["sa_below(g,n,v)==sa_below(g,n,w)+sa_cnt(g,n,w)"], induct="n", pats=["sa_below(g,n,v),sa_cnt(g,n,w)"]),
    Lemma("below_zero", GNW, ["0<=n", "w<=0", "forall(lambda k: implies(0<=k and k<n, 0<=g[k]), pat=g[k])"], ["sa_below(g,n,w)==0"], induct="n", pats=["sa_below(g,n,w)"]),
    Lemma("cnt_mono", GNW + [("m", IS)], ["0<=m", "m<=n"], ["sa_cnt(g,m,w)<=sa_cnt(g,n,w)"], induct="n", pats=["sa_cnt(g,m,w),sa_cnt(g,n,w)"]),
    Lemma("below_sym", GNW + [("v", IS)], ["0<=n", "v<w"], ["sa_below(g,n,v)+sa_cnt(g,n,v)<=sa_below(g,n,w)"], induct="n", pats=["sa_below(g,n,w),sa_cnt(g,n,v)"])]
# symbol the suffix of rank i has at an offset, -1 past the end of the corpus
macro("dat", "s", "s.data_array.val.data")
macro("key", "s i o", "ite(s.suffix_array[i]+o>=len(dat(s)), 0-1, dat(s)[s.suffix_array[i]+o])")
macro("sa_ok", "s", "s.data_array.nonnull and len(dat(s))<2000000000 and len(s.suffix_array)==len(dat(s))+1"
      " and forall(lambda i: implies(0<=i and i<len(s.suffix_array), 0<=s.suffix_array[i] and s.suffix_array[i]<=len(dat(s))), pat=s.suffix_array[i])"
      " and forall(lambda i: implies(0<=i and i<len(dat(s)), 0<=dat(s)[i] and dat(s)[i]<2000000000), pat=dat(s)[i])")
macro("sorted_at", "s lo hi o", "forall(lambda i, j: implies(lo<=i and i<j and j<hi, key(s,i,o)<=key(s,j,o)), pat=(s.suffix_array[i],s.suffix_array[j]))")
macro("vocab_ok", "d", "forall(d.id2word[0], lambda x: implies(x in d.word2id, 0<=d.word2id[x] and d.word2id[x]<len(d.id2word)), pat=d.word2id[x])")
# the bucket of a symbol is exactly the ranks whose suffix starts with it
macro("buckets", "s", "len(s.word_start)==len(s.data_array.val.id2word)+1 and forall(lambda w, i: implies(1<=w and w<len(s.word_start)-1 and 0<=i and i<len(s.suffix_array),"
      " (s.word_start[w]<=i and i<s.word_start[w+1])==(key(s,i,0)==w)), pat=(s.word_start[w],s.suffix_array[i]))")
DAE = [
    (DA + "GetSize", [], ["len(this.data)<2147483647"], ["result==len(this.data)"]),
    (DA + "AtIndex", ["index"], ["0<=index and index<len(this.data)"], ["result==this.data[index]"]),
    (DA + "GetVocabularySize", [], ["len(this.id2word)<2147483647"], ["result==len(this.id2word)"]),
    (DA + "GetNumSentences", [], ["1<=len(this.sentence_start) and len(this.sentence_start)<2147483647"], ["result==len(this.sentence_start)-1"]),
    (DA + "GetWordId", ["word"], [], ["result==ite(word in this.word2id, this.word2id[word], 0-1)"]),
    (DA + "GetWord", ["word_id"], ["0<=word_id and word_id<len(this.id2word)"], ["result==this.id2word[word_id]"]),
    (DA + "GetWordAtIndex", ["index"], ["0<=index and index<len(this.data) and 0<=this.data[index] and this.data[index]<len(this.id2word)"], ["result==this.id2word[this.data[index]]"]),
    (DA + "GetData", [], [], ["result==this.data"]),
    (DA + "GetWordIds", ["index", "size"], ["0<=index and 0<=size and index+size<=len(this.data) and len(this.data)<2147483647"], ["len(result)==size", "forall(lambda k: implies(0<=k and k<size, result[k]==this.data[index+k]), pat=result[k])"]),
]


def build_da(u):
    cs = [Contract(q, params=p, requires=r, ensures=e) for q, p, r, e in DAE] + da_contracts(True)
    for c in cs:
        c.verify = True
    cs.append(Contract(DA + "GetWords", params=["start_index", "size"], requires=["0<=start_index and 0<=size and start_index+size<=len(this.data) and len(this.data)<2147483647", "forall(lambda k: implies(0<=k and k<len(this.data), 0<=this.data[k] and this.data[k]<len(this.id2word)), pat=this.data[k])"],
        ensures=["len(result)==size", "forall(lambda k: implies(0<=k and k<size, result[k]==this.id2word[this.data[start_index+k]]), pat=result[k])"],
        loops=[["len(words)==_i", "forall(lambda k: implies(0<=k and k<_i, words[k]==this.id2word[this.data[start_index+k]]), pat=words[k])"]]))
    return cs


def build_sa(u):
    cs = [Contract(q, params=p, requires=r, ensures=e, verify=False) for q, p, r, e in DAE]
    cs.append(Contract("extractor::PhraseLocation::PhraseLocation", params=["sa_low", "sa_high"], modifies=["this"], ensures=["this.sa_low==sa_low", "this.sa_high==sa_high", "this.num_subpatterns==0", "not this.matchings.nonnull"], verify=False, sig=lambda f: len(f["pt"]) == 2 and "vector" not in str(f["pt"][0])))
    cs.append(Contract("extractor::GetDuration", params=["a", "b"], verify=False))
    cs.append(Contract(SA + "GetSize", requires=["len(this.suffix_array)<2147483647"], ensures=["result==len(this.suffix_array)"]))
    cs.append(Contract(SA + "GetSuffix", params=["rank"], requires=["0<=rank and rank<len(this.suffix_array)"], ensures=["result==this.suffix_array[rank]"]))
    rng = ["sa_ok(this)", "0<=low and low<=high and high<=len(this.suffix_array)", "0<=offset and offset<100000000"]
    cs.append(Contract(SA + "LookupRangeStart", params="low high word_id offset".split(), requires=rng + ["0<=word_id", "sorted_at(this,low,high,offset)"],
        ensures=[("inside the range", "old(low)<=result and result<=old(high)"),
                 ("all before are smaller", "forall(lambda i: implies(old(low)<=i and i<result, key(this,i,offset)<word_id), pat=this.suffix_array[i])"),
                 ("none after is smaller", "forall(lambda i: implies(result<=i and i<old(high), key(this,i,offset)>=word_id), pat=this.suffix_array[i])")],
        loops=[["entry(low)<=low and low<=high and high<=entry(high) and result==high",
                "forall(lambda i: implies(entry(low)<=i and i<low, key(this,i,offset)<word_id), pat=this.suffix_array[i])",
                "forall(lambda i: implies(high<=i and i<entry(high), key(this,i,offset)>=word_id), pat=this.suffix_array[i])"]]))
    cs.append(Contract(SA + "Lookup", params="low high word offset".split(), requires=rng + ["vocab_ok(this.data_array.val) and len(this.data_array.val.id2word)<2000000000", "buckets(this)", "implies(offset>0, sorted_at(this,low,high,offset))",
            "implies(word in this.data_array.val.word2id, this.data_array.val.word2id[word]>=1)"],
        ensures=[("unknown words occur nowhere", "implies(not (word in this.data_array.val.word2id), result.sa_low==result.sa_high)"),
                 ("first word: exactly its occurrences", "implies(word in this.data_array.val.word2id and offset==0, forall(lambda i: implies(0<=i and i<len(this.suffix_array), (result.sa_low<=i and i<result.sa_high)==(key(this,i,0)==this.data_array.val.word2id[word])), pat=this.suffix_array[i]))"),
                 ("longer phrase: exactly the occurrences that continue with the word", "implies(word in this.data_array.val.word2id and offset>0, low<=result.sa_low and result.sa_low<=result.sa_high and result.sa_high<=high and forall(lambda i: implies(low<=i and i<high, (result.sa_low<=i and i<result.sa_high)==(key(this,i,offset)==this.data_array.val.word2id[word])), pat=this.suffix_array[i]))"),
                 ("a range, not a list", "result.num_subpatterns==0")]))
    G = "old(groups)"
    cs.append(Contract(SA + "InitialBucketSort", params=["groups"], opts={"uses": ["cnt_range", "below_range", "below_step", "below_zero", "cnt_mono", "below_sym"]}, modifies=["groups", "this.word_start", "this.suffix_array"],
        requires=["len(groups)<2000000000 and len(this.suffix_array)==len(groups) and 2<=len(this.word_start) and len(this.word_start)<2000000000",
                  "forall(lambda i: implies(0<=i and i<len(groups), 0<=groups[i] and groups[i]<len(this.word_start)-1), pat=groups[i])",
                  "forall(lambda w: implies(0<=w and w<len(this.word_start), this.word_start[w]==0), pat=this.word_start[w])"],
        ensures=[("sizes kept", "len(this.suffix_array)==len(groups) and len(groups)==len(old(groups)) and len(this.word_start)==len(old(this.word_start))"),
                 ("buckets start after all smaller symbols", "forall(lambda w: implies(0<=w and w<len(this.word_start), this.word_start[w]==sa_below(%s,len(groups),w)), pat=this.word_start[w])" % G),
                 ("every position is in the bucket of its symbol", "forall(lambda k: implies(0<=k and k<len(groups), this.suffix_array[sa_below(%s,len(groups),%s[k])+sa_cnt(%s,len(groups),%s[k])-sa_cnt(%s,k+1,%s[k])]==k), pat=%s[k])" % (G, G, G, G, G, G, G)),
                 ("group numbers end their bucket", "forall(lambda k: implies(0<=k and k<len(groups), groups[k]==sa_below(%s,len(groups),%s[k]+1)-1), pat=groups[k])" % (G, G))],
        loops=[["len(this.word_start)==len(entry(this.word_start))", "forall(lambda w: implies(0<=w and w<len(this.word_start), this.word_start[w]==sa_cnt(groups,i,w)), pat=this.word_start[w])"],
               ["len(this.word_start)==len(entry(this.word_start)) and i<=len(this.word_start)", "forall(lambda w: implies(0<=w and w<len(this.word_start), this.word_start[w]==ite(w<i, sa_below(groups,len(groups),w+1), sa_cnt(groups,len(groups),w))), pat=this.word_start[w])"],
               ["len(this.word_start)==len(entry(this.word_start)) and len(this.suffix_array)==len(groups)",
                "implies(i<len(groups), sa_cnt(groups,i+1,groups[i])==sa_cnt(groups,i,groups[i])+1 and sa_cnt(groups,i+1,groups[i])<=sa_cnt(groups,len(groups),groups[i]))",
                "forall(lambda w: implies(0<=w and w<len(this.word_start), this.word_start[w]==sa_below(groups,len(groups),w)+sa_cnt(groups,len(groups),w)-sa_cnt(groups,i,w)), pat=this.word_start[w])",
                "forall(lambda k: implies(0<=k and k<i, this.suffix_array[sa_below(groups,len(groups),groups[k])+sa_cnt(groups,len(groups),groups[k])-sa_cnt(groups,k+1,groups[k])]==k), pat=groups[k])"],
               ["len(groups)==len(entry(groups))", "forall(lambda k: implies(0<=k and k<len(groups), groups[k]==ite(k<i, sa_below(entry(groups),len(groups),entry(groups)[k]+1)-1, entry(groups)[k])), pat=groups[k])"]]))
    return cs


def build_pl(u):
    return [Contract("extractor::PhraseLocation::GetSize", requires=["implies(this.num_subpatterns>0, this.matchings.nonnull and len(this.matchings.val)<2147483647)", "implies(this.num_subpatterns<=0, 0-1<=this.sa_low and this.sa_low<=this.sa_high)"],
                     ensures=[("number of entries", "result==ite(this.num_subpatterns>0, len(this.matchings.val), this.sa_high-this.sa_low)")]),
            Contract("extractor::PhraseLocation::IsEmpty", requires=["implies(this.num_subpatterns>0, this.matchings.nonnull and len(this.matchings.val)<2147483647)", "implies(this.num_subpatterns<=0, 0-1<=this.sa_low and this.sa_low<=this.sa_high)"],
                     ensures=[("no entries", "result==(ite(this.num_subpatterns>0, len(this.matchings.val), this.sa_high-this.sa_low)==0)")])]



PLC = Contract("extractor::PhraseLocation::PhraseLocation", params=["sa_low", "sa_high"], modifies=["this"], ensures=["this.sa_low==sa_low", "this.sa_high==sa_high", "this.num_subpatterns==0", "not this.matchings.nonnull"], verify=False, sig=lambda f: len(f["pt"]) == 2 and "vector" not in str(f["pt"][0]))
FI = "extractor::FastIntersector::"
PC = "extractor::Precomputation::"


def build_fi(u):
    sap = "this.suffix_array.val.suffix_array"
    return [Contract("extractor::PhraseLocation::GetSize", requires=["implies(this.num_subpatterns>0, this.matchings.nonnull and len(this.matchings.val)<2147483647)", "implies(this.num_subpatterns<=0, 0-1<=this.sa_low and this.sa_low<=this.sa_high)"],
                     ensures=["result==ite(this.num_subpatterns>0, len(this.matchings.val), this.sa_high-this.sa_low)"], verify=False),
            Contract(SA + "GetSuffix", params=["rank"], requires=["0<=rank and rank<len(this.suffix_array)"], ensures=["result==this.suffix_array[rank]"], verify=False),
            Contract(FI + "EstimateNumOperations", params=["phrase_location", "has_margin_x"], requires=["implies(phrase_location.num_subpatterns>0, phrase_location.matchings.nonnull and len(phrase_location.matchings.val)<1000000)", "implies(phrase_location.num_subpatterns<=0, 0<=phrase_location.sa_low and phrase_location.sa_low<=phrase_location.sa_high and phrase_location.sa_high<1000000)", "0<=this.max_rule_span and this.max_rule_span<1000"],
                     ensures=[("one probe per occurrence, or one per reachable position", "result==ite(phrase_location.num_subpatterns>0, len(phrase_location.matchings.val), phrase_location.sa_high-phrase_location.sa_low)*ite(has_margin_x, this.max_rule_span, 1)")]),
            Contract(FI + "GetSearchRange", params=["has_marginal_x"], requires=["this.min_gap_size<1000000"],
                     ensures=[("gap of at least min_gap_size within the span, or the adjacent position", "result.first==ite(has_marginal_x, this.min_gap_size+1, 1) and result.second==ite(has_marginal_x, this.max_rule_span, 2)")]),
            Contract(FI + "ExtendPhraseLocation", params=["location"], modifies=["location"], requires=["this.suffix_array.nonnull", "implies(not location.matchings.nonnull, 0<=location.sa_low and location.sa_low<=location.sa_high and location.sa_high<=len(%s))" % sap],
                     ensures=[("a list is left alone", "implies(old(location).matchings.nonnull, location==old(location))"),
                              ("a range becomes the list of its positions, in rank order", "implies(not old(location).matchings.nonnull, location.matchings.nonnull and location.num_subpatterns==1 and len(location.matchings.val)==old(location).sa_high-old(location).sa_low"
                               " and forall(lambda k: implies(0<=k and k<len(location.matchings.val), location.matchings.val[k]==%s[old(location).sa_low+k]), pat=location.matchings.val[k]))" % sap)],
                     loops=[["location.matchings.nonnull and location.num_subpatterns==1 and location.sa_low==old(location).sa_low and location.sa_high==old(location).sa_high and len(location.matchings.val)==i-old(location).sa_low",
                             "forall(lambda k: implies(0<=k and k<len(location.matchings.val), location.matchings.val[k]==%s[old(location).sa_low+k]), pat=location.matchings.val[k])" % sap]])]


def build_pc(u):
    app = lambda v, o, xs: ["len(%s)==len(old(%s))+%d" % (v, v, len(xs)), "forall(lambda k: implies(0<=k and k<len(old(%s)), %s[k]==old(%s)[k]), pat=%s[k])" % (v, v, v, v)] + ["%s[len(old(%s))+%d]==%s" % (v, v, i, x) for i, x in enumerate(xs)]
    return [Contract(PC + "AppendSubpattern", params=["pattern", "subpattern"], modifies=["pattern"], ensures=["len(pattern)==len(old(pattern))+len(subpattern)", "forall(lambda k: implies(0<=k and k<len(pattern), pattern[k]==ite(k<len(old(pattern)), old(pattern)[k], subpattern[k-len(old(pattern))])), pat=pattern[k])"]),
            Contract(PC + "AppendCollocation", params=["collocations", "pos1", "pos2"], modifies=["collocations"], ensures=app("collocations", None, ["pos1", "pos2"]), sig=lambda f: len(f["pt"]) == 3),
            Contract(PC + "AppendCollocation", params=["collocations", "pos1", "pos2", "pos3"], modifies=["collocations"], ensures=app("collocations", None, ["pos1", "pos2", "pos3"]), sig=lambda f: len(f["pt"]) == 4)]


def build_mf(u):
    return [Contract(SA + "GetSize", requires=["len(this.suffix_array)<2147483647"], ensures=["result==len(this.suffix_array)"], verify=False),
            Contract(SA + "Lookup", params="low high word offset".split(), requires=["0<=low and low<=high and high<=len(this.suffix_array)", "0<=offset"], ensures=["result.num_subpatterns==0", "mf_res(result.sa_low, result.sa_high, low, high, offset)"], verify=False),
            Contract("extractor::MatchingsFinder::Find", params=["location", "word", "offset"], modifies=["location"], requires=["this.suffix_array.nonnull and len(this.suffix_array.val.suffix_array)<2147483647", "0<=offset",
                        "(location.sa_low==0-1 and location.sa_high==0-1) or (0<=location.sa_low and location.sa_low<=location.sa_high and location.sa_high<=len(this.suffix_array.val.suffix_array))"],
                     ensures=[("an empty query starts from the whole suffix array", "implies(old(location).sa_low==0-1, location.sa_low==0 and location.sa_high==len(this.suffix_array.val.suffix_array))"),
                              ("otherwise the search stays in the given range", "implies(old(location).sa_low!=0-1, location.sa_low==old(location).sa_low and location.sa_high==old(location).sa_high)"),
                              ("result is the lookup in that range", "result.num_subpatterns==0 and mf_res(result.sa_low, result.sa_high, location.sa_low, location.sa_high, offset)")])]


MFR = z3.Function("mf_res", IS, IS, IS, IS, IS, z3.BoolSort())
specfn("mf_res")(lambda env, *a: MFR(*a))
E3SRC = ["extractor/data_array.cc", "extractor/suffix_array.cc", "extractor/phrase_location.cc", "extractor/matchings_finder.cc", "extractor/fast_intersector.cc", "extractor/precomputation.cc", "extractor/phrase.cc", "extractor/phrase_builder.cc", "extractor/vocabulary.cc", "extractor/time_util.cc", "utils/filelib.cc", "utils/gzstream.cc"]
PROPERTY = Property("E03", [UnitSpec("extractor/data_array.cc", build_da, [q for q, *_ in DAE] + [DA + x for x in ("GetWords", "GetSentenceLength", "GetSentenceId", "GetSentenceStart")]),
    UnitSpec("extractor/suffix_array.cc", build_sa, [SA + x for x in ("GetSize", "GetSuffix", "LookupRangeStart", "Lookup", "InitialBucketSort")], lemmas=LEM),
    UnitSpec("extractor/phrase_location.cc", build_pl, ["extractor::PhraseLocation::GetSize", "extractor::PhraseLocation::IsEmpty"]),
    UnitSpec("extractor/matchings_finder.cc", build_mf, ["extractor::MatchingsFinder::Find"]),
    UnitSpec("extractor/fast_intersector.cc", build_fi, [FI + "EstimateNumOperations", FI + "GetSearchRange", FI + "ExtendPhraseLocation"]),
    UnitSpec("extractor/precomputation.cc", build_pc, [PC + "AppendSubpattern", PC + "AppendCollocation"]),
], driver=Driver("e03.cc", sources=E3SRC, secs=25, libs=["-lz"]),
    bounded=["DataArray::CreateDataArray, SuffixArray::BuildSuffixArray/PrefixDoublingSort/TernaryQuicksort/BuildLCPArray, FastIntersector::Intersect/ExtendPrefixPhraseLocation/ExtendSuffixPhraseLocation, Precomputation::UpdateIndex/FindMostFrequentPatterns: compared with brute-force enumeration on random corpora of up to 12 sentences, 14 words each"])
