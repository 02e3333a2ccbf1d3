from ext_common import *
H = "extractor::RuleExtractorHelper::"
VI = vec_sort(z3.IntSort())


# number of pattern chunks 0..n-1 with at least one aligned word
def _ac(m, c, sl, start, n):
    j = z3.FreshConst(z3.IntSort(), "j")
    al = z3.Exists([j], z3.And(0 <= j, j < vat(c, n - 1), vat(sl, vat(m, n - 1) - start + j) != -1))
    return z3.If(n <= 0, 0, ac(m, c, sl, start, n - 1) + z3.If(al, 1, 0))


ac = RecFn("aligned_chunks", [VI, VI, VI, z3.IntSort(), z3.IntSort()], z3.IntSort(), _ac)


# symbols taken by the first n chunks and the nonterminal after each of them
so = RecFn("symoff", [VI, z3.IntSort()], z3.IntSort(), lambda c, n: z3.If(n <= 0, 0, so(c, n - 1) + vat(c, n - 1) + 1))


def source_indexes_contract(verify=True):
    dom = "forall(lambda s: (s in R)==(in_chunk(matching,chunklen,start,s,N)%s), pat=R.dom[s])"
    val = "forall(lambda i, s: implies(0<=i and i<N and matching[i]-start<=s and s<matching[i]-start+chunklen[i], R[s]==sx+symoff(chunklen,i)+s-(matching[i]-start)), pat=(matching[i],R[s]))"
    return [Contract(H + "GetSourceIndexes", params="matching chunklen sx start".split(),
        requires=["len(matching)==len(chunklen)", "len(matching)<1000000", "0<=start", "0<=sx", "sx<=1",
                  "forall(lambda i: implies(0<=i and i<len(matching), chunklen[i]>=1 and chunklen[i]<=1000000 and start<=matching[i] and matching[i]<1073741824), pat=matching[i])",
                  "forall(lambda i, j: implies(0<=i and i<j and j<len(matching), matching[i]+chunklen[i]<=matching[j]), pat=(matching[i],matching[j]))"],
        ensures=[("exactly the words of the chunks", (dom % "").replace("R", "result").replace("N", "len(matching)")),
                 ("indexes count words and gaps", val.replace("R", "result").replace("N", "len(matching)"))],
        loops=[["num_symbols==sx+symoff(chunklen,_i)", (dom % "").replace("R", "source_indexes").replace("N", "_i"), val.replace("R", "source_indexes").replace("N", "_i")],
               ["num_symbols==sx+symoff(chunklen,_o)+_i",
                (dom % " or (matching[_o]-start<=s and s<matching[_o]-start+_i)").replace("R", "source_indexes").replace("N", "_o"),
                val.replace("R", "source_indexes").replace("N", "_o"),
                "forall(lambda s: implies(matching[_o]-start<=s and s<matching[_o]-start+_i, source_indexes[s]==sx+symoff(chunklen,_o)+s-(matching[_o]-start)), pat=source_indexes[s])"]])]


def build(u):
    cs = da_contracts()
    cs.append(Contract("extractor::Alignment::GetLinks", params=["s"], requires=["0<=s", "s<len(this.alignments)"], ensures=["result==this.alignments[s]"], verify=False))
    helper_ok = ["source_data_array.nonnull", "target_data_array.nonnull", "da_ok(source_data_array.val)", "da_ok(target_data_array.val)"]
    sid = ["sid_ok(source_data_array.val, sid)", "sid_ok(target_data_array.val, sid)"]
    S, T = "slen(source_data_array.val,sid)", "slen(target_data_array.val,sid)"
    inv = ["len(source_low)==%s" % S, "len(source_high)==%s" % S, "len(target_low)==%s" % T, "len(target_high)==%s" % T]
    cs.append(Contract(H + "GetLinksSpans", params="slow shigh tlow thigh sid".split(),
        requires=helper_ok + sid + ["alignment.nonnull", "sid<len(alignment.val.alignments)", "links_ok(alignment.val.alignments[sid], %s, %s)" % (S, T)],
        modifies=["slow", "shigh", "tlow", "thigh"],
        ensures=[("source side length", "len(slow)==%s and len(shigh)==%s" % (S, S)), ("target side length", "len(tlow)==%s and len(thigh)==%s" % (T, T)),
                 ("source spans are the extremes of the links", "lowhigh_src(alignment.val.alignments[sid], len(alignment.val.alignments[sid]), slow, shigh)"),
                 ("target spans are the extremes of the links", "lowhigh_tgt(alignment.val.alignments[sid], len(alignment.val.alignments[sid]), tlow, thigh)"),
                 ("spans agree", "spans(slow,shigh,tlow,thigh)")],
        loops=[["len(slow)==%s and len(shigh)==%s" % (S, S), "len(tlow)==%s and len(thigh)==%s" % (T, T),
                "lowhigh_src(links, _i, slow, shigh)", "lowhigh_tgt(links, _i, tlow, thigh)"]]))
    cs.append(Contract(H + "FindProjection", params="lo hi slow shigh tlow thigh".split(),
        requires=["0<=lo", "lo<=hi", "hi<=len(slow)", "len(slow)==len(shigh)",
                  "forall(lambda i: implies(0<=i and i<len(slow) and slow[i]!=-1, 0<=slow[i] and slow[i]<shigh[i]), pat=slow[i])"],
        modifies=["tlow", "thigh"],
        ensures=[("covers the projection", "forall(lambda i: implies(lo<=i and i<hi and slow[i]!=-1, tlow!=-1 and tlow<=slow[i] and shigh[i]<=thigh), pat=slow[i])"),
                 ("only grows", "implies(old(tlow)!=-1, tlow!=-1 and tlow<=old(tlow)) and thigh>=old(thigh)"),
                 ("low end is old or projected", "tlow==old(tlow) or exists(lambda i: lo<=i and i<hi and slow[i]!=-1 and tlow==slow[i])"),
                 ("high end is old or projected", "thigh==old(thigh) or exists(lambda i: lo<=i and i<hi and slow[i]!=-1 and thigh==shigh[i])")],
        loops=[["forall(lambda k: implies(lo<=k and k<i and slow[k]!=-1, tlow!=-1 and tlow<=slow[k] and shigh[k]<=thigh), pat=slow[k])",
                "implies(entry(tlow)!=-1, tlow!=-1 and tlow<=entry(tlow)) and thigh>=entry(thigh)",
                "tlow==entry(tlow) or exists(lambda k: lo<=k and k<i and slow[k]!=-1 and tlow==slow[k])",
                "thigh==entry(thigh) or exists(lambda k: lo<=k and k<i and slow[k]!=-1 and thigh==shigh[k])"]]))
    AR = "sl sh tl th".split()
    wf = helper_ok + sid + ["len(sl)==%s" % S, "len(sh)==%s" % S, "len(tl)==%s" % T, "len(th)==%s" % T, "spans(sl,sh,tl,th)"]
    cs.append(Contract(H + "FindFixPoint", params="spl sph sl sh tpl tph tl th sbl sbh sid min_s min_t max_x low_x high_x expand".split(),
        requires=wf + ["0<=spl", "spl<=sph", "sph<=%s" % S, "tpl==-1", "tph==-1", "min_s>=0"],
        modifies=["tpl", "tph", "sbl", "sbh"],
        ensures=[("phrase kept", "implies(result, sbl<=spl and sph<=sbh)"),
                 ("no crossing links", "implies(result, consistent(sbl,sbh,tpl,tph,sl,sh,tl,th))"),
                 ("target edges aligned", "implies(result, anchored(sbl,sbh,tpl,tph,sl,sh,tl,th))"),
                 ("target width", "implies(result, tph-tpl<=max_rule_span)"),
                 ("source width", "implies(result, sbh-sbl<=max_rule_span or (sbl==spl and sbh==sph))"),
                 ("left only if allowed", "implies(result and not low_x, sbl==spl)"),
                 ("right only if allowed", "implies(result and not high_x, sbh==sph)"),
                 ("at most max_x sides", "implies(result, ite(sbl<spl,1,0)+ite(sph<sbh,1,0)<=max(max_x,0))"),
                 ("left extension wide enough", "implies(result and sbl<spl, spl-sbl>=min_s)"),
                 ("right extension wide enough", "implies(result and sbh>sph, sbh-sph>=min_s)")],
        loops=[[("source span", "0<=spl and spl<=old(spl) and old(sph)<=sph and sph<=len(sl) and spl<sph"),
                ("target span", "0<=tpl and tpl<tph and tph<=len(tl) and tph-tpl<=max_rule_span"),
                ("anchored1", "tl[tpl]!=-1"), ("anchored2", "tl[tph-1]!=-1"),
                ("source projects inside", "proj_in(spl,sph,sl,sh,tpl,tph)"),
                ("target projects back", "0<=sbl and sbl<sbh and sbh<=len(sl) and proj_in(tpl,tph,tl,th,sbl,sbh)"),
                ("new sides", "new_x==ite(new_low_x,1,0)+ite(new_high_x,1,0) and new_x<=max(max_x,0)"),
                ("left", "implies(spl<old(spl), new_low_x and low_x and old(spl)-spl>=min_s)"),
                ("right", "implies(sph>old(sph), new_high_x and high_x and sph-old(sph)>=min_s)"),
                ("source width", "sph-spl<=max_rule_span or (spl==old(spl) and sph==old(sph))")]]))
    # the pattern occurrence: chunk i occupies [matching[i], matching[i]+chunklen[i]) of the corpus
    occ = ["len(matching)==len(chunklen)", "len(matching)>=1", "start>=0",
           "forall(lambda i: implies(0<=i and i<len(matching), chunklen[i]>=1 and start<=matching[i] and matching[i]+chunklen[i]-start<=%s), pat=matching[i])" % "len(sl)",
           "forall(lambda i, j: implies(0<=i and i<j and j<len(matching), matching[i]+chunklen[i]<=matching[j]), pat=(matching[i],matching[j]))"]
    cs.append(Contract(H + "CheckAlignedTerminals", params="matching chunklen sl start".split(),
        requires=occ,
        ensures=[("accepted exactly when enough chunks are aligned", "result==(not require_aligned_terminal or (aligned_chunks(matching,chunklen,sl,start,len(matching))>0 and"
                  " (not require_aligned_chunks or aligned_chunks(matching,chunklen,sl,start,len(matching))==len(matching))))")],
        loops=[["0<=num_aligned_chunks and num_aligned_chunks<=_i", "num_aligned_chunks==aligned_chunks(matching,chunklen,sl,start,_i)"],
               ["num_aligned_chunks==entry(num_aligned_chunks)",
                "forall(lambda j: implies(0<=j and j<_i, sl[matching[_o]-start+j]==-1))"]]))
    cs.append(Contract(H + "CheckTightPhrases", params="matching chunklen sl start".split(),
        requires=occ + ["forall(lambda i: implies(0<=i and i<len(matching)-1, matching[i]+chunklen[i]<matching[i+1]), pat=matching[i])"],
        ensures=[("gap edges aligned", "implies(require_tight_phrases, result==forall(lambda i: implies(0<=i and i<len(matching)-1, sl[matching[i]+chunklen[i]-start]!=-1 and sl[matching[i+1]-1-start]!=-1), pat=matching[i]))"),
                 ("not required", "implies(not require_tight_phrases, result)")],
        loops=[["forall(lambda i: implies(0<=i and i<_i, sl[matching[i]+chunklen[i]-start]!=-1 and sl[matching[i+1]-1-start]!=-1), pat=matching[i])"]]))
    gl = "ite(sbl<spl,1,0)"
    mid = "forall(lambda k: implies(GL<=k and k<GL+%s, sgaps[k].first==matching[k-GL]+chunklen[k-GL]-start and sgaps[k].second==matching[k-GL+1]-start), pat=sgaps[k])".replace("GL", gl)
    gaps_are = ("len(sgaps)==%s+len(matching)-1+ite(sph<sbh,1,0)" % gl + " and implies(sbl<spl, sgaps[0].first==sbl and sgaps[0].second==spl)"
                " and implies(sph<sbh, sgaps[len(sgaps)-1].first==sph and sgaps[len(sgaps)-1].second==sbh)"
                " and " + mid % "len(matching)-1")
    gaps_ok = "forall(lambda k: implies(0<=k and k<%s, consistent(sgaps[k].first,sgaps[k].second,tgaps[k].first,tgaps[k].second,sl,sh,tl,th) and anchored(sgaps[k].first,sgaps[k].second,tgaps[k].first,tgaps[k].second,sl,sh,tl,th)), pat=[sgaps[k],tgaps[k]])"
    cs.append(Contract(H + "GetGaps", params="sgaps tgaps matching chunklen sl sh tl th spl sph sbl sbh sid start nsym met".split(),
        requires=wf + occ + ["len(sgaps)==0", "len(tgaps)==0", "spl==matching[0]-start", "sph==matching[len(matching)-1]+chunklen[len(matching)-1]-start",
                             "0<=sbl", "sbl<=spl", "sph<=sbh", "sbh<=len(sl)", "spl<sph", "nsym<2147483647"],
        modifies=["sgaps", "tgaps", "nsym", "met"],
        ensures=[("gaps are the uncovered source spans in order", "implies(result, %s)" % gaps_are),
                 ("one target gap per source gap", "implies(result, len(tgaps)==len(sgaps))"),
                 ("gaps consistent with the alignment", "implies(result, %s)" % (gaps_ok % "len(sgaps)")),
                 ("new gaps counted", "implies(result, nsym==old(nsym)+%s+ite(sph<sbh,1,0) and nsym<=max(old(nsym),max_rule_symbols))" % gl),
                 ("gap edges aligned if tight", "implies(result and require_tight_phrases, implies(sbl<spl, sl[sbl]!=-1 and sl[spl-1]!=-1) and implies(sph<sbh, sl[sph]!=-1 and sl[sbh-1]!=-1))"),
                 ("constraints flag", "implies(result, met==(old(met) and not (require_tight_phrases and (sbl==spl and sl[spl]==-1 or sph==sbh and sl[sph-1]==-1))))")],
        loops=[["len(sgaps)==%s+_i" % gl, "implies(sbl<spl, sgaps[0].first==sbl and sgaps[0].second==spl)",
                mid % "_i"],
               ["len(tgaps)==len(sgaps)", "len(sgaps)==len(entry(sgaps))",
                "forall(lambda k: implies(0<=k and k<len(sgaps), sgaps[k].first==entry(sgaps)[k].first and sgaps[k].second==entry(sgaps)[k].second), pat=[sgaps[k], entry(sgaps)[k]])",
                "forall(lambda k: implies(_i<=k and k<len(sgaps), tgaps[k].first==-1 and tgaps[k].second==-1), pat=tgaps[k])",
                "forall(lambda k: implies(0<=k and k<len(sgaps), 0<=sgaps[k].first and sgaps[k].first<=sgaps[k].second and sgaps[k].second<=len(sl)), pat=sgaps[k])",
                gaps_ok % "_i"]]))
    cs += source_indexes_contract()
    return cs


FULL = False
RX = "extractor::RuleExtractor::"


def build_rx(u):
    cs = da_contracts() + phrase_contracts()
    cs += [c for c in build(u)]
    for c in cs:
        c.verify = False
    LK = "helper.val.alignment.val.alignments[sid]"
    world = ["helper.nonnull", "source_data_array.nonnull", "phrase_builder.nonnull", "target_phrase_extractor.nonnull", "source_data_array.val==helper.val.source_data_array.val",
             "helper.val.source_data_array.nonnull", "helper.val.target_data_array.nonnull", "helper.val.alignment.nonnull",
             "da_ok(helper.val.source_data_array.val)", "da_ok(helper.val.target_data_array.val)",
             "helper.val.max_rule_span==max_rule_span", "helper.val.max_rule_symbols==max_rule_symbols", "helper.val.require_tight_phrases==require_tight_phrases",
             "min_gap_size>=1", "min_gap_size<=1000000", "max_rule_span>=1", "max_rule_span<=1000000", "0<=max_nonterminals", "max_nonterminals<=1000000", "max_rule_symbols<=1000000"]
    S, T = "slen(helper.val.source_data_array.val,sid)", "slen(helper.val.target_data_array.val,sid)"
    sent = ["sid_ok(helper.val.source_data_array.val,sid)", "sid_ok(helper.val.target_data_array.val,sid)", "sid<len(helper.val.alignment.val.alignments)",
            "links_ok(%s,%s,%s)" % (LK, S, T)]
    arrays = ["len(sl)==%s" % S, "len(sh)==%s" % S, "len(tl)==%s" % T, "len(th)==%s" % T, "spans(sl,sh,tl,th)",
              "lowhigh_src(%s,len(%s),sl,sh)" % (LK, LK), "lowhigh_tgt(%s,len(%s),tl,th)" % (LK, LK)]
    cs.append(Contract("extractor::PhraseBuilder::Extend", params="phrase sx ex".split(), requires=["phrase_ok(phrase)"], modifies=[],
        ensures=["phrase_ok(result)", "len(result.symbols)==len(phrase.symbols)+ite(sx,1,0)+ite(ex,1,0)", "len(result.var_pos)==len(phrase.var_pos)+ite(sx,1,0)+ite(ex,1,0)"], verify=False))
    cs.append(Contract("extractor::TargetPhraseExtractor::ExtractPhrases", params="g tl lo hi idx sid".split(), modifies=[], verify=False))
    cs.append(Contract(RX + "AddExtracts", params="extracts sp idx g tl lo hi sid".split(),
        requires=world + sent + ["phrase_ok(sp)", "len(tl)==%s" % T,
            ("target span has aligned edges", "tspan_ok(tl,lo,hi)"), ("target width", "hi-lo<=max_rule_span"),
            ] + ([("gaps inside the target span with aligned edges", "tgaps_ok(g,tl,lo,hi)"), ("gaps disjoint", "tgaps_disjoint(g)"),
            ("a link leaves neither the phrase nor a gap", "terminals_match(%s,idx,g,lo,hi)" % LK), ("gaps listed in source order", "gap_order(%s,g)" % LK)] if FULL else []) + [
            ("one nonterminal per gap", "len(sp.var_pos)==len(g)"), ("nonterminal limit", "len(g)<=max_nonterminals"), ("symbol limit", "len(sp.symbols)<=max_rule_symbols")],
        modifies=["extracts"],
        ensures=[("earlier extracts kept", "len(extracts)>=len(old(extracts)) and forall(lambda k: implies(0<=k and k<len(old(extracts)), extracts[k]==old(extracts)[k]), pat=extracts[k])"),
                 ("new extracts carry the source phrase and share weight one", "forall(lambda k: implies(len(old(extracts))<=k and k<len(extracts), extracts[k].source_phrase==sp"
                  " and extracts[k].pairs_count*real(len(extracts)-len(old(extracts)))==1), pat=extracts[k])")],
        loops=[["len(extracts)==len(entry(extracts))+_i", "forall(lambda k: implies(0<=k and k<len(entry(extracts)), extracts[k]==entry(extracts)[k]), pat=extracts[k])",
                "forall(lambda k: implies(len(entry(extracts))<=k and k<len(extracts), extracts[k].source_phrase==sp and extracts[k].pairs_count==pairs_count), pat=extracts[k])"]]))
    chunks = ["len(matching)==len(chunklen)", "len(matching)>=1", "len(matching)<1000000", "0<=start",
              "forall(lambda i: implies(0<=i and i<len(matching), chunklen[i]>=1 and chunklen[i]<=1000000 and start<=matching[i] and matching[i]-start+chunklen[i]<=len(sl) and matching[i]<1073741824), pat=matching[i])",
              "forall(lambda i, j: implies(0<=i and i<j and j<len(matching), matching[i]+chunklen[i]<matching[j]), pat=(matching[i],matching[j]))"]
    cs.append(Contract(RX + "AddNonterminalExtremities", params="extracts matching chunklen sp sbl sbh sl sh tl th g sid start swx ewx left right".split(),
        requires=world + sent + arrays + chunks + ["phrase_ok(sp)", "0<=left and left<=1 and 0<=right and right<=1 and 0<=swx and swx<=1 and 0<=ewx and ewx<=1",
            "0<=sbl and sbl<sbh and sbh<=len(sl)", "sbh-sbl+min_gap_size<=max_rule_span", "len(sp.var_pos)==len(g)", "len(sp.symbols)<=max_rule_symbols", "len(g)<=max_nonterminals",
            ("chunks inside", "forall(lambda i: implies(0<=i and i<len(matching), sbl<=matching[i]-start and matching[i]-start+chunklen[i]<=sbh), pat=matching[i])"),
            ("gap edges aligned", "tgaps_ok(g,tl,0,len(tl))"), ("gaps disjoint", "tgaps_disjoint(g)"), ("gaps in source order", "gap_order(%s,g)" % LK),
            ("span is chunks and gaps", "forall(lambda x: implies(0<=x and x<len(LK), (sbl<=LK[x].first and LK[x].first<sbh)==(in_chunk(matching,chunklen,start,LK[x].first,len(matching)) or gap_at(g,LK[x].second))), pat=LK[x])".replace("LK", LK)),
            ("chunks are not gaps", "forall(lambda x: implies(0<=x and x<len(LK) and gap_at(g,LK[x].second), not in_chunk(matching,chunklen,start,LK[x].first,len(matching))), pat=LK[x])".replace("LK", LK))],
        modifies=["extracts"],
        ensures=[],
        loops=[["source_x_low>=-1 and source_x_low<=sbl-min_gap_size"], ["source_x_high>=sbh+min_gap_size and source_x_high<=len(sl)+1"]],
        opts={"at_call": {RX + "AddExtracts": [("source width", "source_x_high-source_x_low<=max_rule_span")]}}))
    return cs


PROPERTY = PROPERTY = Property("E01", [
    UnitSpec("extractor/rule_extractor_helper.cc", build, [H + "GetLinksSpans", H + "FindProjection", H + "FindFixPoint", H + "CheckAlignedTerminals", H + "CheckTightPhrases", H + "GetGaps", H + "GetSourceIndexes"]),
    UnitSpec("extractor/rule_extractor.cc", build_rx, [RX + "AddExtracts", RX + "AddNonterminalExtremities"]),
], driver=Driver("e01.cc", sources=EXT_SRC, secs=25, libs=["-lz"]), bounded=["extractor::RuleExtractor::ExtractAlignments (end to end)"])
