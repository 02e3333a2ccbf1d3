from ext_common import *
H = "extractor::RuleExtractorHelper::"
TP = "extractor::TargetPhraseExtractor::"
PB = "extractor::PhraseBuilder::"
VO = "extractor::Vocabulary::"
VI = vec_sort(z3.IntSort())
# symbols taken by the first n chunks of a target phrase and the nonterminal after each of them; sp lists chunk starts and ends
toff = RecFn("toff", [VI, z3.IntSort()], z3.IntSort(), lambda sp, n: z3.If(n <= 0, 0, toff(sp, n - 1) + vat(sp, 2 * n - 1) - vat(sp, 2 * n - 2) + 1))
# number of nonterminals among the first n symbols
ntc = RecFn("ntc", [VI, z3.IntSort()], z3.IntSort(), lambda s, n: z3.If(n <= 0, 0, ntc(s, n - 1) + z3.If(vat(s, n - 1) < 0, 1, 0)))
macro("ple", "a b", "a.first<b.first or (a.first==b.first and a.second<=b.second)")
macro("perm_upto", "o n", "forall(lambda i: implies(0<=i and i<n, 0<=o[i] and o[i]<n), pat=o[i]) and forall(lambda i, j: implies(0<=i and i<j and j<n, o[i]!=o[j]), pat=(o[i],o[j]))")
macro("onto_upto", "g o n", "forall(lambda m: implies(0<=m and m<n, exists(lambda k: 0<=k and k<n and o[k]==m, pat=o[k])), pat=g[m])")
macro("sorted_upto", "g o n", "forall(lambda i, j: implies(0<=i and i<j and j<n, ple(g[o[i]],g[o[j]])), pat=(o[i],o[j]))")


def build_gap(u):
    return [Contract(H + "GetGapOrder", params=["gaps"], ensures=[("one entry per gap", "len(result)==len(gaps)"), ("a permutation of the gaps", "perm_upto(result,len(gaps))"), ("left to right", "sorted_upto(gaps,result,len(gaps))"), ("every gap listed", "onto_upto(gaps,result,len(gaps))")],
        loops=[["len(gap_order)==len(gaps)", "perm_upto(gap_order,_i)", "sorted_upto(gaps,gap_order,_i)", "onto_upto(gaps,gap_order,_i)"],
               ["len(gap_order)==len(gaps)", "j<=_o", "forall(lambda k: implies(0<=k and k<j, gap_order[k]==entry(gap_order)[k]), pat=gap_order[k])",
                "forall(lambda k: implies(j<k and k<=_o, gap_order[k]==entry(gap_order)[k-1] and not ple(gaps[gap_order[k]],gaps[_o])), pat=gap_order[k])",
                "forall(lambda k: implies(0<=k and k<j, gap_order[k]==entry(gap_order)[k]), pat=entry(gap_order)[k])", "forall(lambda k: implies(j<=k and k<_o, gap_order[k+1]==entry(gap_order)[k]), pat=entry(gap_order)[k])"]])]


def build_phrase(u):
    return phrase_contracts(True)


macro("voc_ok", "v", "len(v.words)<2147483647 and forall(v.words[0], lambda w: implies(w in v.dictionary, 0<=v.dictionary[w] and v.dictionary[w]<len(v.words) and v.words[v.dictionary[w]]==w), pat=v.dictionary.dom[w])"
      " and forall(lambda i: implies(0<=i and i<len(v.words), v.words[i] in v.dictionary and v.dictionary[v.words[i]]==i), pat=v.words[i])")


def build_voc(u):
    return [Contract(VO + "GetTerminalIndex", params=["word"], requires=["voc_ok(this)"], modifies=["this.dictionary", "this.words"],
        ensures=[("mapping stays one to one", "implies(len(old(this.words))<2147483646, voc_ok(this))"), ("id names the word", "0<=result and result<len(this.words) and this.words[result]==word"),
                 ("known ids never change", "len(this.words)>=len(old(this.words)) and forall(lambda i: implies(0<=i and i<len(old(this.words)), this.words[i]==old(this.words)[i]), pat=this.words[i])"),
                 ("only a new word gets a new id", "len(this.words)<=len(old(this.words))+1 and implies(word in old(this.dictionary), len(this.words)==len(old(this.words)))")]),
        Contract(VO + "GetNonterminalIndex", params=["n"], requires=["n>=-2147483647"], ensures=["result==-n"]),
        Contract(VO + "IsTerminal", params=["s"], ensures=["result==(s>=0)"]),
        Contract(VO + "GetTerminalValue", params=["s"], requires=["0<=s", "s<len(this.words)"], ensures=["result==this.words[s]"])]


def voc_assumed():
    return [Contract(VO + "GetNonterminalIndex", params=["n"], requires=["n>=-2147483647"], ensures=["result==-n"], verify=False),
            Contract(VO + "IsTerminal", params=["s"], ensures=["result==(s>=0)"], verify=False),
            Contract(VO + "GetTerminalValue", params=["s"], requires=[], ensures=[], modifies=[], verify=False),
            Contract(VO + "GetTerminalIndex", params=["word"], requires=[], ensures=["result==word_id(word)", "result>=0"], modifies=[], verify=False)]


macro("varpos_upto", "vp s n", "len(vp)==ntc(s,n) and forall(lambda k: implies(0<=k and k<len(vp), 0<=vp[k] and vp[k]<n and s[vp[k]]<0 and ntc(s,vp[k])==k), pat=vp[k])")


def build_pb(u):
    cs = voc_assumed() + phrase_contracts()
    cs.append(Contract(PB + "Build", params=["symbols"], requires=["this.vocabulary.nonnull", "len(symbols)<1000000"],
        ensures=[("symbols kept", "result.symbols==symbols"), ("nonterminals listed in order", "varpos_upto(result.var_pos,symbols,len(symbols))"), ("well formed", "phrase_ok(result)"),
                 ("arity is the number of nonterminals", "len(result.var_pos)==ntc(symbols,len(symbols))"), ("one word per terminal", "len(result.words)==len(symbols)-ntc(symbols,len(symbols))")],
        loops=[["phrase.symbols==symbols", "varpos_upto(phrase.var_pos,symbols,_i)", "0<=ntc(symbols,_i) and ntc(symbols,_i)<=_i", "len(phrase.words)==_i-ntc(symbols,_i)",
                "forall(lambda k, l: implies(0<=k and k<l and l<len(phrase.var_pos), phrase.var_pos[k]<phrase.var_pos[l]), pat=(phrase.var_pos[k],phrase.var_pos[l]))"]]))
    cs.append(Contract(PB + "Extend", params="phrase sx ex".split(), requires=["this.vocabulary.nonnull", "len(phrase.symbols)<900000", "forall(lambda k: implies(0<=k and k<len(phrase.symbols), phrase.symbols[k]>-1000000), pat=phrase.symbols[k])"],
        ensures=[("length", "len(result.symbols)==len(phrase.symbols)+ite(sx,1,0)+ite(ex,1,0)"), ("well formed", "phrase_ok(result)"),
                 ("outer nonterminals added", "implies(sx, result.symbols[0]==-1) and implies(ex, result.symbols[len(result.symbols)-1]<0)"),
                 ("words kept, nonterminals stay in place", "forall(lambda k: implies(ite(sx,1,0)<=k and k<ite(sx,1,0)+len(phrase.symbols), result.symbols[k]==ite(phrase.symbols[k-ite(sx,1,0)]>=0, phrase.symbols[k-ite(sx,1,0)], -1-ntc(result.symbols,k))), pat=result.symbols[k])"),
                 ("nonterminals numbered 1..n left to right", "forall(lambda k: implies(0<=k and k<len(result.symbols) and result.symbols[k]<0, result.symbols[k]==-1-ntc(result.symbols,k)), pat=result.symbols[k])"),
                 ("nonterminals gained", "len(result.var_pos)==ntc(phrase.symbols,len(phrase.symbols))+ite(sx,1,0)+ite(ex,1,0)")],
        loops=[["len(symbols)==len(phrase.symbols)+ite(sx,1,0)", "implies(sx, symbols[0]==-1)", "num_nonterminals==ntc(symbols,_i)",
                "num_nonterminals==ntc(phrase.symbols,_i-ite(sx,1,0))+ite(sx,1,0)", "0<=num_nonterminals and num_nonterminals<=_i",
                "forall(lambda k: implies(ite(sx,1,0)<=k and k<_i, symbols[k]==ite(phrase.symbols[k-ite(sx,1,0)]>=0, phrase.symbols[k-ite(sx,1,0)], -1-ntc(symbols,k))), pat=symbols[k])",
                "forall(lambda k: implies(_i<=k and k<len(symbols), symbols[k]==phrase.symbols[k-ite(sx,1,0)]), pat=symbols[k])",
                "forall(lambda k: implies(0<=k and k<_i and symbols[k]<0, symbols[k]==-1-ntc(symbols,k)), pat=symbols[k])"]], opts={"uses": ["ntc_frame"]}))
    return cs



# subpatterns 0..n-1 chosen inside their ranges, left to right
macro("chosen", "sp r n", "forall(lambda k: implies(0<=k and k<n, r[k].first<=sp[k] and sp[k]<=r[k].second), pat=sp[k]) and forall(lambda k, l: implies(0<=k and k<l and l<n, sp[k]<=sp[l]), pat=(sp[k],sp[l]))")
# source positions are known for every link that starts in a possible chunk
macro("covered", "links idx r", "forall(lambda x, k: implies(0<=x and x<len(links) and 0<=k and k%2==0 and k+1<len(r) and r[k].first<=links[x].second and links[x].second<r[k+1].second, links[x].first in idx), pat=(links[x],r[k]))")
# position in the phrase of the target word t, -1 when it lies in no chunk
tpos = RecFn("tpos", [VI, z3.IntSort(), z3.IntSort()], z3.IntSort(), lambda sp, n, t: z3.If(n <= 0, -1, z3.If(z3.And(vat(sp, 2 * n - 2) <= t, t < vat(sp, 2 * n - 1)), toff(sp, n - 1) + t - vat(sp, 2 * n - 2), tpos(sp, n - 1, t))))


@specfn("word_id")
def _word_id(env, w):
    return z3.Function("word_id", w.sort(), z3.IntSort())(w)


@specfn("word_at")
def _word_at(env, d, i, like):
    return z3.Function("word_at", d.sort(), z3.IntSort(), like.sort())(d, lift(i))


def count_fns(u):
    """cnt: how many ways remain to pick chunk boundaries i, i+1, ... from their ranges, keeping the width limit"""
    PV = vec_sort(u.sort("std::pair<int, int>"))
    I = z3.IntSort()
    fi = lambda r, i: acc(vat(r, i), "first")
    se = lambda r, i: acc(vat(r, i), "second")
    mx = lambda a, b: z3.If(a >= b, a, b)
    D = {}
    D["cnt"] = RecFn("cnt", [PV, I, I, I, I, I], I, lambda r, n, w, i, f, p: z3.If(i >= n, z3.If(p - f <= w, 1, 0), D["suma"](r, n, w, i, f, p, se(r, i) + 1)))
    D["suma"] = RecFn("suma", [PV, I, I, I, I, I, I], I, lambda r, n, w, i, f, p, a: z3.If(a <= z3.If(i > 0, mx(fi(r, i), p), fi(r, i)), 0, D["suma"](r, n, w, i, f, p, a - 1) + D["sumb"](r, n, w, i, f, a - 1, se(r, i + 1) + 1)))
    D["sumb"] = RecFn("sumb", [PV, I, I, I, I, I, I], I, lambda r, n, w, i, f, a, b: z3.If(b <= mx(a, fi(r, i + 1)), 0, D["sumb"](r, n, w, i, f, a, b - 1) + D["cnt"](r, n, w, i + 2, z3.If(i == 0, a, f), b - 1)))


def build_tp(u):
    count_fns(u)
    cs = da_contracts() + voc_assumed() + build_gap(u)
    for c in cs:
        c.verify = False
    cs.append(Contract("extractor::Alignment::GetLinks", params=["s"], requires=["0<=s", "s<len(this.alignments)"], ensures=["result==this.alignments[s]"], verify=False))
    cs.append(Contract(DA + "GetWordAtIndex", params=["i"], requires=["0<=i"], ensures=["word_id(result)==wid(i)"], verify=False))
    cs.append(Contract(PB + "Build", params=["symbols"], requires=[], ensures=["result.symbols==symbols"], modifies=[], verify=False))
    LK = "this.alignment.val.alignments[sid]"
    T = "slen(target_data_array.val,sid)"
    world = ["target_data_array.nonnull", "this.alignment.nonnull", "phrase_builder.nonnull", "vocabulary.nonnull", "helper.nonnull", "da_ok(target_data_array.val)", "sid_ok(target_data_array.val,sid)",
             "sid<len(this.alignment.val.alignments)", "0<=max_rule_span", "max_rule_span<1000000"]
    S = "target_data_array.val.sentence_start[sid]"
    inrange = "forall(lambda k: implies(0<=k and k<len(r), 0<=r[k].first and r[k].second<=%s), pat=r[k])" % T
    base = "index==len(r)"
    wide = "sp[len(sp)-1]-sp[0]>max_rule_span"
    new = "target_phrases[len(target_phrases)-1]"
    symw = ("forall(lambda i, p: implies(0<=i and 2*i+1<len(sp) and i<N and sp[2*i]<=p-ST and p-ST<sp[2*i+1], SY[toff(sp,i)+p-ST-sp[2*i]]==wid(p)), pat=(toff(sp,i),wid(p)))")
    symn = ("forall(lambda i: implies(0<=i and i<len(order) and i<N, SY[toff(sp,i+1)-1]==-order[i]-1), pat=toff(sp,i+1))")
    ix = "forall(lambda j: (j in target_indexes)==(tpos(sp,N,j)>=0) and implies(j in target_indexes, target_indexes[j]==tpos(sp,N,j)), pat=[target_indexes.dom[j],target_indexes.val[j]])"
    ix1 = "forall(lambda j: (j in target_indexes)==((sp[2*_o]<=j and j<_i) or tpos(sp,_o,j)>=0) and implies(j in target_indexes, target_indexes[j]==ite(sp[2*_o]<=j and j<_i,toff(sp,_o)+j-sp[2*_o],tpos(sp,_o,j))), pat=[target_indexes.dom[j],target_indexes.val[j]])"
    ixd = ("forall(lambda j: implies(j in target_indexes, exists(lambda k: 0<=k and k%2==0 and k<2*N and sp[k]<=j and j<sp[k+1])), pat=target_indexes.dom[j])")
    bnd = "0<=toff(sp,N) and forall(lambda i: implies(0<=i and i<N, 0<=toff(sp,i) and toff(sp,i)+sp[2*i+1]-sp[2*i]<=len(symbols)), pat=toff(sp,i)) and forall(lambda i: implies(0<=i and i<len(order) and i<N, toff(sp,i+1)<=len(symbols)), pat=toff(sp,i+1))"
    ord_ok = "forall(lambda i: implies(0<=i and i<len(order), 0<=order[i] and order[i]<1000000), pat=order[i])"
    cs.append(Contract(TP + "GeneratePhrases", params="target_phrases r index sp order lo hi idx sid".split(),
        requires=world + ["len(sp)==len(r)", "len(r)==2*len(order)+2", "len(r)<1000000", "0<=index and index<=len(r) and index%2==0", inrange, ord_ok, "links_ok2(%s,%s)" % (LK, T),
                          ("chunks picked inside their ranges from left to right", "chosen(sp,r,index)"), ("links of every possible chunk have a source position", "covered(%s,idx,r)" % LK)],
        modifies=["target_phrases", "sp"],
        ensures=[("earlier phrases kept", "len(target_phrases)>=len(old(target_phrases)) and forall(lambda k: implies(0<=k and k<len(old(target_phrases)), target_phrases[k]==old(target_phrases)[k]), pat=target_phrases[k])"),
                 ("choice so far kept", "len(sp)==len(old(sp)) and forall(lambda k: implies(0<=k and k<index, sp[k]==old(sp)[k]), pat=sp[k])"),
                 ("too wide choices are dropped, others give one phrase", "implies(%s, len(target_phrases)==len(old(target_phrases))+ite(%s,0,1))" % (base, wide)),
                 ("every admissible choice is enumerated once", "len(target_phrases)==len(old(target_phrases))+cnt(r,len(r),max_rule_span,index,old(sp)[0],ite(index>0,old(sp)[index-1],0))"),
                 ("phrase length", "implies(%s and not (%s), len(%s.first.symbols)==toff(sp,len(order)+1)-1)" % (base, wide, new)),
                 ("words of the chunks in order", "implies(%s and not (%s), %s)" % (base, wide, symw.replace("SY", new + ".first.symbols").replace("ST", S).replace("N", "len(order)+1"))),
                 ("nonterminals labelled by source order", "implies(%s and not (%s), %s)" % (base, wide, symn.replace("SY", new + ".first.symbols").replace("N", "len(order)+1"))),
                 ("alignment entries are links between terminals", "implies(%s and not (%s), forall(lambda k: implies(0<=k and k<len(P), exists(lambda x: 0<=x and x<len(LK) and LK[x].first in idx and P[k].first==idx[LK[x].first] and tpos(sp,len(order)+1,LK[x].second)>=0"
                  " and P[k].second==tpos(sp,len(order)+1,LK[x].second))), pat=P[k]))".replace("P[", new + ".second[").replace("len(P)", "len(%s.second)" % new).replace("LK", LK) % (base, wide)),
                 ("every link between terminals is kept", "implies(%s and not (%s), forall(lambda x: implies(0<=x and x<len(LK) and tpos(sp,len(order)+1,LK[x].second)>=0, exists(lambda k: 0<=k and k<len(P) and P[k].first==idx[LK[x].first] and P[k].second==tpos(sp,len(order)+1,LK[x].second))), pat=LK[x]))"
                  .replace("P[", new + ".second[").replace("len(P)", "len(%s.second)" % new).replace("LK", LK) % (base, wide))],
        loops=[["target_sent_start==%s" % S, "2*_i<=len(sp)", "len(symbols)==toff(sp,_i)-ite(2*_i>=len(sp),1,0)", bnd.replace("N", "_i"), symw.replace("SY", "symbols").replace("ST", "target_sent_start").replace("N", "_i"),
                symn.replace("SY", "symbols").replace("N", "_i"), ix.replace("N", "_i"), ixd.replace("N", "_i")],
               ["0<=sp[2*_o] and sp[2*_o+1]<=%s" % T, "len(symbols)==toff(sp,_o)+_i-sp[2*_o]", "sp[2*_o]<=_i and _i<=sp[2*_o+1]", bnd.replace("N", "_o"), symw.replace("SY", "symbols").replace("ST", "target_sent_start").replace("N", "_o"),
                symn.replace("SY", "symbols").replace("N", "_o"), ix1, ixd.replace("N", "_o").replace("exists(", "(sp[2*_o]<=j and j<_i) or exists("),
                "forall(lambda p: implies(sp[2*_o]<=p-target_sent_start and p-target_sent_start<_i, symbols[toff(sp,_o)+p-target_sent_start-sp[2*_o]]==wid(p)), pat=wid(p))"],
               ["dom(target_indexes)==entry(dom(target_indexes)) and val(target_indexes)==entry(val(target_indexes))", "forall(lambda k: implies(0<=k and k<len(alignment), exists(lambda x: 0<=x and x<_i and links[x].first in idx and links[x].second in target_indexes and alignment[k].first==idx[links[x].first] and alignment[k].second==target_indexes[links[x].second])), pat=alignment[k])",
                "forall(lambda x: implies(0<=x and x<_i and links[x].second in target_indexes, exists(lambda k: 0<=k and k<len(alignment) and alignment[k].first==idx[links[x].first] and alignment[k].second==target_indexes[links[x].second])), pat=links[x])"],
               ["len(sp)==len(entry(sp))", "sp[index]<=max(r[index].second+1,max(r[index].first,ite(index>0,sp[index-1],r[index].first)))", "len(target_phrases)==len(entry(target_phrases))+suma(r,len(r),max_rule_span,index,old(sp)[0],ite(index>0,old(sp)[index-1],0),sp[index])", "forall(lambda k: implies(0<=k and k<index, sp[k]==entry(sp)[k]), pat=sp[k])", "sp[index]>=r[index].first and implies(index>0, sp[index]>=sp[index-1])",
                "len(target_phrases)>=len(entry(target_phrases)) and forall(lambda k: implies(0<=k and k<len(entry(target_phrases)), target_phrases[k]==entry(target_phrases)[k]), pat=target_phrases[k])"],
               ["len(sp)==len(entry(sp))", "sp[index+1]<=max(r[index+1].second+1,max(sp[index],r[index+1].first))", "len(target_phrases)==len(entry(target_phrases))+sumb(r,len(r),max_rule_span,index,old(sp)[0],sp[index],sp[index+1])", "forall(lambda k: implies(0<=k and k<=index, sp[k]==entry(sp)[k]), pat=sp[k])", "sp[index+1]>=r[index+1].first and sp[index+1]>=sp[index]",
                "len(target_phrases)>=len(entry(target_phrases)) and forall(lambda k: implies(0<=k and k<len(entry(target_phrases)), target_phrases[k]==entry(target_phrases)[k]), pat=target_phrases[k])"]]))
    un = "forall(lambda p: implies(%s<=p and p<%s, target_low[p]==-1), pat=target_low[p])"
    GK = "target_gaps[target_gap_order[k]]"
    gapx = ("forall(lambda k: implies(0<=k and k<N, target_x_low<=gaps[k].first and gaps[k].first<=GK.first and GK.second<=gaps[k].second and gaps[k].second<=target_x_high and implies(require_tight_phrases, gaps[k].first==GK.first and gaps[k].second==GK.second)), pat=gaps[k])"
            ).replace("GK", GK)
    gapu = ("forall(lambda k, p: implies(0<=k and k<N and ((gaps[k].first<=p and p<GK.first) or (GK.second<=p and p<gaps[k].second)), target_low[p]==-1), pat=(gaps[k],target_low[p]))").replace("GK", GK)
    TX = ["target_x_low>=0 and target_x_low<=target_phrase_low and target_phrase_high<=target_x_high and target_x_high<=%s" % T,
          un % ("target_x_low", "target_phrase_low"), un % ("target_phrase_high", "target_x_high"), "implies(require_tight_phrases, target_x_low==target_phrase_low and target_x_high==target_phrase_high)",
          "target_phrase_high-target_x_low<=max(max_rule_span,target_phrase_high-target_phrase_low) and target_x_high-target_phrase_low<=max(max_rule_span,target_phrase_high-target_phrase_low)"]
    cs.append(Contract(TP + "ExtractPhrases", params="target_gaps target_low target_phrase_low target_phrase_high idx sid".split(),
        requires=world + ["len(target_low)==%s" % T, "tspan_ok(target_low,target_phrase_low,target_phrase_high)", "tgaps_ok(target_gaps,target_low,target_phrase_low,target_phrase_high)", "tgaps_disjoint(target_gaps)", "len(target_gaps)<400000",
            "terminals_match(%s,idx,target_gaps,target_phrase_low,target_phrase_high)" % LK, "links_ok2(%s,%s)" % (LK, T), "forall(lambda x: implies(0<=x and x<len(LK), target_low[LK[x].second]!=-1), pat=LK[x])".replace("LK", LK)],
        modifies=[], ensures=[],
        loops=[["target_x_low>=0 and target_x_low<=target_phrase_low", un % ("target_x_low", "target_phrase_low"), "target_phrase_high-target_x_low<=max(max_rule_span,target_phrase_high-target_phrase_low)"],
               ["target_x_high>=target_phrase_high and target_x_high<=%s" % T, un % ("target_phrase_high", "target_x_high"), "target_x_high-target_phrase_low<=max(max_rule_span,target_phrase_high-target_phrase_low)"],
               ["len(gaps)==len(target_gaps)", gapx.replace("N", "_i"), gapu.replace("N", "_i"), "require_tight_phrases or forall(lambda k: implies(0<=k and k<_i, (gaps[k].first<=target_x_low or target_low[gaps[k].first-1]!=-1) and (gaps[k].second>=target_x_high or target_low[gaps[k].second]!=-1)), pat=gaps[k])"],
               ["len(gaps)==len(target_gaps)", "forall(lambda k: implies(0<=k and k<len(gaps) and k!=_o, gaps[k]==entry(gaps)[k]), pat=gaps[k])", "gaps[_o].second==entry(gaps)[_o].second", "target_x_low<=gaps[_o].first and gaps[_o].first<=entry(gaps)[_o].first",
                un % ("gaps[_o].first", "entry(gaps)[_o].first")],
               ["len(gaps)==len(target_gaps)", "forall(lambda k: implies(0<=k and k<len(gaps) and k!=_o, gaps[k]==entry(gaps)[k]), pat=gaps[k])", "gaps[_o].first==entry(gaps)[_o].first", "target_x_high>=gaps[_o].second and gaps[_o].second>=entry(gaps)[_o].second",
                un % ("entry(gaps)[_o].second", "gaps[_o].second")],
               ["len(ranges)==2*len(gaps)+2", "ranges[0].first==target_x_low and ranges[0].second==target_phrase_low", "ranges[len(ranges)-1].first==target_phrase_high and ranges[len(ranges)-1].second==target_x_high",
                "forall(lambda k: implies(1<=k and k<=2*_i and k%2==1, ranges[k].first==gaps[(k-1)/2].first and ranges[k].second==target_gaps[target_gap_order[(k-1)/2]].first), pat=ranges[k])",
                "forall(lambda k: implies(1<=k and k<=2*_i and k%2==0, ranges[k].first==target_gaps[target_gap_order[k/2-1]].second and ranges[k].second==gaps[k/2-1].second), pat=ranges[k])"]],
        opts={"at_call": {TP + "GeneratePhrases": [
            ("target spans inside the sentence", TX[0]),
            ("loose target span cannot grow", "require_tight_phrases or ((target_x_low==0 or target_phrase_high-target_x_low>=max_rule_span or target_low[target_x_low-1]!=-1) and (target_x_high>=%s or target_x_high-target_phrase_low>=max_rule_span or target_low[target_x_high]!=-1))" % T),
            ("loose gaps cannot grow", "require_tight_phrases or forall(lambda k: implies(0<=k and k<len(gaps), (gaps[k].first<=target_x_low or target_low[gaps[k].first-1]!=-1) and (gaps[k].second>=target_x_high or target_low[gaps[k].second]!=-1)), pat=gaps[k])"),
            ("chunk boundaries range over the loose edges", "forall(lambda k: implies(0<=k and k<len(gaps), ranges[2*k+1].first==gaps[k].first and ranges[2*k+2].second==gaps[k].second), pat=gaps[k]) and ranges[0].first==target_x_low and ranges[len(ranges)-1].second==target_x_high"),
            ("enumeration starts with nothing found yet", "len(target_phrases)==0"),
            ("loose edges are unaligned", "forall(lambda k, p: implies(0<=k and k<len(ranges) and ranges[k].first<=p and p<ranges[k].second, target_low[p]==-1), pat=(ranges[k],target_low[p]))"),
            ("tight phrases are not extended", "implies(require_tight_phrases, forall(lambda k: implies(0<=k and k<len(ranges), ranges[k].first==ranges[k].second), pat=ranges[k]))"),
            ("loose width", TX[4]), ("outer edges", "ranges[0].second==target_phrase_low and ranges[len(ranges)-1].first==target_phrase_high"),
            ("each gap lies between its neighbouring chunks", "forall(lambda k: implies(1<=k and k<len(ranges)-1 and k%2==1, ranges[k].second==target_gaps[target_gap_order[(k-1)/2]].first), pat=ranges[k])"),
            ("each chunk starts after the gap before it", "forall(lambda k: implies(1<=k and k<len(ranges)-1 and k%2==0, ranges[k].first==target_gaps[target_gap_order[k/2-1]].second), pat=ranges[k])"),
            ("gaps from left to right", "forall(lambda p, q: implies(0<=p and p<q and q<len(target_gap_order), target_gaps[target_gap_order[p]].second<=target_gaps[target_gap_order[q]].first), pat=(target_gap_order[p],target_gap_order[q]))"),
            ("chunks avoid gaps", "forall(lambda k, p: implies(0<=k and k<len(ranges) and k%2==0 and 0<=p and p<len(target_gap_order), ite(p<k/2, target_gaps[target_gap_order[p]].second<=ranges[k].first, ranges[k+1].second<=target_gaps[target_gap_order[p]].first)), pat=(ranges[k],target_gap_order[p]))"),
            ("no word of a chunk lies in a gap", "forall(lambda k, t: implies(0<=k and k<len(ranges) and k%2==0 and ranges[k].first<=t and t<ranges[k+1].second, not gap_at(target_gaps,t)), pat=(ranges[k],target_low[t]))"),
            ("aligned words of a chunk lie in the phrase", "forall(lambda k, t: implies(0<=k and k<len(ranges) and k%2==0 and ranges[k].first<=t and t<ranges[k+1].second and target_low[t]!=-1, target_phrase_low<=t and t<target_phrase_high), pat=(ranges[k],target_low[t]))")]}}))
    return cs


macro("links_ok2", "l t", "forall(lambda k: implies(0<=k and k<len(l), 0<=l[k].second and l[k].second<t), pat=l[k])")
wid = z3.Function("wid", z3.IntSort(), z3.IntSort())
FUNCS["wid"] = lambda env, i: wid(lift(i))


PROPERTY = Property("E02", [
    UnitSpec("extractor/rule_extractor_helper.cc", build_gap, [H + "GetGapOrder"]),
    UnitSpec("extractor/phrase.cc", build_phrase, [PH + "GetChunkLen", PH + "GetNumSymbols", PH + "Arity", PH + "Get", PH + "GetSymbol"]),
    UnitSpec("extractor/vocabulary.cc", build_voc, [VO + x for x in "GetTerminalIndex GetNonterminalIndex IsTerminal GetTerminalValue".split()], opts={"opaque": {"std::basic_string", "std::__cxx11::basic_string"}}),
    UnitSpec("extractor/phrase_builder.cc", build_pb, [PB + "Build", PB + "Extend"], opts={"opaque": {"std::basic_string", "std::__cxx11::basic_string"}},
             lemmas=lambda u: [Lemma("ntc_frame", [("a", VI), ("b", VI), ("n", z3.IntSort())], ["0<=n", "forall(lambda k: implies(0<=k and k<n, (a[k]<0)==(b[k]<0)))"], ["ntc(a,n)==ntc(b,n)"], induct="n", pats=["ntc(a,n),ntc(b,n)"])]),
    UnitSpec("extractor/target_phrase_extractor.cc", build_tp, [TP + "GeneratePhrases", TP + "ExtractPhrases"], opts={"opaque": {"std::basic_string", "std::__cxx11::basic_string"}}),
], driver=Driver("e02.cc", sources=EXT_SRC, secs=20, libs=["-lz"]))
