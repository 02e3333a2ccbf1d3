"""Shared specification vocabulary of the grammar extractor (positions inside a sentence pair)."""
from api import *

# span arrays computed from the links of one sentence pair: lo[i] = -1 when position i is unaligned
macro("span1", "lo hi blo",
      "len(lo)==len(hi) and forall(lambda i: implies(0<=i and i<len(lo) and lo[i]!=-1, 0<=lo[i] and lo[i]<hi[i] and hi[i]<=len(blo)"
      " and blo[lo[i]]!=-1 and blo[lo[i]]<=i"
      " and blo[hi[i]-1]!=-1 and blo[hi[i]-1]<=i), pat=(lo[i],hi[i]))"
      " and forall(lambda i: implies(0<=i and i<len(lo) and lo[i]==-1, hi[i]==-1), pat=hi[i])")
macro("spans", "sl sh tl th", "span1(sl,sh,tl) and span1(tl,th,sl)")
# every aligned position of [a,b) has all its partners inside [c,d)
macro("proj_in", "a b lo hi c d",
      "forall(lambda i: implies(a<=i and i<b and lo[i]!=-1, c<=lo[i] and hi[i]<=d), pat=lo[i])")
# the two spans are consistent with the alignment and the target side is anchored (non-empty, aligned extremities)
macro("consistent", "a b c d sl sh tl th",
      "0<=a and a<b and b<=len(sl) and 0<=c and c<d and d<=len(tl) and proj_in(a,b,sl,sh,c,d) and proj_in(c,d,tl,th,a,b)")
macro("anchored", "a b c d sl sh tl th", "tl[c]!=-1 and tl[d-1]!=-1 and a<=tl[c] and tl[c]<b and a<=tl[d-1] and tl[d-1]<b")
macro("da_ok", "d", "len(d.sentence_start)>=1 and forall(lambda i: implies(0<=i and i<len(d.sentence_start)-1, 0<=d.sentence_start[i] and d.sentence_start[i]<d.sentence_start[i+1] and d.sentence_start[i+1]<=2147483647), pat=d.sentence_start[i])")
macro("sid_ok", "d s", "0<=s and s<len(d.sentence_start)-1")
macro("slen", "d s", "d.sentence_start[s+1]-d.sentence_start[s]-1")
macro("links_ok", "l s t", "forall(lambda k: implies(0<=k and k<len(l), 0<=l[k].first and l[k].first<s and 0<=l[k].second and l[k].second<t), pat=l[k])")
# (lo,hi) summarises links l seen from side a (fields first/second)
macro("lowhigh_src", "l n lo hi",
      "forall(lambda k: implies(0<=k and k<n, lo[l[k].first]!=-1 and lo[l[k].first]<=l[k].second and l[k].second<hi[l[k].first]), pat=l[k])"
      " and forall(lambda i: implies(0<=i and i<len(lo) and lo[i]!=-1, 0<=lo[i] and exists(lambda k: 0<=k and k<n and l[k].first==i and l[k].second==lo[i])"
      " and exists(lambda k: 0<=k and k<n and l[k].first==i and l[k].second==hi[i]-1)), pat=lo[i])"
      " and forall(lambda i: implies(0<=i and i<len(lo) and lo[i]==-1, hi[i]==-1), pat=hi[i])")
macro("lowhigh_tgt", "l n lo hi",
      "forall(lambda k: implies(0<=k and k<n, lo[l[k].second]!=-1 and lo[l[k].second]<=l[k].first and l[k].first<hi[l[k].second]), pat=l[k])"
      " and forall(lambda i: implies(0<=i and i<len(lo) and lo[i]!=-1, 0<=lo[i] and exists(lambda k: 0<=k and k<n and l[k].second==i and l[k].first==lo[i])"
      " and exists(lambda k: 0<=k and k<n and l[k].second==i and l[k].first==hi[i]-1)), pat=lo[i])"
      " and forall(lambda i: implies(0<=i and i<len(lo) and lo[i]==-1, hi[i]==-1), pat=hi[i])")

# contract of the sentence accessors (bodies verified by property E04)
DA = "extractor::DataArray::"


def da_contracts(verify=False):
    return [
        Contract(DA + "GetSentenceLength", params=["s"], requires=["da_ok(this)", "sid_ok(this,s)"], ensures=["result==slen(this,s)", "result>=0"], verify=verify),
        Contract(DA + "GetSentenceId", params=["p"], requires=["0<=p", "p<len(this.sentence_id)"], ensures=["result==this.sentence_id[p]"], verify=verify),
        Contract(DA + "GetSentenceStart", params=["s"], requires=["0<=s", "s<len(this.sentence_start)"], ensures=["result==this.sentence_start[s]"], verify=verify),
    ]

# Phrase: word ids with nonterminals as negative labels; var_pos lists the nonterminal positions
macro("phrase_ok", "p", "len(p.symbols)<1000000 and forall(lambda k: implies(0<=k and k<len(p.var_pos), 0<=p.var_pos[k] and p.var_pos[k]<len(p.symbols) and p.symbols[p.var_pos[k]]<0), pat=p.var_pos[k])"
      " and forall(lambda k, l: implies(0<=k and k<l and l<len(p.var_pos), p.var_pos[k]<p.var_pos[l]), pat=(p.var_pos[k],p.var_pos[l]))")
macro("chunk", "p i", "ite(len(p.var_pos)==0, len(p.symbols), ite(i==0, p.var_pos[0], ite(i==len(p.var_pos), len(p.symbols)-p.var_pos[len(p.var_pos)-1]-1, p.var_pos[i]-p.var_pos[i-1]-1)))")
macro("in_chunk", "m c start s n", "exists(lambda i: 0<=i and i<n and m[i]-start<=s and s<m[i]-start+c[i])")
# what must hold of a phrase pair handed to target phrase generation: links of the sentence, source positions
# covered by terminals (idx), target gaps in source order, target span [lo,hi)
macro("gap_at", "g t", "exists(lambda k: 0<=k and k<len(g) and g[k].first<=t and t<g[k].second)")
macro("tspan_ok", "tl lo hi", "0<=lo and lo<hi and hi<=len(tl) and tl[lo]!=-1 and tl[hi-1]!=-1")
macro("tgaps_ok", "g tl lo hi", "forall(lambda k: implies(0<=k and k<len(g), lo<=g[k].first and g[k].first<g[k].second and g[k].second<=hi and tl[g[k].first]!=-1 and tl[g[k].second-1]!=-1), pat=g[k])")
macro("tgaps_disjoint", "g", "forall(lambda k, l: implies(0<=k and k<l and l<len(g), g[k].second<=g[l].first or g[l].second<=g[k].first), pat=(g[k],g[l]))")
macro("terminals_match", "links idx g lo hi", "forall(lambda x: implies(0<=x and x<len(links), (links[x].first in idx)==(lo<=links[x].second and links[x].second<hi and not gap_at(g,links[x].second))), pat=links[x])")
macro("gap_order", "links g", "forall(lambda k, l, x, y: implies(0<=k and k<l and l<len(g) and 0<=x and x<len(links) and 0<=y and y<len(links) and g[k].first<=links[x].second and links[x].second<g[k].second"
      " and g[l].first<=links[y].second and links[y].second<g[l].second, links[x].first<links[y].first), pat=(g[k],g[l],links[x],links[y]))")
PH = "extractor::Phrase::"


def phrase_contracts(verify=False):
    return [
        Contract(PH + "GetChunkLen", params=["i"], requires=["0<=i", "i<=len(this.var_pos)", "phrase_ok(this)"], ensures=["result==chunk(this,i)"], verify=verify),
        Contract(PH + "GetNumSymbols", requires=["phrase_ok(this)"], ensures=["result==len(this.symbols)"], verify=verify),
        Contract(PH + "Get", ensures=["result==this.symbols"], verify=verify),
        Contract(PH + "GetSymbol", params=["i"], requires=["0<=i", "i<len(this.symbols)"], ensures=["result==this.symbols[i]"], verify=verify),
        Contract(PH + "Arity", requires=["phrase_ok(this)"], ensures=["result==len(this.var_pos)"], verify=verify),
    ]


EXT_SRC = ["extractor/rule_extractor_helper.cc", "extractor/rule_extractor.cc", "extractor/target_phrase_extractor.cc", "extractor/phrase.cc", "extractor/phrase_builder.cc", "extractor/vocabulary.cc", "extractor/scorer.cc", "extractor/features/feature.cc", "extractor/rule.cc", "extractor/phrase_location.cc", "extractor/data_array.cc", "extractor/alignment.cc", "utils/filelib.cc", "utils/gzstream.cc"]
