from api import *
I_, R_ = z3.IntSort(), z3.RealSort()
VI = vec_sort(I_)
W = z3.Function("edge_weight", I_, R_)
T = z3.Function("traversal", I_, VI, I_)
FUNCS["w"] = lambda env, e: W(lift(e))
FUNCS["tr"] = lambda env, e, r: T(lift(e), lift(r))
# the objects the pointers of a vector point to, as a sequence
GATHER = z3.Function("gather", z3.ArraySort(I_, VI), vec_sort(ptr_sort()), VI)
FUNCS["gather"] = lambda env, h, a: GATHER(lift(h), lift(a))
HEAPNAMES["Str"] = "std::vector<int>"


def tail(h, e, k):
    return vat(acc(vat(acc(h, "edges_"), e), "tail_nodes_"), k)


def inedge(h, i, j):
    return vat(acc(vat(acc(h, "nodes_"), i), "in_edges_"), j)


def nin(h, i):
    return vlen(acc(vat(acc(h, "nodes_"), i), "in_edges_"))


def ntail(h, e):
    return vlen(acc(vat(acc(h, "edges_"), e), "tail_nodes_"))


macro("hg_ok", "h", "len(h.nodes_)<1000000000 and len(h.edges_)<1000000000"
      " and forall(lambda i, j: implies(0<=i and i<len(h.nodes_) and 0<=j and j<len(h.nodes_[i].in_edges_), 0<=h.nodes_[i].in_edges_[j] and h.nodes_[i].in_edges_[j]<len(h.edges_)), pat=h.nodes_[i].in_edges_[j])"
      " and forall(lambda i, j, k: implies(0<=i and i<len(h.nodes_) and 0<=j and j<len(h.nodes_[i].in_edges_) and 0<=k and k<len(h.edges_[h.nodes_[i].in_edges_[j]].tail_nodes_), 0<=h.edges_[h.nodes_[i].in_edges_[j]].tail_nodes_[k] and h.edges_[h.nodes_[i].in_edges_[j]].tail_nodes_[k]<i), pat=h.edges_[h.nodes_[i].in_edges_[j]].tail_nodes_[k])"
      " and forall(lambda e: implies(0<=e and e<len(h.edges_), h.edges_[e].id_==e and len(h.edges_[e].tail_nodes_)<1000), pat=h.edges_[e])")


def build(u):
    HG = u.sort("Hypergraph")
    # best weight of the derivations of a node (weights are not negative): the largest product over its incoming edges
    prod = RecFn("bprod", [HG, I_, I_], R_, lambda h, e, k: z3.If(k <= 0, W(e), prod(h, e, k - 1) * best(h, tail(h, e, k - 1))))
    bestj = RecFn("bestj", [HG, I_, I_], R_, lambda h, i, j: z3.If(j <= 1, prod(h, inedge(h, i, 0), ntail(h, inedge(h, i, 0))), z3.If(bestj(h, i, j - 1) < prod(h, inedge(h, i, j - 1), ntail(h, inedge(h, i, j - 1))), prod(h, inedge(h, i, j - 1), ntail(h, inedge(h, i, j - 1))), bestj(h, i, j - 1))))
    best = RecFn("best", [HG, I_], R_, lambda h, i: z3.If(nin(h, i) == 0, z3.RealVal(1), bestj(h, i, nin(h, i))))
    # opt(h, v, r): r is the traversal's result for some best derivation of node v (least relation closed under the two axioms below)
    OPT = z3.Function("opt", HG, I_, I_, z3.BoolSort())
    FUNCS["opt"] = lambda env, h, v, r: OPT(lift(h), lift(v), lift(r))
    cs = [Contract("EdgeW::operator()", params=["e"], ensures=["result==w(e.id_)"], verify=False),
          Contract("EdgeT::operator()", params="e ants out".split(), modifies=["out"], requires=["forall(lambda k: implies(0<=k and k<len(ants), ants[k].blk!=0 and 0<=ants[k].off and ants[k].off<len(HEAP_Int[ants[k].blk])), pat=ants[k])"],
                   ensures=["out==tr(e.id_,gather(old(HEAP_Int),ants))", "len(gather(old(HEAP_Int),ants))==len(ants)", "forall(lambda k: implies(0<=k and k<len(ants), gather(old(HEAP_Int),ants)[k]==old(HEAP_Int)[ants[k].blk][ants[k].off]), pat=gather(old(HEAP_Int),ants)[k])"], opts={"objptr": ["out"]}, verify=False)]
    cs.append(Contract("Viterbi", params="hg result_out traverse weight".split(), requires=["hg_ok(hg)"], modifies=["result_out"],
        ensures=[("weight of the best derivation", "result==ite(len(hg.nodes_)==0, real(0), best(hg,len(hg.nodes_)-1))"),
                 ("traversal of a best derivation", "implies(len(hg.nodes_)>0, opt(hg,len(hg.nodes_)-1,result_out))")],
        loops=[["len(vit_weight)==len(hg.nodes_)", "len(vit_result)==len(hg.nodes_)", "forall(lambda k: implies(0<=k and k<i, vit_weight[k]==best(hg,k)), pat=vit_weight[k])", "forall(lambda k: implies(0<=k and k<i, opt(hg,k,vit_result[k])), pat=vit_result[k])", "forall(lambda k: implies(i<=k and k<len(vit_result), vit_result[k]==0), pat=vit_result[k])"],
               ["len(vit_weight)==len(hg.nodes_)", "len(vit_result)==len(hg.nodes_)", "forall(lambda k: implies(0<=k and k<i, vit_weight[k]==best(hg,k)), pat=vit_weight[k])", "forall(lambda k: implies(0<=k and k<i, opt(hg,k,vit_result[k])), pat=vit_result[k])", "vit_result[i]==0", "forall(lambda k: implies(i<k and k<len(vit_result), vit_result[k]==0), pat=vit_result[k])", "implies(j>0, vit_weight[i]==bestj(hg,i,j))", "iff(j==0, null(edge_best))",
                "implies(j>0, exists(lambda b: 0<=b and b<j and edge_best.idx==hg.nodes_[i].in_edges_[b], pat=hg.nodes_[i].in_edges_[b]) and vit_weight[i]==bprod(hg,edge_best.idx,len(hg.edges_[edge_best.idx].tail_nodes_)))"],
               ["score==bprod(hg,hg.nodes_[i].in_edges_[j],k)"],
               ["len(antsb)==len(hg.edges_[edge_best.idx].tail_nodes_)", "forall(lambda q: implies(0<=q and q<k, antsb[q].blk==BLK_vit_result and antsb[q].off==hg.edges_[edge_best.idx].tail_nodes_[q]), pat=antsb[q])"]],
        opts={"objptr": ["result_out"], "uses": ["opt_leaf", "opt_edge"]}))
    # a rule's right-hand side with antecedent strings substituted: where symbol n starts in the result, and what stands there
    EPOS = RecFn("epos", [VI, z3.ArraySort(I_, vec_sort(VI)), vec_sort(ptr_sort()), I_], I_, lambda e, H, v, n: z3.If(n <= 0, z3.IntVal(0), EPOS(e, H, v, n - 1) + z3.If(vat(e, n - 1) < 1, vlen(obj(H, vat(v, -vat(e, n - 1)))), z3.IntVal(1))))
    VCNT = RecFn("vcnt", [VI, I_], I_, lambda e, n: z3.If(n <= 0, z3.IntVal(0), VCNT(e, n - 1) + z3.If(vat(e, n - 1) < 1, z3.IntVal(1), z3.IntVal(0))))
    FPOS = RecFn("fpos", [VI, z3.ArraySort(I_, vec_sort(VI)), vec_sort(ptr_sort()), I_], I_, lambda e, H, v, n: z3.If(n <= 0, z3.IntVal(0), FPOS(e, H, v, n - 1) + z3.If(vat(e, n - 1) < 1, vlen(obj(H, vat(v, VCNT(e, n - 1)))), z3.IntVal(1))))
    FUNCS["obj"] = lambda env, h, p: obj(lift(h), lift(p))
    valid = "forall(lambda k: implies(0<=k and k<len(vv), vv[k].blk!=0 and 0<=vv[k].off and vv[k].off<len(HEAP_Str[vv[k].blk])), pat=vv[k])"
    small = "epos(this.e_,HEAP_Str,vv,len(this.e_))<1000000000"
    word = "forall(lambda n: implies(0<=n and n<%s and this.{f}[n]>=1, out[{pos}(this.{f},HEAP_Str,vv,n)]==this.{f}[n]), pat=this.{f}[n])"
    gap = "forall(lambda n, q: implies(0<=n and n<%s and this.{f}[n]<1 and 0<=q and q<len(obj(HEAP_Str,vv[{ix}])), out[{pos}(this.{f},HEAP_Str,vv,n)+q]==obj(HEAP_Str,vv[{ix}])[q]), pat=(this.{f}[n],obj(HEAP_Str,vv[{ix}])[q]))"
    for fn, f, pos, ix in (("ESubstitute", "e_", "epos", "-this.e_[n]"), ("FSubstitute", "f_", "fpos", "vcnt(this.f_,n)")):
        W_, G_ = word.format(f=f, pos=pos), gap.format(f=f, pos=pos, ix=ix)
        mono = "forall(lambda n: implies(0<=n and n<%s, 0<={pos}(this.{f},HEAP_Str,vv,n) and {pos}(this.{f},HEAP_Str,vv,n)+ite(this.{f}[n]<1, len(obj(HEAP_Str,vv[{ix}])), 1)<=len(out)), pat=this.{f}[n])".format(f=f, pos=pos, ix=ix)
        req = [valid, "vcnt(this.%s,len(this.%s))==len(vv)" % (f, f), "len(this.%s)<1000" % f]
        if f == "e_":
            req.append("forall(lambda n: implies(0<=n and n<len(this.e_) and this.e_[n]<1, -this.e_[n]<len(vv)), pat=this.e_[n])")
        cs.append(Contract("TRule::" + fn, params="vv out".split(), requires=req, modifies=["out"],
            ensures=[("length", "len(out)==%s(this.%s,HEAP_Str,vv,len(this.%s))" % (pos, f, f)), ("words of the rule", W_ % ("len(this.%s)" % f)), ("antecedents in place of variables", G_ % ("len(this.%s)" % f))],
            loops=[["vc==vcnt(this.%s,_i)" % f, "implies(_i<len(this.{0}), vcnt(this.{0},_i+1)<=vcnt(this.{0},len(this.{0})))".format(f), "len(out)==%s(this.%s,HEAP_Str,vv,_i)" % (pos, f), mono % "_i", W_ % "_i", G_ % "_i"]],
            opts={"objptr": ["out"], "uses": ["vcnt_range", "vcnt_mono"]}))
    SUMH = RecFn("suma", [z3.ArraySort(I_, VI), vec_sort(ptr_sort()), I_], I_, lambda H, v, n: z3.If(n <= 0, z3.IntVal(0), SUMH(H, v, n - 1) + obj(H, vat(v, n - 1))))
    vint = ["forall(lambda k: implies(0<=k and k<len(ants), ants[k].blk!=0 and 0<=ants[k].off and ants[k].off<len(HEAP_Int[ants[k].blk]) and 0<=obj(HEAP_Int,ants[k]) and obj(HEAP_Int,ants[k])<100000), pat=ants[k])", "len(ants)<1000"]
    cs.append(Contract("PathLengthTraversal::operator()", params="edge ants out".split(), requires=vint, modifies=["out"], ensures=[("one edge more than the antecedents together", "out==1+suma(HEAP_Int,ants,len(ants))")], loops=[["out==1+suma(HEAP_Int,ants,i)", "out<=1+100000*i"]], opts={"objptr": ["out"]}))
    cs.append(Contract("ELengthTraversal::operator()", params="edge ants out".split(), requires=vint + ["edge.rule_.nonnull", "len(edge.rule_.val.e_)<1000"], modifies=["out"], ensures=[("words of the rule plus those of the antecedents", "out==len(edge.rule_.val.e_)-edge.rule_.val.arity_+suma(HEAP_Int,ants,len(ants))")], loops=[["out==len(edge.rule_.val.e_)-edge.rule_.val.arity_+suma(HEAP_Int,ants,i)", "out<=2000+100000*i", "out>=-1000"]], opts={"objptr": ["out"]}))
    return cs


def obj(H, p):
    """what pointer p points to in heap H"""
    return vat(z3.Select(H, acc(p, "blk")), acc(p, "off"))


def lemmas(u):
    HG = u.sort("Hypergraph")
    return [Lemma("opt_leaf", [("h", HG), ("i", I_)], ["0<=i and i<len(h.nodes_) and len(h.nodes_[i].in_edges_)==0"], ["opt(h,i,0)"], pats=["opt(h,i,0)"], assume="definition of the traversal of a best derivation: a node without incoming edges yields the default result"),
            Lemma("opt_edge", [("h", HG), ("i", I_), ("j", I_), ("e", I_), ("r", VI)], ["0<=i and i<len(h.nodes_) and 0<=j and j<len(h.nodes_[i].in_edges_) and e==h.nodes_[i].in_edges_[j]", "len(r)==len(h.edges_[e].tail_nodes_)", "bprod(h,e,len(h.edges_[e].tail_nodes_))==best(h,i)", "forall(lambda k: implies(0<=k and k<len(r), opt(h,h.edges_[e].tail_nodes_[k],r[k])), pat=r[k])"], ["opt(h,i,tr(e,r))"],
                  pats=["(h.nodes_[i].in_edges_[j],tr(e,r))"], assume="definition of the traversal of a best derivation: an edge whose product is the best one, over best traversals of its tails"),
            Lemma("vcnt_range", [("e", VI), ("n", I_)], ["0<=n"], ["0<=vcnt(e,n) and vcnt(e,n)<=n"], induct="n", pats=["vcnt(e,n)"]),
            Lemma("vcnt_mono", [("e", VI), ("n", I_), ("m", I_)], ["0<=n and n<=m"], ["vcnt(e,n)<=vcnt(e,m)"], induct="m-n", pats=["(vcnt(e,n),vcnt(e,m))"])]


PROPERTY = Property("D03", [UnitSpec("/verif/harness/d03.cc", build, ["Viterbi", "TRule::ESubstitute", "TRule::FSubstitute", "PathLengthTraversal::operator()", "ELengthTraversal::operator()"], opts={"veclike": {"SmallVector"}}, lemmas=lemmas)],
    driver=Driver("d03.cc", ["decoder/hg.cc","decoder/viterbi.cc","decoder/trule.cc","utils/tdict.cc","utils/fdict.cc","utils/filelib.cc","utils/gzstream.cc","utils/verbose.cc","utils/stringlib.cc"], libs=["-lz"], secs=25),
    bounded=["KBestDerivations (all and distinct sentences), ViterbiPathTraversal, FeatureVectorTraversal, ETree/FTree traversals: random forests of up to 6 nodes and 2000 derivations against enumeration"], bounded_secs=20)
