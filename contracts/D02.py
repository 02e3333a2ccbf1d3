from api import *
I_, R_ = z3.IntSort(), z3.RealSort()
VI = vec_sort(I_)
VVI = vec_sort(VI)
# a hypergraph as seen by the algorithms: incoming edges per node, tails per edge; w = weight of an edge
W = z3.Function("edge_weight", I_, R_)
X = z3.Function("edge_value", I_, R_)
FUNCS["w"] = lambda env, e: W(lift(e))
FUNCS["xval"] = lambda env, e: X(lift(e))
HGS = {}


def tail(h, e, k):
    return vat(acc(vat(acc(h, "edges_"), e), "tail_nodes_"), k)


def inedge(h, i, j):
    return vat(acc(vat(acc(h, "nodes_"), i), "in_edges_"), j)


def nin(h, i):
    return vlen(acc(vat(acc(h, "nodes_"), i), "in_edges_"))


def ntail(h, e):
    return vlen(acc(vat(acc(h, "edges_"), e), "tail_nodes_"))


def define(HG):
    """ghost functions over the hypergraph sort of this unit"""
    def prod(h, e, k):
        return z3.If(k <= 0, W(e), eprod(h, e, k - 1) * ins(h, tail(h, e, k - 1)))
    eprod = RecFn("eprod", [HG, I_, I_], R_, prod)
    # weight of the derivations of node i through its first j incoming edges
    isum = RecFn("isum", [HG, I_, I_], R_, lambda h, i, j: z3.If(j <= 0, z3.RealVal(0), isum(h, i, j - 1) + eprod(h, inedge(h, i, j - 1), ntail(h, inedge(h, i, j - 1)))))
    ins = RecFn("ins", [HG, I_], R_, lambda h, i: isum(h, i, nin(h, i)))
    VR = vec_sort(R_)
    # product of inside scores over the first n tail positions other than position k
    loo = RecFn("loo", [HG, VR, I_, I_, I_], R_, lambda h, v, e, k, n: z3.If(n <= 0, z3.RealVal(1), z3.If(n - 1 == k, loo(h, v, e, k, n - 1), loo(h, v, e, k, n - 1) * vat(v, tail(h, e, n - 1)))))
    # outside score of node i: everything node m >= i+1 contributes; the goal node starts with the scale factor
    outf = RecFn("outf", [HG, VR, R_, I_], R_, lambda h, v, c, i: outn(h, v, c, i, i + 1))
    outn = RecFn("outn", [HG, VR, R_, I_, I_], R_, lambda h, v, c, i, m: z3.If(m >= vlen(acc(h, "nodes_")), z3.If(i == vlen(acc(h, "nodes_")) - 1, c, z3.RealVal(0)), outn(h, v, c, i, m + 1) + oute(h, v, c, i, m, nin(h, m))))
    # what the first j incoming edges of node m contribute to node i
    oute = RecFn("oute", [HG, VR, R_, I_, I_, I_], R_, lambda h, v, c, i, m, j: z3.If(j <= 0, z3.RealVal(0), oute(h, v, c, i, m, j - 1) + outt(h, v, c, i, m, inedge(h, m, j - 1), ntail(h, inedge(h, m, j - 1)))))
    # what the first n tail positions of edge e (into node m) contribute to node i
    outt = RecFn("outt", [HG, VR, R_, I_, I_, I_, I_], R_, lambda h, v, c, i, m, e, n: z3.If(n <= 0, z3.RealVal(0), outt(h, v, c, i, m, e, n - 1) + z3.If(tail(h, e, n - 1) == i, loo(h, v, e, n - 1, ntail(h, e)) * (W(e) * outf(h, v, c, m)), z3.RealVal(0))))
    # sum over the edges of value times inside-outside weight
    xprod = RecFn("xprod", [HG, VR, VR, I_, I_, I_], R_, lambda h, o, v, i, e, k: z3.If(k <= 0, vat(o, i), xprod(h, o, v, i, e, k - 1) * vat(v, tail(h, e, k - 1))))
    xsume = RecFn("xsume", [HG, VR, VR, I_, I_], R_, lambda h, o, v, i, j: z3.If(j <= 0, z3.RealVal(0), xsume(h, o, v, i, j - 1) + X(inedge(h, i, j - 1)) * xprod(h, o, v, i, inedge(h, i, j - 1), ntail(h, inedge(h, i, j - 1)))))
    xsum = RecFn("xsum", [HG, VR, VR, I_], R_, lambda h, o, v, n: z3.If(n <= 0, z3.RealVal(0), xsum(h, o, v, n - 1) + xsume(h, o, v, n - 1, nin(h, n - 1))))
    mprod = RecFn("mprod", [HG, VR, VR, I_, I_, I_], R_, lambda h, o, v, i, e, k: z3.If(k <= 0, W(e) * vat(o, i), mprod(h, o, v, i, e, k - 1) * vat(v, tail(h, e, k - 1))))
    return eprod, isum, ins


macro("hg_ok", "h", "len(h.nodes_)<1000000000 and len(h.edges_)<1000000000"
      " and forall(lambda i, j: implies(0<=i and i<len(h.nodes_) and 0<=j and j<len(h.nodes_[i].in_edges_), 0<=h.nodes_[i].in_edges_[j] and h.nodes_[i].in_edges_[j]<len(h.edges_)), pat=h.nodes_[i].in_edges_[j])"
      " and forall(lambda i, j, k: implies(0<=i and i<len(h.nodes_) and 0<=j and j<len(h.nodes_[i].in_edges_) and 0<=k and k<len(h.edges_[h.nodes_[i].in_edges_[j]].tail_nodes_), 0<=h.edges_[h.nodes_[i].in_edges_[j]].tail_nodes_[k] and h.edges_[h.nodes_[i].in_edges_[j]].tail_nodes_[k]<i), pat=h.edges_[h.nodes_[i].in_edges_[j]].tail_nodes_[k])"
      " and forall(lambda e: implies(0<=e and e<len(h.edges_), h.edges_[e].id_==e and len(h.edges_[e].tail_nodes_)<1000), pat=h.edges_[e])")


def build(u):
    define(u.sort("Hypergraph"))
    cs = [Contract("EdgeW::operator()", params=["e"], ensures=["result==w(e.id_)"], verify=False),
          Contract("Count::operator()", params=["e"], ensures=["result.v==xval(e.id_)"], verify=False)]
    cs.append(Contract("Inside", params="hg out weight".split(), requires=["hg_ok(hg)"], modifies=["out"],
        ensures=[("one score per node", "len(out)==len(hg.nodes_)"),
                 ("sum over the derivations of each node", "forall(lambda i: implies(0<=i and i<len(out), out[i]==ins(hg,i)), pat=out[i])"),
                 ("goal score returned", "result==ite(len(hg.nodes_)==0, real(0), ins(hg,len(hg.nodes_)-1))")],
        loops=[["len(out)==len(hg.nodes_)", "forall(lambda k: implies(0<=k and k<i, out[k]==ins(hg,k)), pat=out[k])", "forall(lambda k: implies(i<=k and k<len(out), out[k]==real(0)), pat=out[k])"],
               ["len(out)==len(hg.nodes_)", "out[i]==isum(hg,i,j)", "forall(lambda k: implies(0<=k and k<i, out[k]==ins(hg,k)), pat=out[k])", "forall(lambda k: implies(i<k and k<len(out), out[k]==real(0)), pat=out[k])"],
               ["score==eprod(hg,hg.nodes_[i].in_edges_[j],k)"]],
        opts={"objptr": ["out"]}))
    A = "hg,inside_score,scale"
    done = "forall(lambda v: implies(0<=v and v<len(hg.nodes_), out[v]==outn(%s,v,i+1)), pat=out[v])" % A
    cs.append(Contract("Outside", params="hg inside_score out weight scale".split(), requires=["hg_ok(hg)", "len(hg.nodes_)>=1", "len(inside_score)==len(hg.nodes_)"], modifies=["out"],
        ensures=[("one score per node", "len(out)==len(hg.nodes_)"),
                 ("sum over the contexts of each node", "forall(lambda v: implies(0<=v and v<len(out), out[v]==outn(%s,v,0)), pat=out[v])" % A)],
        loops=[["len(out)==len(hg.nodes_)", "i<len(hg.nodes_)", done],
               ["len(out)==len(hg.nodes_)", "forall(lambda v: implies(0<=v and v<len(hg.nodes_), out[v]==outn(%s,v,i+1)+oute(%s,v,i,j)), pat=out[v])" % (A, A), "out[i]==outf(%s,i)" % A],
               ["len(out)==len(hg.nodes_)", "forall(lambda v: implies(0<=v and v<len(hg.nodes_), out[v]==outn(%s,v,i+1)+oute(%s,v,i,j)+outt(%s,v,i,hg.nodes_[i].in_edges_[j],k)), pat=out[v])" % (A, A, A), "out[i]==outf(%s,i)" % A],
               ["inside_contribution==loo(hg,inside_score,hg.nodes_[i].in_edges_[j],k,l)"]],
        opts={"objptr": ["out"]}))
    io = ["hg_ok(hg)", "len(this.inside)==len(hg.nodes_)", "len(this.outside)==len(hg.nodes_)"]
    B = "hg,this.outside,this.inside"
    cs.append(Contract("InsideOutsides::expect", params="hg xwf".split(), requires=io,
        ensures=[("sum over the edges", "result.v==xsum(%s,len(hg.nodes_))" % B)],
        loops=[["x.v==xsum(%s,i)" % B], ["x.v==entry(x.v)+xsume(%s,i,j)" % B], ["kbar_e==xprod(%s,i,hg.nodes_[i].in_edges_[j],k)" % B]]))
    mg = "forall(lambda i, j: implies(0<=i and %s and 0<=j and j<len(hg.nodes_[i].in_edges_), vs[hg.nodes_[i].in_edges_[j]]==mprod(" + B + ",i,hg.nodes_[i].in_edges_[j],len(hg.edges_[hg.nodes_[i].in_edges_[j]].tail_nodes_))), pat=hg.nodes_[i].in_edges_[j])"
    one = "forall(lambda i, j, k, l: implies(0<=i and i<len(hg.nodes_) and 0<=j and j<len(hg.nodes_[i].in_edges_) and 0<=k and k<len(hg.nodes_) and 0<=l and l<len(hg.nodes_[k].in_edges_) and not (i==k and j==l), hg.nodes_[i].in_edges_[j]!=hg.nodes_[k].in_edges_[l]), pat=(hg.nodes_[i].in_edges_[j],hg.nodes_[k].in_edges_[l]))"
    cs.append(Contract("InsideOutsides::compute_edge_marginals", params="hg vs weight".split(), requires=io + [("every edge enters one node once", one)], modifies=["vs"],
        ensures=[("one marginal per edge", "len(vs)==len(hg.edges_)"), ("edge weight times outside times the insides of the tails", mg % "i<len(hg.nodes_)")],
        loops=[["len(vs)==len(hg.edges_)", mg.replace("lambda i, j", "lambda a, j").replace("[i]", "[a]").replace("0<=i", "0<=a").replace(",i,", ",a,") % "a<i"],
               ["len(vs)==len(hg.edges_)", mg.replace("lambda i, j", "lambda a, b").replace("[i]", "[a]").replace("[j]", "[b]").replace("0<=i", "0<=a").replace(",i,", ",a,").replace("0<=j and j<", "0<=b and b<") % "(a<i or a==i and b<j)"],
               ["x==mprod(%s,i,edgei,k)" % B]]))
    return cs


PROPERTY = Property("D02", [UnitSpec("/verif/harness/d02.cc", build, ["Inside", "Outside", "InsideOutsides::expect", "InsideOutsides::compute_edge_marginals"], opts={"veclike": {"SmallVector"}})],
    driver=Driver("d02.cc", ["decoder/hg.cc","decoder/viterbi.cc","decoder/trule.cc","utils/tdict.cc","utils/fdict.cc","utils/filelib.cc","utils/gzstream.cc","utils/verbose.cc","utils/stringlib.cc"], libs=["-lz"], secs=25),
    bounded=["ComputeEdgePosteriors, ComputeBestPathThroughEdges, NumberOfPaths, InsideOutsides::compute, InsideOutside, Inside over booleans: random hypergraphs of up to 6 nodes, 4 incoming edges per node, 4 tails per edge, 300 derivations, against enumeration of the derivations"], bounded_secs=12)
