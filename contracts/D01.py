from api import *
I_, B_ = z3.IntSort(), z3.BoolSort()
VI, VB = vec_sort(I_), vec_sort(B_)
# number of times v is among the first n elements of a list
occ = RecFn("occ", [VI, I_, I_], I_, lambda t, v, n: z3.If(n <= 0, 0, occ(t, v, n - 1) + z3.If(vat(t, n - 1) == v, 1, 0)))
H = "Hypergraph::"
# everything about a node except its list of outgoing edges
macro("same_node", "a b", "a.id_==b.id_ and a.cat_==b.cat_ and a.node_hash==b.node_hash and a.in_edges_==b.in_edges_")


def outs(g0, eid, tails, n):
    """after adding edge eid with the first n tails: each node's outgoing edges gained eid once per occurrence among the tails"""
    return ["len(this.nodes_)==len(%s)" % g0,
            "forall(lambda v: implies(0<=v and v<len(this.nodes_), same_node(this.nodes_[v],%s[v]) and len(this.nodes_[v].out_edges_)==len(%s[v].out_edges_)+occ(%s,v,%s)), pat=this.nodes_[v])" % (g0, g0, tails, n),
            "forall(lambda v, k: implies(0<=v and v<len(this.nodes_) and 0<=k and k<len(this.nodes_[v].out_edges_), this.nodes_[v].out_edges_[k]==ite(k<len(%s[v].out_edges_), %s[v].out_edges_[k], %s)), pat=this.nodes_[v].out_edges_[k])" % (g0, g0, eid)]


def build(u):
    cs = []
    sz = ["len(this.nodes_)<1000000000 and len(this.edges_)<1000000000"]
    NN = {"uses": ["occ_nonneg"]}
    big = "forall(lambda v: implies(0<=v and v<len(this.nodes_), len(this.nodes_[v].in_edges_)<1000000000 and len(this.nodes_[v].out_edges_)<1000000000), pat=this.nodes_[v])"
    tl = "len(%s)<1000000 and forall(lambda k: implies(0<=k and k<len(%s), 0<=%s[k] and %s[k]<len(this.nodes_)), pat=%s[k])"
    oe = ["len(this.edges_)==old(len(this.edges_))+1", "forall(lambda e: implies(0<=e and e<old(len(this.edges_)), this.edges_[e]==old(this.edges_)[e]), pat=this.edges_[e])", "this.edges_[len(this.edges_)-1].id_==old(len(this.edges_))", "this.is_linear_chain_==old(this.is_linear_chain_)"]
    E = "this.edges_[len(this.edges_)-1]"

    def named(xs, *names):
        return [(names[min(i, len(names) - 1)] + ("" if i < len(names) else " %d" % i), x) for i, x in enumerate(xs)]
    N = ("edge appended", "edges kept", "edge id")
    O = ("nodes kept", "outgoing lists grow", "outgoing edges listed")
    t1 = "in_edge"
    cs.append(Contract(H + "AddEdge", params=["rule", "tail"], requires=sz + [tl % (("tail",) * 5), big], modifies=["this"], sig=lambda f: "TRule" in f["pt"][0], opts=NN,
        ensures=named(oe, *N) + [("edge as given", "%s.tail_nodes_==tail and %s.rule_==rule" % (E, E))] + named(outs("old(this.nodes_)", "old(len(this.edges_))", "tail", "len(tail)"), *O),
        loops=[["this.edges_==entry(this.edges_)"] + outs("old(this.nodes_)", "old(len(this.edges_))", "tail", "i")]))
    cs.append(Contract(H + "AddEdge", params=["nedge"], requires=sz + [tl % (("nedge.tail_nodes_",) * 5), big], modifies=["this"], sig=lambda f: len(f["pt"]) == 1,
        ensures=named(oe, *N) + [("edge as given", "%s.tail_nodes_==nedge.tail_nodes_ and %s.rule_==nedge.rule_ and %s.feature_values_==nedge.feature_values_ and %s.edge_prob_==nedge.edge_prob_ and %s.i_==nedge.i_ and %s.j_==nedge.j_" % ((E,) * 6))] + named(outs("old(this.nodes_)", "old(len(this.edges_))", "nedge.tail_nodes_", "len(nedge.tail_nodes_)"), *O)))
    cs.append(Contract(H + "AddEdge", params=["in_edge", "tail"], requires=sz + [tl % (("tail",) * 5), big], modifies=["this"], sig=lambda f: len(f["pt"]) == 2 and "Edge" in f["pt"][0],
        ensures=named(oe, *N) + [("edge as given", "%s.tail_nodes_==tail and %s.rule_==in_edge.rule_ and %s.feature_values_==in_edge.feature_values_ and %s.i_==in_edge.i_ and %s.j_==in_edge.j_ and %s.prev_i_==in_edge.prev_i_ and %s.prev_j_==in_edge.prev_j_" % ((E,) * 7))] + named(outs("old(this.nodes_)", "old(len(this.edges_))", "tail", "len(tail)"), *O)))
    cs.append(Contract(H + "index_tails", params=["edge"], requires=["len(this.nodes_)<=1000000000"] + [tl % (("edge.tail_nodes_",) * 5), big], modifies=["this.nodes_"], opts=NN,
        ensures=named(outs("old(this.nodes_)", "edge.id_", "edge.tail_nodes_", "len(edge.tail_nodes_)"), *O),
        loops=[outs("old(this.nodes_)", "edge.id_", "edge.tail_nodes_", "i")]))
    kept = lambda n: "forall(lambda v: implies(0<=v and v<%s, this.nodes_[v]==old(this.nodes_)[v]), pat=this.nodes_[v])" % n
    cs.append(Contract(H + "AddNode", params=["cat"], requires=sz, modifies=["this.nodes_"],
        ensures=[("node appended", "len(this.nodes_)==old(len(this.nodes_))+1"), ("nodes kept", kept("old(len(this.nodes_))")),
                 ("category and id", "this.nodes_[len(this.nodes_)-1].cat_==cat and this.nodes_[len(this.nodes_)-1].id_==len(this.nodes_)-1 and len(this.nodes_[len(this.nodes_)-1].in_edges_)==0 and len(this.nodes_[len(this.nodes_)-1].out_edges_)==0")]))
    conn = lambda e, h: [("head set", "this.edges_[%s].head_node_==%s" % (e, h)), ("edge otherwise kept", "this.edges_[%s].id_==old(this.edges_)[%s].id_ and this.edges_[%s].tail_nodes_==old(this.edges_)[%s].tail_nodes_" % (e, e, e, e)), ("other edges kept", "len(this.edges_)==old(len(this.edges_)) and forall(lambda x: implies(0<=x and x<len(this.edges_) and x!=%s, this.edges_[x]==old(this.edges_)[x]), pat=this.edges_[x])" % e),
                         ("edge entered", "len(this.nodes_)==old(len(this.nodes_)) and len(this.nodes_[%s].in_edges_)==old(len(this.nodes_[%s].in_edges_))+1 and this.nodes_[%s].in_edges_[len(this.nodes_[%s].in_edges_)-1]==%s" % (h, h, h, h, e)),
                         ("entered edges kept", "forall(lambda k: implies(0<=k and k<old(len(this.nodes_[%s].in_edges_)), this.nodes_[%s].in_edges_[k]==old(this.nodes_[%s].in_edges_)[k]), pat=this.nodes_[%s].in_edges_[k]) and this.nodes_[%s].out_edges_==old(this.nodes_[%s].out_edges_) and this.nodes_[%s].id_==old(this.nodes_[%s].id_)" % ((h,) * 8)),
                         ("other nodes kept", "forall(lambda x: implies(0<=x and x<len(this.nodes_) and x!=%s, this.nodes_[x]==old(this.nodes_)[x]), pat=this.nodes_[x])" % h)]
    cs.append(Contract(H + "ConnectEdgeToHeadNode", params=["edge_id", "head_id"], requires=sz + ["0<=edge_id and edge_id<len(this.edges_) and 0<=head_id and head_id<len(this.nodes_)", big], modifies=["this"], sig=lambda f: f["pt"] == ["int", "int"], ensures=conn("edge_id", "head_id")))
    cs.append(Contract(H + "ConnectEdgeToHeadNode", params=["edge", "head_id"], requires=sz + ["0<=head_id and head_id<len(this.nodes_)", big], modifies=["this.nodes_", "edge"], sig=lambda f: "Edge" in f["pt"][0] and f["pt"][1] == "int", opts={"objptr": ["edge"]},
        ensures=[("head set", "edge.head_node_==head_id and edge.id_==old(edge.id_) and edge.tail_nodes_==old(edge.tail_nodes_)")] + [(n, x.replace("==edge_id", "==edge.id_")) for n, x in conn("edge_id", "head_id")[3:]]))
    cs.append(Contract(H + "ConnectEdgeToHeadNode", params=["edge", "head"], requires=["len(head.in_edges_)<1000000000"], modifies=["edge", "head"], sig=lambda f: "Node" in f["pt"][1], opts={"objptr": ["edge", "head"]},
        ensures=[("head set", "edge.head_node_==head.id_ and head.id_==old(head.id_) and edge.id_==old(edge.id_) and edge.tail_nodes_==old(edge.tail_nodes_)"), ("edge entered", "len(head.in_edges_)==old(len(head.in_edges_))+1 and head.in_edges_[len(head.in_edges_)-1]==edge.id_"),
                 ("entered edges kept", "forall(lambda k: implies(0<=k and k<old(len(head.in_edges_)), head.in_edges_[k]==old(head.in_edges_)[k]), pat=head.in_edges_[k]) and head.out_edges_==old(head.out_edges_)")]))
    cs.append(Contract(H + "ResizeNodes", params=["size"], requires=sz + ["0<=size and size<1000000000"], modifies=["this.nodes_"],
        ensures=[("number of nodes", "len(this.nodes_)==size"), ("ids", "forall(lambda v: implies(0<=v and v<size, this.nodes_[v].id_==v), pat=this.nodes_[v])"),
                 ("edges of nodes kept", "forall(lambda v: implies(0<=v and v<size and v<old(len(this.nodes_)), this.nodes_[v].in_edges_==old(this.nodes_)[v].in_edges_ and this.nodes_[v].out_edges_==old(this.nodes_)[v].out_edges_ and this.nodes_[v].cat_==old(this.nodes_)[v].cat_ and this.nodes_[v].node_hash==old(this.nodes_)[v].node_hash), pat=this.nodes_[v])")],
        loops=[["len(this.nodes_)==size", "forall(lambda v: implies(0<=v and v<i, this.nodes_[v].id_==v), pat=this.nodes_[v])",
                "forall(lambda v: implies(0<=v and v<size, this.nodes_[v].in_edges_==entry(this.nodes_)[v].in_edges_ and this.nodes_[v].out_edges_==entry(this.nodes_)[v].out_edges_ and this.nodes_[v].cat_==entry(this.nodes_)[v].cat_ and this.nodes_[v].node_hash==entry(this.nodes_)[v].node_hash), pat=this.nodes_[v])"]]))
    keepn = lambda n: "forall(lambda v: implies(0<=v and v<len(this.nodes_), same_links(this.nodes_[v],old(this.nodes_)[v]) and this.nodes_[v].id_==ite(v<%s,v,old(this.nodes_)[v].id_)), pat=this.nodes_[v])" % n
    keepe = lambda n: "forall(lambda v: implies(0<=v and v<len(this.edges_), same_edge(this.edges_[v],old(this.edges_)[v]) and this.edges_[v].id_==ite(v<%s,v,old(this.edges_)[v].id_)), pat=this.edges_[v])" % n
    lens = "len(this.nodes_)==old(len(this.nodes_)) and len(this.edges_)==old(len(this.edges_))"
    cs.append(Contract(H + "set_ids", requires=sz, modifies=["this"], ensures=[("sizes", lens), ("node ids", keepn("len(this.nodes_)")), ("edge ids", keepe("len(this.edges_)"))],
        loops=[[lens, keepn("0"), keepe("i")], [lens, keepn("i"), keepe("len(this.edges_)")]]))
    cs.append(Contract(H + "swap", params=["other"], modifies=["this", "other"], ensures=[("exchanged", "this.nodes_==old(other.nodes_) and this.edges_==old(other.edges_) and this.is_linear_chain_==old(other.is_linear_chain_) and other.nodes_==old(this.nodes_) and other.edges_==old(this.edges_) and other.is_linear_chain_==old(this.is_linear_chain_)")], sig=lambda f: len(f["pt"]) == 1))
    # an edge stays exactly when it was kept and all its tails are kept
    tg = lambda n: "len(ke)==old(len(ke)) and forall(lambda x: implies(0<=x and x<len(ke), ke[x]==ite(x<%s, old(ke)[x] and tails_in(this.edges_[x].tail_nodes_,kn,len(this.edges_[x].tail_nodes_)), old(ke)[x])), pat=ke[x])" % n
    wf = "forall(lambda x: implies(0<=x and x<len(this.edges_), len(this.edges_[x].tail_nodes_)<1000000 and forall(lambda k: implies(0<=k and k<len(this.edges_[x].tail_nodes_), 0<=this.edges_[x].tail_nodes_[k] and this.edges_[x].tail_nodes_[k]<len(this.nodes_)), pat=this.edges_[x].tail_nodes_[k])), pat=this.edges_[x])"
    cs.append(Contract(H + "TightenEdgeMask", params=["ke", "kn"], requires=sz + ["len(ke)==len(this.edges_) and len(kn)==len(this.nodes_)", wf], modifies=["ke"], opts={"uses": ["tails_prefix"]},
        ensures=[("edges with kept tails", tg("len(ke)"))], loops=[[tg("i")], [tg("i"), "0<=i and i<len(this.edges_)", "ke[i]", "tails_in(this.edges_[i].tail_nodes_,kn,j)"]]))
    # numbering of what remains: element i of the mask becomes number kept(mask,i), removed elements become REMOVED
    cs.append(Contract("indices_after::indices_after", params=["a"], requires=["len(a)<1000000000"], modifies=["this", "heap:int"], opts={"uses": ["kept_bound"]}, sig=lambda f: len(f["pt"]) == 1 and "vector" in f["pt"][0],
        ensures=[("number kept", "this.n_mapped==len(a) and this.n_kept==kept(a,len(a))"),
                 ("new numbers", "implies(len(a)>0, this.map.off==0 and len(HEAP_Int[this.map.blk])==len(a) and forall(lambda x: implies(0<=x and x<len(a), HEAP_Int[this.map.blk][x]==ite(a[x],kept(a,x),4294967295)), pat=HEAP_Int[this.map.blk][x]))"),
                 ("new block", "implies(len(a)>0, old(ALLOC)<=this.map.blk and this.map.blk<ALLOC)"),
                 ("other blocks kept", "forall(lambda b: implies(b<old(ALLOC), HEAP_Int[b]==old(HEAP_Int)[b]), pat=HEAP_Int[b])")],
        loops=[["out.blk==this.map.blk and out.off==_i and 0<=_i and _i<=len(a)", "f==kept(a,_i)", "len(HEAP_Int[this.map.blk])==len(a)", "forall(lambda x: implies(0<=x and x<_i, HEAP_Int[this.map.blk][x]==ite(a[x],kept(a,x),4294967295)), pat=HEAP_Int[this.map.blk][x])", "forall(lambda b: implies(b!=this.map.blk, HEAP_Int[b]==entry(HEAP_Int)[b]), pat=HEAP_Int[b])"]]))
    # replacing old numbers by new ones: removed entries disappear, the others keep their order
    num = lambda m: "%s.map.blk!=0 and %s.map.off==0 and forall(lambda x: implies(0<=x and x<len(HEAP_Int[%s.map.blk]), 0<=HEAP_Int[%s.map.blk][x] and (HEAP_Int[%s.map.blk][x]==4294967295 or HEAP_Int[%s.map.blk][x]<1000000000)), pat=HEAP_Int[%s.map.blk][x])" % ((m,) * 7)
    inr = lambda l, m: "len(%s)<1000000000 and forall(lambda k: implies(0<=k and k<len(%s), 0<=%s[k] and %s[k]<len(HEAP_Int[%s.map.blk])), pat=%s[k])" % (l, l, l, l, m, l)
    ren = lambda l, m, o, o0, n: [("entries kept", "len(%s)==len(%s)+remain(%s,HEAP_Int[%s.map.blk],%s)" % (o, o0, l, m, n)),
        ("new numbers", "forall(lambda k: implies(0<=k and k<%s and HEAP_Int[%s.map.blk][%s[k]]!=4294967295, %s[len(%s)+remain(%s,HEAP_Int[%s.map.blk],k)]==HEAP_Int[%s.map.blk][%s[k]]), pat=%s[k])" % (n, m, l, o, o0, l, m, m, l, l)),
        ("earlier entries", "forall(lambda k: implies(0<=k and k<len(%s), %s[k]==%s[k]), pat=%s[k])" % (o0, o, o0, o))]
    RM = {"uses": ["remain_bound", "remain_mono"]}
    for ty in ("vector", "SmallVector"):
        cs.append(Contract("indices_after::reindex_push_back", params=["src", "dst"], requires=[num("this"), inr("src", "this"), "len(dst)<1000000000"], modifies=["dst"], opts=RM, sig=lambda f, ty=ty: ty in f["pt"][0],
            ensures=ren("src", "this", "dst", "old(dst)", "len(src)"), loops=[["0<=_i and _i<=len(src)"] + [x for _, x in ren("src", "this", "dst", "entry(dst)", "_i")]]))
    both = [num("n2"), num("e2")]
    cs.append(Contract("HG::Node::copy_reindex", params=["o", "n2", "e2"], requires=both + [inr("o.in_edges_", "e2"), inr("o.out_edges_", "e2"), "0<=o.id_ and o.id_<len(HEAP_Int[n2.map.blk]) and HEAP_Int[n2.map.blk][o.id_]!=4294967295", "len(this.in_edges_)<1000000 and len(this.out_edges_)<1000000"], modifies=["this"],
        ensures=[("attributes", "this.cat_==o.cat_ and this.node_hash==o.node_hash and this.id_==HEAP_Int[n2.map.blk][o.id_]")] + [("incoming " + a, b) for a, b in ren("o.in_edges_", "e2", "this.in_edges_", "old(this.in_edges_)", "len(o.in_edges_)")] + [("outgoing " + a, b) for a, b in ren("o.out_edges_", "e2", "this.out_edges_", "old(this.out_edges_)", "len(o.out_edges_)")]))
    cs.append(Contract("HG::Edge::copy_reindex", params=["o", "n2", "e2"], requires=both + [inr("o.tail_nodes_", "n2"), "0<=o.id_ and o.id_<len(HEAP_Int[e2.map.blk]) and HEAP_Int[e2.map.blk][o.id_]!=4294967295", "0<=o.head_node_ and o.head_node_<len(HEAP_Int[n2.map.blk]) and HEAP_Int[n2.map.blk][o.head_node_]!=4294967295", "len(this.tail_nodes_)<1000000"], modifies=["this"],
        ensures=[("attributes", "this.rule_==o.rule_ and this.feature_values_==o.feature_values_ and this.edge_prob_==o.edge_prob_ and this.i_==o.i_ and this.j_==o.j_ and this.prev_i_==o.prev_i_ and this.prev_j_==o.prev_j_"), ("ids", "this.id_==HEAP_Int[e2.map.blk][o.id_] and this.head_node_==HEAP_Int[n2.map.blk][o.head_node_]")] + [("tail " + a, b) for a, b in ren("o.tail_nodes_", "n2", "this.tail_nodes_", "old(this.tail_nodes_)", "len(o.tail_nodes_)")]))
    # the masks of an edge subset: an edge stays when it was kept and all its tails are heads of edges that stay, a node stays when one of its edges does
    topo = "forall(lambda v, k: implies(0<=v and v<len(this.nodes_) and 0<=k and k<len(this.nodes_[v].in_edges_), 0<=this.nodes_[v].in_edges_[k] and this.nodes_[v].in_edges_[k]<len(this.edges_) and this.edges_[this.nodes_[v].in_edges_[k]].head_node_==v), pat=this.nodes_[v].in_edges_[k]) and forall(lambda x, k: implies(0<=x and x<len(this.edges_) and 0<=k and k<len(this.edges_[x].tail_nodes_), 0<=this.edges_[x].tail_nodes_[k] and this.edges_[x].tail_nodes_[k]<this.edges_[x].head_node_), pat=this.edges_[x].tail_nodes_[k])"
    uniq = "forall(lambda v, k, l: implies(0<=v and v<len(this.nodes_) and 0<=k and k<l and l<len(this.nodes_[v].in_edges_), this.nodes_[v].in_edges_[k]!=this.nodes_[v].in_edges_[l]), pat=(this.nodes_[v].in_edges_[k],this.nodes_[v].in_edges_[l]))"
    sh = "forall(lambda x: implies(0<=x and x<len(this.edges_), 0<=this.edges_[x].head_node_ and this.edges_[x].head_node_<len(this.nodes_) and len(this.edges_[x].tail_nodes_)<1000000), pat=this.edges_[x])"
    cs.append(Contract(H + "CreateNodeEdgeSubset", params=["keep_nodes", "keep_edges"], verify=False))
    K = "len(keep_edges)==len(this.edges_)"
    fin = lambda c: "forall(lambda x: implies(0<=x and x<len(this.edges_) and %s, keep_edges[x]==(old(keep_edges)[x] and tails_in(this.edges_[x].tail_nodes_,kn,len(this.edges_[x].tail_nodes_)))), pat=keep_edges[x])" % c
    unt = lambda c: "forall(lambda x: implies(0<=x and x<len(this.edges_) and %s, keep_edges[x]==old(keep_edges)[x]), pat=keep_edges[x])" % c
    hd = lambda c: "forall(lambda x: implies(0<=x and x<len(this.edges_) and %s and keep_edges[x], kn[this.edges_[x].head_node_]), pat=keep_edges[x])" % c
    ex = lambda c, n: "forall(lambda v: implies(0<=v and v<len(this.nodes_) and %s, kn[v]==any_in(this.nodes_[v].in_edges_,keep_edges,%s)), pat=kn[v])" % (c, n)
    listed = lambda x: "exists(lambda k: 0<=k and k<i and this.nodes_[n].in_edges_[k]==%s)" % x
    cs.append(Contract(H + "CreateEdgeSubset", params=["keep_edges", "kn"], requires=sz + [K, topo, uniq, sh, "forall(lambda v: implies(0<=v and v<len(this.nodes_), len(this.nodes_[v].in_edges_)<1000000), pat=this.nodes_[v])", "forall(lambda x: implies(0<=x and x<len(this.edges_), 0<=slot(x) and slot(x)<len(this.nodes_[this.edges_[x].head_node_].in_edges_) and this.nodes_[this.edges_[x].head_node_].in_edges_[slot(x)]==x), pat=this.edges_[x])"],
        modifies=["keep_edges", "kn"], sig=lambda f: len(f["pt"]) == 2, opts={"uses": ["tails_prefix", "tails_frame", "any_frame", "any_mono"]},
        ensures=[("mask sizes", "len(kn)==len(this.nodes_) and " + K), ("edges that stay", fin("True")), ("heads stay", hd("True")), ("nodes with an edge", ex("True", "len(this.nodes_[v].in_edges_)"))],
        loops=[["len(kn)==len(this.nodes_)", K, "forall(lambda v: implies(n<=v and v<len(this.nodes_), not kn[v]), pat=kn[v])", fin("this.edges_[x].head_node_<n"), unt("n<=this.edges_[x].head_node_"), hd("this.edges_[x].head_node_<n"), ex("v<n", "len(this.nodes_[v].in_edges_)")],
               ["len(kn)==len(this.nodes_)", K, "forall(lambda v: implies(n<v and v<len(this.nodes_), not kn[v]), pat=kn[v])",
                fin("(this.edges_[x].head_node_<n or this.edges_[x].head_node_==n and slot(x)<i)"), unt("(n<this.edges_[x].head_node_ or this.edges_[x].head_node_==n and i<=slot(x))"), hd("(this.edges_[x].head_node_<n or this.edges_[x].head_node_==n and slot(x)<i)"), ex("v<n", "len(this.nodes_[v].in_edges_)"), "kn[n]==any_in(this.nodes_[n].in_edges_,keep_edges,i)"],
               ["tails_in(e.tail_nodes_,kn,j)"]]))
    return cs


# one of the first n entries of a list is marked
any_in = RecFn("any_in", [VI, VB, I_], B_, lambda l, k, n: z3.If(n <= 0, False, z3.Or(any_in(l, k, n - 1), vat(k, vat(l, n - 1)))))
SLOT = z3.Function("slot", I_, I_); FUNCS["slot"] = lambda env, x: SLOT(lift(x))     # the position of an edge among the incoming edges of its head
# how many of the first n entries of a list survive a renumbering
remain = RecFn("remain", [VI, VI, I_], I_, lambda l, r, n: z3.If(n <= 0, 0, remain(l, r, n - 1) + z3.If(vat(r, vat(l, n - 1)) == 4294967295, 0, 1)))
# how many of the first n elements of a mask are kept
kept = RecFn("kept", [VB, I_], I_, lambda m, n: z3.If(n <= 0, 0, kept(m, n - 1) + z3.If(vat(m, n - 1), 1, 0)))
macro("same_links", "a b", "a.cat_==b.cat_ and a.node_hash==b.node_hash and a.in_edges_==b.in_edges_ and a.out_edges_==b.out_edges_")
macro("same_edge", "a b", "a.head_node_==b.head_node_ and a.tail_nodes_==b.tail_nodes_ and a.rule_==b.rule_ and a.feature_values_==b.feature_values_ and a.edge_prob_==b.edge_prob_ and a.i_==b.i_ and a.j_==b.j_ and a.prev_i_==b.prev_i_ and a.prev_j_==b.prev_j_")
# the first n tails are all kept nodes
tails_in = RecFn("tails_in", [VI, VB, I_], B_, lambda t, k, n: z3.If(n <= 0, True, z3.And(tails_in(t, k, n - 1), vat(k, vat(t, n - 1)))))


def lemmas(u):
    return [Lemma("occ_nonneg", [("t", VI), ("v", I_), ("n", I_)], [], ["0<=occ(t,v,n)"], induct="ite(n<0,0,n)", pats=["occ(t,v,n)"]),
            Lemma("kept_bound", [("m", VB), ("n", I_)], [], ["0<=kept(m,n)", "kept(m,n)<=ite(n<0,0,n)"], induct="ite(n<0,0,n)", pats=["kept(m,n)"]),
            Lemma("remain_bound", [("l", VI), ("r", VI), ("n", I_)], [], ["0<=remain(l,r,n)", "remain(l,r,n)<=ite(n<0,0,n)"], induct="ite(n<0,0,n)", pats=["remain(l,r,n)"]),
            Lemma("remain_mono", [("l", VI), ("r", VI), ("m", I_), ("n", I_)], ["0<=m and m<n"], ["remain(l,r,m)+ite(r[l[m]]==4294967295,0,1)<=remain(l,r,n)"], induct="n", pats=["remain(l,r,m),remain(l,r,n)"]),
            Lemma("tails_frame", [("t", VI), ("k1", VB), ("k2", VB), ("n", I_)], ["forall(lambda j: implies(0<=j and j<n, k1[t[j]]==k2[t[j]]))"], ["tails_in(t,k1,n)==tails_in(t,k2,n)"], induct="n", pats=["tails_in(t,k1,n),tails_in(t,k2,n)"]),
            Lemma("any_frame", [("t", VI), ("k1", VB), ("k2", VB), ("n", I_)], ["forall(lambda j: implies(0<=j and j<n, k1[t[j]]==k2[t[j]]))"], ["any_in(t,k1,n)==any_in(t,k2,n)"], induct="n", pats=["any_in(t,k1,n),any_in(t,k2,n)"]),
            Lemma("any_mono", [("t", VI), ("k", VB), ("m", I_), ("n", I_)], ["0<=m and m<n and k[t[m]]"], ["any_in(t,k,n)"], induct="n", pats=["any_in(t,k,n),k[t[m]]"]),
            Lemma("tails_prefix", [("t", VI), ("k", VB), ("m", I_), ("n", I_)], ["0<=m and m<n and not k[t[m]]"], ["not tails_in(t,k,n)"], induct="n", pats=["tails_in(t,k,n),k[t[m]]"])]


VER = ["Hypergraph::" + f for f in "AddEdge index_tails AddNode ConnectEdgeToHeadNode ResizeNodes set_ids swap TightenEdgeMask CreateEdgeSubset".split()] + ["indices_after::indices_after", "indices_after::reindex_push_back", "HG::Node::copy_reindex", "HG::Edge::copy_reindex"]
PROPERTY = Property("D01", [UnitSpec("decoder/hg.cc", build, VER, lemmas=lemmas, opts={"veclike": {"SmallVector"}, "opaque": {"FastSparseVector", "boost::shared_ptr<TRule>"}})],
    driver=Driver("d01.cc", ["decoder/hg.cc", "decoder/hg_union.cc", "decoder/viterbi.cc", "decoder/trule.cc", "utils/tdict.cc", "utils/fdict.cc", "utils/filelib.cc", "utils/gzstream.cc", "utils/verbose.cc", "utils/stringlib.cc"], secs=20, libs=["-lz"]),
    bounded=["TopologicallySortNodesAndEdges, PruneEdges, CreateEdgeSubset, CreateNodeSubset, CreateViterbiHypergraph, MarginPrune, PruneInsideOutside, Hypergraph::Union, HG::Union: random forests against enumeration"], bounded_secs=20)
