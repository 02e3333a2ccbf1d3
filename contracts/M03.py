from api import *
import os, ir
I_, R_ = z3.IntSort(), z3.RealSort()
LINE = z3.Function("line_at", R_, R_, R_, R_)     # value at x of the line with slope m and intercept b
INF = z3.Real("m_infinity")
QUO = z3.Function("quotient", R_, R_, R_)
FUNCS["quo"] = lambda env, a, b: QUO(lift(a), lift(b))
XP = z3.Real("m_anywhere")                        # an arbitrary point: nothing is assumed about it
FUNCS["X"] = lambda env: XP
FUNCS["inf"] = lambda env: INF
FUNCS["line"] = lambda env, p, x: line(lift(p), lift(x))


FUNCS["lineof"] = lambda env, v, x: LINE(acc(lift(v), "m"), acc(lift(v), "b"), lift(x))
FUNCS["LINE"] = lambda env, m, b, x: LINE(lift(m), lift(b), lift(x))


def line(p, x):
    v = acc(p, "val")
    return LINE(acc(v, "m"), acc(v, "b"), x)


macro("okpts", "a", "len(a)<1000000000 and forall(lambda k: implies(0<=k and k<len(a), a[k].nonnull), pat=a[k])")
# an upper envelope: slopes and boundaries increase, neighbours meet at the boundary
macro("steeper", "a n", "forall(lambda k, l: implies(0<=k and k<l and l<n, a[k].val.m<a[l].val.m), pat=(a[k],a[l]))")
macro("further", "a n", "forall(lambda k, l: implies(0<k and k<l and l<n, a[k].val.x<a[l].val.x), pat=(a[k].val.x,a[l].val.x))")
macro("finite", "a n", "forall(lambda k: implies(0<k and k<n, 0-inf()<a[k].val.x and a[k].val.x<inf()), pat=a[k].val.x)")
macro("meeting", "a n", "forall(lambda k: implies(0<k and k<n, line(a[k],a[k].val.x)==line(a[k-1],a[k].val.x)), pat=a[k].val.x)")
macro("hulln", "a n", "steeper(a,n) and further(a,n) and finite(a,n) and meeting(a,n)")
macro("hull", "a", "hulln(a,len(a))")
macro("ident", "a", "len(a)==1 and a[0].val.m==real(0) and a[0].val.b==real(0) and null(a[0].val.edge) and not a[0].val.p1.nonnull and not a[0].val.p2.nonnull")
macro("left", "a", "implies(len(a)>0, a[0].val.x==0-inf() or ident(a))")
macro("env", "h", "okpts(h.points) and implies(h.is_sorted, hull(h.points) and left(h.points))")
macro("max2", "p q", "ite(p<q, q, p)")
macro("best", "a x", "top(a,len(a),x)")
# same line and same derivation
macro("sameline", "p q", "p.m==q.m and p.b==q.b and p.p1==q.p1 and p.p2==q.p2 and p.edge==q.edge")


def build(u):
    VP = None
    for k, t in u.types.items():
        if u.kind(k) == "vec" and "shared_ptr<MERTPoint>" in k and t["k"] == "rec":
            VP = u.sort(k)
    top = RecFn("top", [VP, I_, R_], R_, lambda a, n, x: z3.If(n <= 1, line(vat(a, 0), x), z3.If(top(a, n - 1, x) < line(vat(a, n - 1), x), line(vat(a, n - 1), x), top(a, n - 1, x))))
    u.VP = VP
    cs = [Contract("SlopeCompare::operator()", params="a b".split(), requires=["a.nonnull and b.nonnull"], ensures=[("by slope", "result==(a.val.m<b.val.m)")])]
    C = lambda n, **k: cs.append(Contract("ConvexHull::" + n, **k))
    C("Sort", requires=["okpts(this.points)"], modifies=["this"],
      ensures=[("marked sorted", "this.is_sorted"), ("an envelope", "okpts(this.points) and hull(this.points) and implies(len(this.points)>0, this.points[0].val.x==0-inf())"), ("as many lines as needed", "len(this.points)<=len(old(this.points)) and iff(len(this.points)==0, len(old(this.points))==0)"),
               ("same maximum everywhere", "implies(len(this.points)>0, best(this.points,X())==best(old(this.points),X()))")],
      loops=[["okpts(this.points)", "0<=j and j<=i and implies(i>0, j>0)", "len(this.points)==k", "implies(j>0, this.points[0].val.x==0-inf())", "steeper(this.points,j)", "further(this.points,j)", "finite(this.points,j)", ("meets", "implies(j>1, line(this.points[j-1],this.points[j-1].val.x)==line(this.points[j-2],this.points[j-1].val.x))"), "meeting(this.points,j)",
              "forall(lambda q: implies(i<=q and q<k, this.points[q]==entry(this.points)[q]), pat=this.points[q])", "implies(i>0, this.points[j-1].val.m==entry(this.points)[i-1].val.m)",
              "forall(lambda q: implies(0<=q and q<i, line(entry(this.points)[q],X())<=top(this.points,j,X())), pat=entry(this.points)[q])",
              "forall(lambda q: implies(0<=q and q<j, line(this.points[q],X())<=best(old(this.points),X())), pat=this.points[q])"],
             ["0<=j and implies(entry(j)>0, j>0) and j<=entry(j)", "this.points==entry(this.points)", "sameline(l,entry(l)) and implies(entry(j)==0, l.x==entry(l).x)", "implies(0<j, this.points[j-1].val.m<l.m)",
              "implies(entry(j)>0, top(this.points,entry(j),X())<=top(this.points,j,X()) or top(this.points,entry(j),X())<=lineof(l,X()))"]],
      hints=["by_top_max(this.points,len(this.points),best(old(this.points),X()),X())"],
      opts={"uses": ["parallel", "popq", "cross", "top_ub", "top_le", "top_step", "top_one", "top_frame"], "loopby": {0: ["by_cross(this.points[j-2].val.m,this.points[j-2].val.b,l.m,l.b,l.x)", "by_parallel(l.m,entry(this.points)[i-1].val.b,this.points[j-1].val.b,X())"]}, "with": {
          **{f"inv{q} maintained (loop 0": [] for q in (0, 1, 2, 3, 4, 5, 6, 8, 9, 10)}, "meets maintained": [], "same maximum": ["top_le", "top_ub"], "inv11 maintained (loop 0": ["parallel", "top_ub", "top_step", "top_one", "top_frame"], "inv12 maintained (loop 0": ["top_ub"], "inv4 maintained (loop 1": ["popq", "top_ub", "top_step", "top_one"]}})
    C("IsMultiplicativeIdentity", requires=["okpts(this.points)"], ensures=[("the constant line", "result==ident(this.points)")])
    C("IsEdgeEnvelope", requires=["okpts(this.points)"], ensures=[("one edge", "result==(len(this.points)==1 and not null(this.points[0].val.edge))")])
    C("ConvexHull", params=["i"], sig=lambda f: f["pt"] == ["int"], requires=["0<=i and i<=1"], modifies=["this"], ensures=[("zero and one", "this.is_sorted and implies(i==0, len(this.points)==0) and implies(i==1, ident(this.points)) and env(this)")])
    C("operator+=", params=["other"], requires=["env(this)", "env(other)", "len(this.points)+len(other.points)<1000000000"], modifies=["this", "other"],
      ensures=[("still an envelope", "env(this) and env(other)"),
               ("zero is neutral", "implies(len(old(this.points))==0, len(this.points)==len(other.points)) and implies(len(this.points)==0, len(old(this.points))==0 and len(old(other.points))==0)"),
               ("the right operand keeps its value", "implies(len(old(other.points))>0, len(other.points)>0 and best(other.points,X())==best(old(other.points),X()))"),
               ("the maximum of both", "implies(len(old(this.points))>0 and len(old(other.points))>0, best(this.points,X())==max2(best(old(this.points),X()),best(old(other.points),X())))"),
               ("the maximum with zero", "implies(len(old(this.points))==0 and len(old(other.points))>0, best(this.points,X())==best(old(other.points),X())) and implies(len(old(this.points))>0 and len(old(other.points))==0, best(this.points,X())==best(old(this.points),X()))")],
      loops=[["0<=i and i<=len(other.points) and j==len(old(this.points))+i and len(this.points)==len(old(this.points))+len(other.points)", "other.points==entry(other.points)",
              "forall(lambda q: implies(0<=q and q<len(old(this.points)), this.points[q]==old(this.points)[q]), pat=this.points[q])",
              "forall(lambda q: implies(len(old(this.points))<=q and q<j, this.points[q]==other.points[q-len(old(this.points))]), pat=this.points[q])"]],
      hints=["by_top_frame(this.points,old(this.points),len(this.points),X())", "by_top_cat(this.points,old(this.points),other.points,len(old(this.points)),len(other.points),X())"], opts={"uses": []})
    C("operator*=", params=["other"], requires=["env(this)", "env(other)", "len(this.points)+len(other.points)<1000000000", "0-inf()<X() and X()<inf()"], modifies=["this", "other"],
      ensures=[("still an envelope", "env(this) and env(other)"),
               ("zero annihilates", "iff(len(this.points)==0, len(old(this.points))==0 or len(old(other.points))==0)"),
               ("the right operand keeps its value", "implies(len(old(other.points))>0, best(other.points,X())==best(old(other.points),X()))"),
               ("the sum of both", "implies(len(old(this.points))>0 and len(old(other.points))>0, best(this.points,X())==best(old(this.points),X())+best(old(other.points),X()))")],
      loops=[["0<=i and i<=len(other.points) and len(this.points)==i", "okpts(this.points)",
              "forall(lambda q: implies(0<=q and q<i, this.points[q].val.m==other.points[q].val.m+edge_m and this.points[q].val.b==other.points[q].val.b+edge_b and this.points[q].val.x==other.points[q].val.x), pat=this.points[q])",
              "okpts(other.points) and hull(other.points)", "steeper(this.points,i)", "further(this.points,i)", "finite(this.points,i)", "meeting(this.points,i)", "LINE(edge_m,edge_b,X())==best(old(this.points),X())",
              "forall(lambda q: implies(0<=q and q<i, line(this.points[q],X())==line(other.points[q],X())+best(old(this.points),X())), pat=this.points[q])"],
             ["this_size==len(this.points) and other_size==len(other.points) and this_size+other_size<1000000000", "okpts(this.points) and hull(this.points) and okpts(other.points) and hull(other.points)", "0<=this_i and this_i<=this_size and 0<=other_i and other_i<=other_size and implies(this_size>0 and other_size>0, iff(this_i==this_size, other_i==other_size))", "implies(this_size==0 or other_size==0, this_i==0 and other_i==0) and okpts(new_points) and len(new_points)<=this_i+other_i and implies(this_i+other_i>0, len(new_points)>0)",
              "implies(this_i<this_size, this_next_val==ite(this_i+1<this_size, this.points[this_i+1].val.x, inf()) and other_next_val==ite(other_i+1<other_size, other.points[other_i+1].val.x, inf()))",
              "implies(this_i==this_size and this_size>0 and other_size>0, cur_x==inf())", "implies(this_i<this_size, cur_x<this_next_val and cur_x<other_next_val)", "implies(this_i<this_size and other_i<other_size, this.points[this_i].val.x<=cur_x and other.points[other_i].val.x<=cur_x)",
              "iff(len(new_points)==0, cur_x==0-inf()) and 0-inf()<=cur_x", "implies(this_i<this_size, cur_x<inf())",
              "implies(len(new_points)>0, new_points[0].val.x==0-inf())",
              "steeper(new_points,len(new_points))", "further(new_points,len(new_points))", "finite(new_points,len(new_points))", "meeting(new_points,len(new_points))",
              "forall(lambda q: implies(0<=q and q<len(new_points), new_points[q].val.x<cur_x), pat=new_points[q])",
              "forall(lambda q: implies(0<=q and q<len(new_points) and this_i<this_size, new_points[q].val.m<this.points[this_i].val.m+other.points[other_i].val.m), pat=new_points[q])",
              "implies(len(new_points)>0 and this_i<this_size, line(new_points[len(new_points)-1],cur_x)==line(this.points[this_i],cur_x)+line(other.points[other_i],cur_x))",
              "forall(lambda q: implies(0<=q and q<len(new_points), line(new_points[q],X())<=best(this.points,X())+best(other.points,X())), pat=new_points[q])",
              ("lastseg", "implies(len(new_points)>0 and new_points[len(new_points)-1].val.x<=X() and X()<=cur_x, line(new_points[len(new_points)-1],X())==best(this.points,X())+best(other.points,X()))"),
              "implies(len(new_points)>0 and X()<=cur_x, best(this.points,X())+best(other.points,X())<=top(new_points,len(new_points),X()))"]],
      hints=["by_zero_line(X())", "by_top_shift(this.points,other.points,len(other.points),best(old(this.points),X()),X())", "by_top_max(this.points,len(this.points),best(old(this.points),X())+best(old(other.points),X()),X())"],
      opts={"loopby": {0: ["by_addl(p.m,p.b,edge_m,edge_b,m,b,X())", "by_addl(p.m,p.b,edge_m,edge_b,m,b,x)", "by_addl(other.points[i-2].val.m,other.points[i-2].val.b,edge_m,edge_b,this.points[i-2].val.m,this.points[i-2].val.b,x)"],
                       1: ["by_top_step(new_points,len(new_points),len(new_points)-1,X())", "by_top_one(new_points,len(new_points),X())", "by_addl(this_point.m,this_point.b,other_point.m,other_point.b,m,b,new_points[len(new_points)-1].val.x)", "by_addl(this_point.m,this_point.b,other_point.m,other_point.b,m,b,X())", "by_addl(this_point.m,this_point.b,other_point.m,other_point.b,m,b,cur_x)"]},
            "uses": ["top_frame", "top_shift", "addl", "top_ub", "top_step", "top_one", "topat"],
            "with": {"caller unchanged": [], **{f"inv{q} maintained (loop 1": [] for q in range(17)}, "inv17 maintained (loop 1": [], "inv18 maintained (loop 1": ["top_ub"], "lastseg maintained": ["topat"], "inv20 maintained (loop 1": ["top_frame"], **{f"inv{q} maintained (loop 0": [] for q in range(10)}, "still an envelope": [], "zero annihilates": [], "keeps its value": []}})
    return cs


def lemmas(u):
    R = lambda s: [(v, R_) for v in s.split()]
    a, n = ("a", u.VP), ("n", I_)
    return [Lemma("line_def", R("m b x"), [], ["LINE(m,b,x)==m*x+b"], pats=["LINE(m,b,x)"], assume="definition of the value of a line"),
            Lemma("quo_def", R("a b"), ["b!=real(0)"], ["quo(a,b)==a/b"], pats=["quo(a,b)"], assume="definition of the quotient"),
            Lemma("parallel", R("m b c x"), ["b<=c"], ["LINE(m,b,x)<=LINE(m,c,x)"], pats=["(LINE(m,b,x),LINE(m,c,x))"], uses=["line_def"]),
            Lemma("meet", R("m b n c y x"), ["m<n", "LINE(m,b,y)==LINE(n,c,y)"], ["implies(x<=y, LINE(n,c,x)<=LINE(m,b,x))", "implies(x>=y, LINE(n,c,x)>=LINE(m,b,x))"], pats=["(LINE(m,b,y),LINE(n,c,y),LINE(m,b,x),LINE(n,c,x))"], uses=["line_def"]),
            Lemma("cross", R("m b n c x"), ["m<n", "x==quo(c-b,m-n)"], ["LINE(m,b,x)==LINE(n,c,x)"], pats=["(LINE(m,b,x),LINE(n,c,x))"], uses=["line_def", "quo_def"]),
            Lemma("pop", R("m b n c o d y x"), ["m<n and n<o", "LINE(m,b,y)==LINE(n,c,y)", "y>=quo(d-c,n-o)"], ["LINE(n,c,x)<=LINE(m,b,x) or LINE(n,c,x)<=LINE(o,d,x)"], pats=["(LINE(m,b,y),LINE(n,c,y),LINE(m,b,x),LINE(n,c,x),LINE(o,d,x))"], uses=["line_def", "quo_def"]),
            Lemma("popq", [a, n, ("q", I_)] + R("o d x"), ["1<=q", "a[q-1].val.m<a[q].val.m and a[q].val.m<o", "line(a[q-1],a[q].val.x)==line(a[q],a[q].val.x)", "a[q].val.x>=quo(d-a[q].val.b,a[q].val.m-o)"], ["line(a[q],x)<=line(a[q-1],x) or line(a[q],x)<=LINE(o,d,x)"], pats=["(line(a[q],x),a[q].val.x,LINE(o,d,x),top(a,n,x))"], uses=["pop"]),
            Lemma("top_ub", [a, n, ("q", I_), ("x", R_)], ["0<=q and q<n"], ["line(a[q],x)<=top(a,n,x)"], induct="n", pats=["(line(a[q],x),top(a,n,x))"]),
            Lemma("top_le", [a, n, ("c", u.VP), ("k", I_), ("x", R_)], ["1<=n", "forall(lambda q: implies(0<=q and q<n, line(a[q],x)<=top(c,k,x)), pat=a[q])"], ["top(a,n,x)<=top(c,k,x)"], induct="n", pats=["(top(a,n,x),top(c,k,x))"]),
            Lemma("top_one", [a, n, ("x", R_)], ["n==1"], ["top(a,n,x)==line(a[0],x)"], pats=["top(a,n,x)"]),
            Lemma("top_step", [a, n, ("k", I_), ("x", R_)], ["1<=k and n==k+1"], ["top(a,n,x)==ite(top(a,k,x)<line(a[k],x), line(a[k],x), top(a,k,x))"], pats=["(top(a,n,x),top(a,k,x))"]),
            Lemma("top_wit", [a, n, ("x", R_)], ["1<=n"], ["exists(lambda q: 0<=q and q<n and top(a,n,x)==line(a[q],x), pat=a[q])"], induct="n", pats=["top(a,n,x)"]),
            Lemma("top_max", [a, n] + R("v x"), ["1<=n", "forall(lambda q: implies(0<=q and q<n, line(a[q],x)<=v), pat=a[q])"], ["top(a,n,x)<=v"], induct="n", pats=[]),
            Lemma("addl", R("m b n c o d x"), ["o==m+n", "d==b+c"], ["LINE(o,d,x)==LINE(m,b,x)+LINE(n,c,x)"], pats=["(LINE(m,b,x),LINE(n,c,x),LINE(o,d,x))"], uses=["line_def"]),
            Lemma("zero_line", R("x"), [], ["LINE(0,0,x)==0"], pats=["LINE(0,0,x)"], uses=["line_def"]),
            Lemma("top_shift", [a, ("c", u.VP), n] + R("d x"), ["1<=n", "forall(lambda q: implies(0<=q and q<n, line(a[q],x)==line(c[q],x)+d), pat=a[q])"], ["top(a,n,x)==top(c,n,x)+d"], induct="n", pats=[], hints=["ih(a,c,n-1,d,x)"], uses=["top_one"]),
            Lemma("top_cat", [a, ("c", u.VP), ("e", u.VP), n, ("k", I_), ("x", R_)], ["1<=n and 1<=k", "forall(lambda q: implies(0<=q and q<n, a[q]==c[q]), pat=a[q])", "forall(lambda q: implies(n<=q and q<n+k, a[q]==e[q-n]), pat=a[q])"],
                  ["top(a,n+k,x)==max2(top(c,n,x),top(e,k,x))"], induct="k", hints=["by_top_frame(a,c,n,x)", "ih(a,c,e,n,k-1,x)", "by_top_step(a,n+k,n+k-1,x)", "by_top_one(e,k,x)"], pats=[]),
            Lemma("ups", [a, n, ("r", I_), ("q", I_), ("x", R_)], ["0<=r and r<=q and q<n", "hulln(a,n)", "q==0 or a[q].val.x<=x"], ["line(a[r],x)<=line(a[q],x)"], induct="q", hints=["ih(a,n,r,q-1,x)", "by_meet(a[q-1].val.m,a[q-1].val.b,a[q].val.m,a[q].val.b,a[q].val.x,x)"], pats=[]),
            Lemma("downs", [a, n, ("r", I_), ("q", I_), ("x", R_)], ["0<=q and q<=r and r<n", "hulln(a,n)", "q+1==n or x<=a[q+1].val.x"], ["line(a[r],x)<=line(a[q],x)"], induct="r", hints=["ih(a,n,r-1,q,x)", "by_meet(a[r-1].val.m,a[r-1].val.b,a[r].val.m,a[r].val.b,a[r].val.x,x)"], pats=[]),
            Lemma("topat", [a, n, ("q", I_), ("x", R_)], ["0<=q and q<n", "hulln(a,n)", "q==0 or a[q].val.x<=x", "q+1==n or x<=a[q+1].val.x"], ["top(a,n,x)==line(a[q],x)"], hints=["forall(lambda r: by_ups(a,n,r,q,x), pat=a[r])", "forall(lambda r: by_downs(a,n,r,q,x), pat=a[r])", "by_top_max(a,n,line(a[q],x),x)", "by_top_ub(a,n,q,x)"], pats=["(top(a,n,x),line(a[q],x))"]),
            Lemma("top_frame", [a, ("c", u.VP), n, ("x", R_)], ["1<=n", "forall(lambda q: implies(0<=q and q<n, a[q].val.m==c[q].val.m and a[q].val.b==c[q].val.b), pat=a[q])"], ["top(a,n,x)==top(c,n,x)"], induct="n", pats=["(top(a,n,x),top(c,n,x))"])]


SRCS = ["mteval/" + x for x in "ns.cc ns_cer.cc ns_wer.cc ns_ter.cc ns_ter_impl.cc ns_ext.cc ns_comb.cc ns_ssk.cc scorer.cc aer_scorer.cc wer.cc ter.cc comb_scorer.cc external_scorer.cc".split()] + \
    ["utils/" + x for x in "tdict.cc fdict.cc filelib.cc gzstream.cc verbose.cc stringlib.cc alignment_io.cc".split()] + ["decoder/hg.cc", "decoder/viterbi.cc", "decoder/trule.cc"] + \
    ["training/dpmert/" + x for x in "mert_geometry.cc line_optimizer.cc error_surface.cc ces.cc".split()]
FNS = [c for c in "SlopeCompare::operator() ConvexHull::Sort ConvexHull::IsMultiplicativeIdentity ConvexHull::IsEdgeEnvelope ConvexHull::ConvexHull ConvexHull::operator+= ConvexHull::operator*=".split()]
PROPERTY = Property("M03", [UnitSpec("training/dpmert/mert_geometry.cc", build, FNS, lemmas=lemmas, opts={"finite_quot": True})],
    driver=Driver("m03.cc", sources=SRCS, libs=["-lz"], flags=["-I" + os.path.join(ir.REPO, "training/dpmert")], secs=25),
    bounded=["ConvexHullWeightFunction, ConstructTranslation, CollectEdgesUsed, ComputeErrorSurface, LineOptimize, directions, surface encoding: random forests of up to 4 nodes and 500 derivations against enumeration"])
